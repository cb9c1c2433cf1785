#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, easier to edit than JSONL)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

L = "libvvhd/src/"; H = "libvvhd/headers/"; U = "utils/"
p("C01", "Snapshot round trip: what a snapshot stores is what loading restores",
  "Every quantity of the space, of each body, of each body segment and of each particle list that a snapshot file stores is put back by loading that file into the same quantity, with the same type, units and meaning. No stored quantity is skipped, swapped with another, rescaled, or restored only for some states, and every parameter of the simulation that a script can set is stored.",
  ["inputs", "histories"], "every state of a space (any bodies, lists, conditions, parameter values) saved and loaded, any number of times",
  "tests save a few spaces and look at a few attributes; a field forgotten or swapped on one side only shows for a state in which its value is not the default",
  [L+"TSpace_save_hdf.cpp", L+"TSpace_load_hdf.cpp", L+"vvhdf.cpp"],
  [("writer: attributes and datasets of a snapshot", L+"TSpace_save_hdf.cpp: Space::save_hdf, dataset_write_list, dataset_write_body"),
   ("reader of the same names", L+"TSpace_load_hdf.cpp: Space::load_hdf, dataset_read_list, dataset_read_body"),
   ("encodings of the conditions", L+"vvhdf.cpp: h5a_read, h5a_write for bc_t and hc_t")],
  observe=["attributes and datasets of the saved file", "fields of the loaded space"])
p("C02", "Loading a file replaces the whole previous state of the space",
  "After loading a snapshot into a space, nothing of what the space held before is left: every list and every stored parameter comes from the file or is empty or default when the file has none. (A legacy file without a header restores lists only.)",
  ["histories", "inputs"], "every earlier content of the space and every file, including files that lack some lists or attributes",
  "tests load into fresh spaces; the leftovers only appear when a populated space loads a file with a missing part",
  [L+"TSpace.cpp", L+"TSpace_load_hdf.cpp", L+"TSpace_load_v13.cpp"],
  [("lists cleared before reading", L+"TSpace.cpp: Space::load"), ("parameters assigned unconditionally", L+"TSpace_load_hdf.cpp: Space::load_hdf")])
p("C03", "No failure of a file-format operation is ignored",
  "While a snapshot or a time series is written or read, every storage-library operation that fails (create, open, read, write, close, select, commit) surfaces as an error to the caller. No result is used before its failure has been ruled out. Not meant: the probes that only ask whether a file or attribute exists, and closes of helper handles (data spaces, property lists) and in destructors.",
  ["fault_sequences", "inputs"], "every point at which the storage library can fail, for every file and state",
  "tests run on a healthy disk with well-formed files; each single failing call would need its own injected fault",
  [L+"TSpace_save_hdf.cpp", L+"TSpace_load_hdf.cpp", L+"vvhdf.cpp", L+"vvhdf_h5t.cpp", L+"MStepdata.cpp", L+"TSpace.cpp"],
  [("negative result raises", L+"vvhdf.cpp: h5_throw"), ("every H5 call site", L+"*.cpp")])
p("C04", "Files and library handles are released on every exit",
  "Every file, archive, directory, storage-library object and heap block that an operation opens or allocates for itself is closed or freed exactly once by the time the operation ends, whether it succeeds, returns an error or raises one. In particular a failed save or load leaves no file open, so it can be retried in the same process. Not meant: descriptors handed over to a started program, what is still open when a tool ends, and exhausted memory.",
  ["fault_sequences", "histories"], "every exit path of every operation, repeated any number of times in one process",
  "a leak or a double close is invisible to a test that calls an operation once and checks its result",
  [L+"TSpace.cpp", L+"TSpace_save_hdf.cpp", L+"TSpace_load_hdf.cpp", L+"TSpace_load_v13.cpp", L+"MStepdata.cpp", L+"TBody.cpp", L+"XField.cpp", U+"vvplot/gnuplotter.cpp"],
  [("acquire/release pairs", L+"*.cpp and utils/*/*.cpp: H5*open/create/close, fopen/fclose, archive_*_new/free, malloc/free")])
p("C05", "Raw layouts used for files agree with the objects in memory",
  "Wherever an object's memory is written to or read from a file as raw bytes or as a described composite, the described names, order, offsets, sizes and strides are those of the object itself. The x, y (and rotation) components, the particle position and strength and the rational time keep their places in every such description.",
  ["inputs", "programs"], "every composite type, list element and array that is transferred raw, whatever its values",
  "a wrong offset or stride still reads back what the same build wrote, and only a foreign reader or unequal component values show it",
  [L+"vvhdf_h5t.cpp", L+"TSpace_save_hdf.cpp", L+"TSpace_load_hdf.cpp", L+"TSpace.cpp", L+"MStepdata.cpp", L+"XField.cpp"],
  [("composite type descriptions", L+"vvhdf_h5t.cpp: h5t<TVec>::init, h5t<TVec3D>::init, h5t<TTime>::init"),
   ("strided particle rows", L+"TSpace_save_hdf.cpp: dataset_write_list / dataset_read_list"), ("raw particle reads", L+"TSpace.cpp: Space::load_list_bin")])
p("C06", "Time-series output: one row per step, each column its own quantity",
  "Every call that records a step appends exactly one value of the right quantity to the time series and to every series of every body, so that row i of all series belongs to the same step, and the values of different bodies, components and quantities never trade places. When a simulation restarts at an earlier time, rows from that time on are dropped from all series alike before new ones are appended.",
  ["histories", "inputs"], "every sequence of steps and restarts, every number of bodies, segments and sensors",
  "tests look at few rows of one-body runs; a column mix-up or a missed truncation needs several bodies, a restart, or unequal components",
  [L+"MStepdata.cpp", H+"MStepdata.hpp"],
  [("opening or creating the series", L+"MStepdata.cpp: Stepdata::Stepdata"), ("appending", L+"MStepdata.cpp: Stepdata::write")])
p("C07", "Script attributes read back what was assigned",
  "For every writable attribute of a space, body, particle or vector that scripts can see, assigning a valid value changes exactly the quantity of that name and reading the attribute returns it. Every documented attribute name is accepted, different names denote different quantities, and the value's type is the documented one.",
  ["inputs", "programs"], "every attribute of every script-visible object and every valid value, in any order of assignments",
  "tests touch some attributes with one value each; crossed accessors or a wrong offset show only for a particular pair of names",
  [U+"vvflow/lua_space.cpp", U+"vvflow/lua_tbody.cpp", U+"vvflow/lua_tobj.cpp", U+"vvflow/lua_tvec.cpp", U+"vvflow/lua_tvec3d.cpp", U+"vvflow/getset.cpp", "doc/"],
  [("attribute tables", U+"vvflow/lua_*.cpp: luavvd_member tables"), ("getters and setters", U+"vvflow/getset.cpp")])
p("C08", "Script errors are reported and never half-applied",
  "An assignment of a value of the wrong type to an attribute, or an assignment to an unknown or read-only attribute name, raises a script error and leaves the object unchanged. A script that raises an error, or a simulation that fails, makes the command end with a non-zero exit status.",
  ["inputs", "programs"], "every script and every invalid value, at top level and inside a simulation",
  "tests try a handful of bad values; the unchecked combination is the one not tried",
  [U+"vvflow/getset.cpp", U+"vvflow/lua_tbody.cpp", U+"vvflow/vvflow.cpp", U+"vvflow/lua_space.cpp"],
  [("type checks before the store", U+"vvflow/getset.cpp, lua_*.cpp setters"), ("exit status", U+"vvflow/vvflow.cpp: main, simulate")])
p("C09", "Shape generators check every parameter and build a consistent body",
  "Every body generator rejects missing, ill-typed, out-of-range and unknown parameters with an error, uses every parameter it accepts, and hands the script only a body whose derived geometry has been computed from its final contour.",
  ["inputs", "programs"], "every parameter table passed to every generator",
  "tests call generators with a few valid tables; one ignored or unchecked parameter in one generator stays unseen",
  [U+"vvflow/gen_*.cpp"],
  [("parameter extraction and validation", U+"vvflow/gen_body.cpp: get_param, gen_*"), ("geometry refresh", L+"TBody.cpp: doUpdateSegments, doFillProperties")])
p("C10", "Derived body geometry always matches the contour",
  "Segment midpoints, lengths, area, centre of mass, moment of inertia, bounding regions and the heat layer that any later query of a body uses are those of its current contour: every operation that changes the contour or a property they depend on refreshes all of them before it ends.",
  ["histories", "inputs"], "every sequence of moves, loads, copies, generation and script edits of a body",
  "a stale cached value is only visible to the particular later query that uses it, after the particular mutation",
  [L+"TBody.cpp", H+"TBody.hpp", L+"TSpace_load_hdf.cpp", U+"vvflow/lua_tbody.cpp", U+"vvflow/gen_body.cpp"],
  [("refresh after motion", L+"TBody.cpp: TBody::move, doUpdateSegments, doFillProperties"), ("heat layer cache", L+"TBody.cpp: isPointInHeatLayer")])
p("C11", "A copied object is complete and independent",
  "A copy of a body, expression, matrix, tree-held particle or other value has every property of the original and shares nothing with it that either can change. Every constructor leaves no property undefined.",
  ["inputs", "histories"], "every state of the original and every later change of either copy",
  "a forgotten member shows only when that member was non-default, and sharing only after a later mutation",
  [L+"TBody.cpp", L+"TEval.cpp", L+"XField.cpp", H+"TSpace.hpp"],
  [("user-written copy operations", L+"TBody.cpp: TBody(const TBody&), operator=; "+L+"TEval.cpp: TEval(const TEval&), operator="), ("constructors", H+"*.hpp")])
p("C12", "Expression evaluation depends only on its text and its argument",
  "Evaluating a time-dependent expression returns the value of its current text at the given argument, whatever was evaluated before, on any thread; assigning an invalid text is reported and leaves the previous expression in force.",
  ["histories", "schedules", "inputs"], "every sequence and interleaving of assignments and evaluations",
  "cached values make the result depend on history: a test would have to guess the two evaluations that collide",
  [L+"TEval.cpp", H+"TEval.hpp"],
  [("cached result keyed by argument", L+"TEval.cpp: TEval::eval, setEvaluator"), ("serialised evaluation", L+"TEval.cpp: critical section")])
p("C13", "Parallel computation is race free and gives the serial result",
  "In every parallel loop, no two iterations write the same memory and none reads what another writes, except through a reduction, an atomic or a critical section. The result of a step therefore does not depend on the number of threads or their schedule.",
  ["schedules", "inputs"], "every schedule and thread count, for every space",
  "tests run once with the machine's default schedule; a race corrupts one value in rare interleavings",
  [L+"MConvectiveFast.cpp", L+"TMatrix.cpp", L+"XVorticity.cpp", L+"XVelocity.cpp", L+"XPressure.cpp", L+"XStreamfunction.cpp", L+"TEval.cpp"],
  [("parallel regions", L+"*.cpp: #pragma omp"), ("per-iteration targets", L+"TSortedTree.cpp: findNode, getBottomNodes")])
p("C14", "No exception crosses a parallel region, a C callback or a C frame",
  "An error raised inside a parallel region, inside a callback run by a C library, or below a script-callable function is caught there and turned into that boundary's own error; it never terminates the process or unwinds through C frames.",
  ["fault_sequences", "inputs"], "every error that library code can raise at every such boundary",
  "tests do not make the library fail underneath a script call or inside a worker thread",
  [U+"vvflow/lua_*.cpp", U+"vvflow/vvflow.cpp", L+"TEval.cpp", L+"MConvectiveFast.cpp", L+"TSpace_load_hdf.cpp", U+"vvxtract/vvxtract.cpp"],
  [("script-callable functions", U+"vvflow/*.cpp: lua_CFunction entries"), ("parallel regions", L+"*.cpp: #pragma omp"), ("C callbacks", L+"TSpace_load_hdf.cpp: list_bodies")])
p("C15", "The spatial index is only used while it describes the particles",
  "In every program flow the spatial index is built before it is consulted, and no particle or segment is added, removed, moved or reordered between its construction and its last use; it is released exactly once. (Merging of close particles by the core-size stage, inside the index, is excepted.)",
  ["histories", "inputs"], "every path through the simulation loop, the field evaluators and the tools",
  "a stale index yields plausible numbers or rare crashes; the tests' short runs do not hit the paths that skip a rebuild",
  [L+"TSortedTree.cpp", L+"MConvectiveFast.cpp", L+"MDiffusiveFast.cpp", L+"MEpsilonFast.cpp", L+"MFlowmove.cpp", L+"X*.cpp", U+"vvflow/vvflow.cpp"],
  [("build/destroy protocol", L+"TSortedTree.cpp: build, destroy, findNode"), ("users", U+"vvflow/vvflow.cpp: simulate; "+L+"XVelocity.cpp, XVorticity.cpp, XPressure.cpp, XStreamfunction.cpp")])
p("C16", "Every simulation step runs its stages in the physical order",
  "Each step solves for the surface circulation, sheds heat and vortices, computes and records forces, computes convective and diffusive speeds from fresh core sizes, moves and cleans the particles and only then advances time; no stage is skipped, repeated or fed with data of another step except in the documented cases (collision, ideal or isothermal fluid). A snapshot is written exactly when the current time is a non-negative multiple of the saving period, before that step sheds vortices or moves particles.",
  ["histories", "inputs"], "every step of every simulation, including steps with collisions, snapshots, streaks and profiles",
  "tests run a few steps of simple cases; a missing or misordered stage in a rare branch changes numbers the tests do not compare",
  [U+"vvflow/vvflow.cpp", L+"MFlowmove.cpp"],
  [("the loop", U+"vvflow/vvflow.cpp: simulate")])
p("C17", "The linear system is square: one equation and one slot per unknown",
  "Each unknown (segment circulation, body velocity, hydrodynamic and holder force components) has its own column, each gets exactly one equation in its own row, and after solving each is read back from the column in which its coefficients were placed. All equations agree on which column belongs to which unknown, right-hand sides are set before the system is solved, a stored inverse is used again only while the matrix it was computed from is unchanged, and a pending collision is taken up by the equation it belongs to and by no other.",
  ["inputs", "histories"], "every number of bodies and segments, boundary condition, fixed, driven, elastic or free body and collision state",
  "tests solve a few one-body systems; a wrong column appears only for a particular combination of conditions on several bodies",
  [L+"MConvectiveFast.cpp", L+"TMatrix.cpp", "libvvhd/headers/TSpace.hpp"],
  [("assembly", L+"MConvectiveFast.cpp: calc_circulation, can_use_inverse, fill_matrix, fill*Equation*"), ("solution", L+"TMatrix.cpp: Matrix::solveUsingInverseMatrix, FillInverseMatrix, fillWithZeros, getCell, getRightCol"), ("size", "libvvhd/headers/TSpace.hpp: Space::total_segment_count")])
p("C18", "Equations and kernels treat x and y as rotations of each other",
  "Rotating the whole problem by a quarter turn rotates the result: in the body equations, the boundary conditions, the velocity and diffusion kernels, force integrals and the geometry updates, the y component is computed from the same terms as the x component under the substitution x->y, y->-x.",
  ["inputs"], "all inputs of every routine that has separate x and y code",
  "tests use symmetric set-ups or look at one component; an error in one component of one term stays within their tolerances",
  [L+"MConvectiveFast.cpp", L+"MDiffusiveFast.cpp", L+"MFlowmove.cpp", L+"TBody.cpp", L+"TSpace.cpp", H+"TVec.hpp", H+"TVec3D.hpp"],
  [("paired equations", L+"MConvectiveFast.cpp: fillHydroX/YEquation, fillSpeedX/YEquation, fillNewton*, fillHooke*"), ("kernels", L+"MConvectiveFast.cpp: near, far, body influence; "+L+"MDiffusiveFast.cpp: vortexInfluence, segmentInfluence")])
p("C19", "Circulation and heat are accounted for when particles change hands",
  "When particles are merged, absorbed by a body, cropped or shed, the strength taken from the flow appears in the merged particle or in the body's bookkeeping with the same magnitude, and each particle is counted exactly once.",
  ["histories", "inputs"], "every configuration of particles and bodies in every step",
  "the amounts lost in one rare branch are far below what a test run can attribute",
  [L+"MFlowmove.cpp", L+"MEpsilonFast.cpp"],
  [("absorption and cleaning", L+"MFlowmove.cpp: move_and_clean, heat_crop"), ("merging", L+"MEpsilonFast.cpp: merge"), ("shedding", L+"MFlowmove.cpp: vortex_shed, heat_shed, streak_shed")])
p("C20", "Queries and plotting never change the flow they look at",
  "Evaluating a field (velocity, vorticity, pressure, stream function), querying a space, body or expression, extracting values and saving a snapshot leave every stored quantity of the space unchanged.",
  ["histories", "inputs"], "every query on every space, interleaved with simulation in any order",
  "a query that disturbs the state is noticed only if the same process goes on to use that state",
  [L+"XVelocity.cpp", L+"XVorticity.cpp", L+"XPressure.cpp", L+"XStreamfunction.cpp", L+"TSpace_save_hdf.cpp", L+"TSpace.cpp", U+"vvxtract/vvxtract.cpp"],
  [("evaluators take the space by const reference", H+"X*.hpp"), ("save", L+"TSpace_save_hdf.cpp")])
p("C21", "Simulation time is exact rational arithmetic",
  "The current time is only ever advanced by exact rational addition of the step, and tests of whether a period divides the time are made on the exact fractions, so after any number of steps the time is exactly the number of steps times the step and no event is missed or doubled. Operations on rational times neither divide by zero nor lose the sign or the denominator.",
  ["histories", "inputs"], "every step size, period and number of steps representable",
  "drift appears after many steps and for awkward fractions only",
  [H+"TTime.hpp", H+"TSpace.hpp", U+"vvflow/vvflow.cpp"],
  [("rational time", H+"TTime.hpp: TTime::add, divisibleBy, makeWithTimescale"), ("advance", H+"TSpace.hpp: Space::finish_step")])
p("C22", "Text is formatted within its buffer and never used as a format",
  "Every formatted or copied text fits the buffer it goes to or is allocated to fit it, whatever names, captions, counts or paths the user supplies, and a result that had to be cut is an error rather than a different file name. Text from users or files is never interpreted as a format, except the documented file-name pattern.",
  ["inputs"], "every user-supplied string and number that is formatted or copied",
  "tests use short names and few bodies",
  [L+"TSpace.cpp", L+"MStepdata.cpp", U+"vvflow/vvflow.cpp", U+"vvplot/vvplot.cpp", U+"vvplot/optparse.cpp", L+"TSpace_load_v13.cpp"],
  [("formatting calls", "libvvhd and utils: sprintf, snprintf, strcpy, strcat, printf family")])
p("C23", "Output files contain exactly what was computed, or an error is reported",
  "Every file that a tool or the library writes replaces earlier contents entirely (only the time series and the sensors log of a simulation are continued by a restart), and a failure to open, write, flush or close it, a short write included, is reported by an exception, an exit status or a message instead of leaving a silently truncated or mixed file. The same holds for what the extraction tool prints.",
  ["fault_sequences", "histories"], "every output file, every earlier content of the same path, every I/O failure",
  "tests write to fresh paths on a healthy disk",
  [L+"TMatrix.cpp", L+"TSpace.cpp", L+"MStepdata.cpp", U+"vvplot/gnuplotter.cpp", U+"vvxtract/vvxtract.cpp", U+"vvflow/vvflow.cpp", U+"vvflow/sensors.cpp"],
  [("creation modes", "libvvhd and utils: fopen, open, H5Fcreate, archive_write_open_filename"), ("result checks", U+"vvplot/gnuplotter.cpp; "+U+"vvflow/sensors.cpp: output; "+L+"TMatrix.cpp: Matrix::save; "+U+"vvxtract/vvxtract.cpp: finish")])
p("C24", "Malformed input files are rejected, not partly used",
  "Reading a body contour, field, sensor list or legacy snapshot that is truncated or malformed reports an error; every length, count and index taken from a file is checked before it is used to size, index or loop, and no value that was not actually read is used.",
  ["inputs", "fault_sequences"], "every byte sequence presented as an input file",
  "tests read well-formed files",
  [L+"TSpace.cpp", L+"TBody.cpp", L+"XField.cpp", L+"TSpace_load_v13.cpp", U+"vvflow/sensors.cpp", U+"vvflow/lua_objlist.cpp"],
  [("readers", L+"TSpace.cpp: load_list_txt, load_list_bin; "+L+"TBody.cpp: load_txt; "+L+"XField.cpp: constructor from file; "+L+"TSpace_load_v13.cpp")])
p("C25", "Command-line values are accepted only when fully valid",
  "Every command-line option of the plotting and extraction tools either parses its whole argument and sets exactly its own setting, or ends the tool with an error and non-zero status; each documented option is recognised and every recognised option takes effect.",
  ["inputs"], "every option and every argument text",
  "tests pass valid arguments",
  [U+"vvplot/optparse.cpp", U+"vvxtract/optparse.cpp", U+"vvflow/optparse.cpp", "doc/"],
  [("option switch", U+"vvplot/optparse.cpp: parse_options"), ("settings", U+"vvplot/optparse.hpp")])
p("C26", "The extraction tool prints the quantity that was asked for",
  "Each key of the extraction tool prints exactly the quantity it names of the space or body addressed, the same one that scripts and snapshots know under that name, and unknown keys or bodies give an error status.",
  ["inputs"], "every key and every snapshot",
  "tests compare a few keys on one snapshot in which many quantities coincide (for example are zero)",
  [U+"vvxtract/vvxtract.cpp", U+"vvxtract/optparse.cpp", "doc/"],
  [("key table", U+"vvxtract/vvxtract.cpp: main")])
p("C27", "Empty spaces, bodies and lists are handled everywhere",
  "No operation on a space without bodies, a body without segments or an empty list touches an element that does not exist; such inputs give a defined result or a reported error. Every position taken from a search, a name lookup or a user-supplied number is checked before use.",
  ["inputs"], "every operation on spaces, bodies and lists of any size including zero",
  "tests use populated spaces; each operation has its own unguarded first element",
  [L+"*.cpp", U+"vvflow/*.cpp", U+"vvplot/vvplot.cpp", U+"vvxtract/vvxtract.cpp"],
  [("element access", "libvvhd and utils: front(), back(), begin() dereference, operator[] with stored or user index")])
p("C28", "Runs are reproducible: no result depends on undefined or ambient state",
  "Every value used by a computation was assigned before on every path, and no numerical result or output depends on uninitialised memory, addresses, the clock, the locale, the environment or random numbers, except the recorded creation time.",
  ["inputs", "configurations"], "every path and every environment",
  "uninitialised memory usually happens to be zero under test",
  ["libvvhd/src/*.cpp", "utils/*/*.cpp"],
  [("constructors and locals", "libvvhd and utils"), ("ambient sources", L+"TSpace_save_hdf.cpp: time_local")])
p("C29", "References handed around stay valid",
  "No text pointer, iterator, reference or element address is used after the object it points into was destroyed or may have been moved by growth, removal or reordering of its container.",
  ["inputs", "histories"], "every path of every operation",
  "dangling text and elements usually still read as expected in small tests",
  [L+"MStepdata.cpp", L+"MFlowmove.cpp", U+"vvxtract/vvxtract.cpp", U+"vvflow/*.cpp"],
  [("pointer-yielding calls", "libvvhd and utils: c_str(), data(), begin(), front(), &element")])
p("C30", "A script error never skips the clean-up of native objects",
  "A script-callable function that may raise a script error (which leaves it by a long jump) does so only at points where it holds no native object with a destructor, no open file and no heap block of its own.",
  ["inputs", "fault_sequences"], "every script-callable function, every invalid argument",
  "leaks and corrupted native state after a caught script error are invisible to tests that only see the message",
  [U+"vvflow/*.cpp"],
  [("raising calls", U+"vvflow/*.cpp: luaL_error, luaL_check*, lua_error")])
p("C31", "Script objects are used only with their own native type",
  "A native pointer wrapped in a script object is only ever unwrapped as the type it was wrapped with: the type tag under which each kind of object is published and the tag and native type under which it is received agree at every site, and every published tag has its access table registered.",
  ["programs", "inputs"], "every script and every object passed to every function",
  "a mismatch appears only when a script passes that one kind of object to that one function",
  [U+"vvflow/lua_*.cpp", U+"vvflow/vvflow.cpp", U+"vvflow/getset.cpp"],
  [("publish", U+"vvflow/lua_*.cpp: push*"), ("receive", U+"vvflow/lua_*.cpp: check*, luaL_checkudata"), ("registration", U+"vvflow/vvflow.cpp")])
p("C32", "Computed fields keep their grid, order and metadata through files",
  "A computed field written to a file and read back has the same grid origin, spacing, dimensions and values; positions of grid points used while computing a field are the ones that its header declares.",
  ["inputs"], "every grid and every field",
  "tests compare one small field; a swapped dimension is invisible on a square grid",
  [L+"XField.cpp", H+"XField.hpp", L+"XVelocity.cpp", L+"XVorticity.cpp", L+"XPressure.cpp", L+"XStreamfunction.cpp"],
  [("header and data", L+"XField.cpp: XField::save, XField(const char*), operator<<"), ("loops over the grid", L+"X*.cpp: evaluate")])

# not claimed: numerical properties
p("N01", "The scheme converges to the solution of the Navier-Stokes equations",
  "Refining segments and time step makes forces and velocity fields converge to those of the modelled flow.",
  ["inputs", "configurations"], "every flow in the scope of the method", "needs reference solutions and refinement studies",
  ["libvvhd/src"], [("the whole solver", "libvvhd/src")])
p("N02", "Rational times never overflow",
  "Sums and comparisons of rational times are exact for all step sizes, periods and run lengths that fit the file format.",
  ["inputs", "histories"], "every pair of fractions", "overflow needs particular large coprime timescales",
  [H+"TTime.hpp"], [("common timescale", H+"TTime.hpp: TTime::add")])
p("N03", "Fast summation stays within its accuracy of the direct sum",
  "Velocities from the tree-accelerated sums differ from the direct sums by no more than the method's accuracy for every particle distribution.",
  ["inputs"], "every particle distribution", "needs bounds over all distributions",
  [L+"MConvectiveFast.cpp", L+"TSortedTree.cpp"], [("near and far lists", L+"TSortedTree.cpp")])
p("N04", "Isolines lie on the field's level sets",
  "Every point of every isoline produced for a level lies on that level of the interpolated field and lines are connected correctly.",
  ["inputs"], "every field and level", "needs all sign patterns and merges of line pieces",
  [L+"XIsoline.cpp"], [("marching and merging", L+"XIsoline.cpp")])
p("N05", "Text-processing scripts compute the statistics they name",
  "The averaging, derivative, amplitude and zero-crossing scripts print the statistic of their column for every series.",
  ["inputs"], "every input series", "numerical results of interpreted scripts",
  [U+"scripts"], [("awk programs", U+"scripts/vvawk.*")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
