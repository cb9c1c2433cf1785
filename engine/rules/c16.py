"""C16 every simulation step runs its stages in the physical order."""
from vv.lib import *

TECHNIQUE = "order analysis of the simulation loop (every path between two advances of time, with the branches on bodies, collision, viscosity and saving period evaluated) and value-flow of what each stage clears and reads"
NOTE = """Decides, for every path between two advances of time, which stages run, how often and in which order, for each state of the documented conditions (no bodies,
collision, ideal fluid, saving time), which arguments they get, and that what a step accumulates is cleared in it. What a stage computes is the subject of other properties."""

STAGES = {
    "MConvectiveFast::calc_circulation": "circ", "MFlowmove::heat_shed": "heat", "Space::save": "save", "MFlowmove::vortex_shed": "vort",
    "MFlowmove::streak_shed": "streak", "Space::calc_forces": "forces", "Stepdata::write": "record", "Space::zero_forces": "clear",
    "MEpsilonFast::CalcEpsilonFast": "eps", "MConvectiveFast::process_all_lists": "conv", "sensors::output": "sensors",
    "MDiffusiveFast::process_vort_list": "diffv", "MDiffusiveFast::process_heat_list": "diffh", "MFlowmove::move_and_clean": "move",
    "MFlowmove::heat_crop": "crop", "TSortedTree::build": "build", "TSortedTree::destroy": "destroy",
}
WHAT = {"circ": "the solution for the surface circulation", "heat": "the shedding of heat", "save": "the snapshot", "vort": "the shedding of vortices",
        "streak": "the shedding of streak particles", "forces": "the computation of forces", "record": "the record of forces", "clear": "the clearing of forces",
        "eps": "the computation of core sizes", "conv": "the convective speeds", "sensors": "the output of sensors", "diffv": "the diffusive speeds of vortices",
        "diffh": "the diffusive speeds of heat", "move": "the motion", "crop": "the cropping of heat", "time": "the advance of time"}
# a runs before b in every step in which b runs
ORDER = [("circ", "save"), ("circ", "vort"), ("circ", "forces"), ("heat", "save"), ("heat", "forces"), ("save", "vort"), ("save", "streak"), ("save", "forces"),
         ("vort", "forces"), ("vort", "eps"), ("streak", "conv"), ("heat", "conv"), ("forces", "record"), ("record", "clear"), ("clear", "diffv"), ("clear", "diffh"), ("clear", "move"),
         ("eps", "conv"), ("eps", "diffv"), ("eps", "diffh"), ("eps", "sensors"), ("conv", "move"), ("diffv", "move"), ("diffh", "move"), ("sensors", "move"), ("move", "crop"),
         ("move", "time"), ("crop", "time")]


def run(P, R, tier):
    R.rule("stages", "every stage of a step runs exactly once in each step, in the cases in which it applies")
    R.rule("order", "stages run in the order of their dependence")
    R.rule("arguments", "stages work on the simulated space and get the arguments that belong to them")
    R.rule("save", "a snapshot is written exactly at non-negative multiples of the saving period")
    R.rule("cleared", "what a step accumulates starts from zero in each step")
    loops = [f for f in P.fns.values() if f.blocks and any(d and d.get("q") == "MFlowmove::move_and_clean" for _, _, d in f.calls())]
    R.need(len(loops), 1, "simulation loops")
    for f in loops:
        loop(P, R, f)
    cleared(P, R)


def local(f):
    return lambda g, c: g.q == "Space::finish_step" or "::" not in g.q and g.file == f.file or g.q.startswith("std::__") and False or "lambda" in g.q or "operator()" in g.q


class State:
    """One state of the documented conditions; decides the branches on them."""

    def __init__(s, bodies, collision, viscous, due, positive, again=True):
        s.bodies, s.collision, s.viscous, s.due, s.positive, s.again = bodies, collision, viscous, due, positive, again

    def __str__(s):
        return ", ".join(x for x in ("" if s.bodies else "no bodies", "collision" if s.collision else "", "" if s.viscous else "ideal fluid", "saving period" if s.due else "",
                                     "" if s.positive else "negative time") if x) or "plain step"


def loop(P, R, f):
    sg = SG(P, f, inline=local(f), maxdepth=5, maythrow=lambda k: False, assume=lambda t: None)
    st, at = {}, {}
    for e in sg.events:
        if e.kind == "call":
            at[e.n] = e
            if e.q in STAGES and e.inl is None:
                st.setdefault(STAGES[e.q], set()).add(e.n)
        if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == "Space::time" and e.op != "decl":
            st.setdefault("time", set()).add(e.n)
        if e.kind == "call" and e.q == "TTime::operator=" and e.obj is not None and e.obj[0] == "fld" and e.obj[2] == "Space::time":
            st.setdefault("time", set()).add(e.n)
    ev = {}
    for e in sg.events:
        ev.setdefault(e.n, []).append(e)
    for k in WHAT:
        if not R.check(bool(st.get(k)), "stages", f.where(), k, "%s is missing from the simulation" % WHAT[k], k):
            return
    for n in sorted(st["time"]):
        for e in ev[n]:
            if e.kind == "write":
                advance(R, sg, at, e)
    begin = set([sg.entry.i])
    after = set(m for n in st["time"] for m in sg.after(n))
    coll = collision(R, sg, f, st, ev)
    brs = {e.n: e for e in sg.events if e.kind == "br"}
    unknown = {}
    for bodies in (1, 0):
        for c in (0, 1):
            for visc in (1, 0):
                for due, pos in ((0, 1), (1, 1), (1, 0)):
                    s = State(bodies, c, visc, due, pos)
                    edges = decider(sg, at, s, coll, brs, unknown)
                    check(R, sg, f, st, ev, s, begin | after if not c else after, edges)
    for n, e in sorted(unknown.items()):
        # a branch of the loop that none of the conditions decides and on which a stage depends
        for s in (State(1, 0, 1, 0, 1),):
            pass
    args(P, R, sg, f, st, ev, at)


def advance(R, sg, at, e):
    ok = False
    for v in sg.expand(e.val):
        t = show(v)
        for x in subterms(v):
            if x[0] == "ret" and x[1] in at and at[x[1]].q == "TTime::add":
                a = [copied_from(sg, x[1], y) for y in at[x[1]].args]
                ok = sorted(y[2] if y is not None and y[0] == "fld" else "?" for y in a) == ["Space::dt", "Space::time"]
    R.check(ok, "arguments", e.where(), "advance", "time is advanced by %s" % show(e.val), "time + dt")


def collision(R, sg, f, st, ev):
    """The variable that tells a collision: passed to the motion and to the solution."""
    locs = {}
    for k in ("move", "circ"):
        for n in st[k]:
            for e in ev[n]:
                if e.kind == "call" and e.q in STAGES:
                    a = e.args[-1 if k == "circ" else 1]
                    locs.setdefault(a, set()).add(k)
    R.check(len(locs) == 1 and all(a[0] in ("loc", "fld", "g") for a in locs), "arguments", f.where(), "collision", "the motion and the solution do not share one collision state: %s" % ", ".join(sorted(show(a) for a in locs)), "collision")
    for a in locs:
        for e in sg.events:
            if e.kind == "write" and e.loc == a and e.op != "out":
                back = set(sg.reach([m for n in st["time"] for m in sg.after(n)]))
                R.check(e.n not in back, "arguments", e.where(), "collision reset", "the collision state is overwritten between the motion and the next solution")
                R.check(e.val in (("c", 0), ("c", None)) or "nullptr" in show(e.val), "arguments", e.where(), "collision start", "the simulation starts with a collision")
    return set(locs)


def decider(sg, at, s, coll, brs, unknown):
    import math

    def env(x):
        if x[0] in ("ld", "out", "phi") and (x[1] if x[0] != "phi" else x[2]) in coll:
            return 1 if s.collision else 0
        if x[0] == "out" and x[1] in at and at[x[1]].q in ("MFlowmove::move_and_clean", "MConvectiveFast::calc_circulation"):
            return 1 if s.collision else 0
        t = show(x)
        if x[0] == "f" and x[1] in ("size", "std::vector::size") and "BodyList" in t:
            return 3 if s.bodies else 0
        if x[0] == "f" and "empty" in x[1] and "BodyList" in t:
            return 0 if s.bodies else 1
        if x[0] == "ld" and x[1][0] == "fld" and x[1][2] == "Space::re":
            return 100.0 if s.viscous else float("inf")
        if x[0] == "ld" and x[1][0] == "fld" and x[1][2] == "Space::finish":
            return 100.0
        if x[0] == "f" and x[1] == "std::numeric_limits::infinity":
            return float("inf")
        if x[0] == "f" and x[1] == "std::numeric_limits::max":
            return 1.7976931348623157e308
        if x[0] == "ret" and x[1] in at:
            e = at[x[1]]
            if e.q == "TTime::divisibleBy":
                o, a = copied_from(sg, e.n, e.obj), copied_from(sg, e.n, e.args[0])
                if o is not None and o[0] == "fld" and o[2] == "Space::time" and a is not None and a[0] == "fld" and a[2] == "Space::dt_save":
                    return 1 if s.due else 0
            if e.q == "TTime::operator double":
                o = copied_from(sg, e.n, e.obj)
                o = o[2] if o is not None and o[0] == "fld" else None
                if o == "Space::time":
                    return 0.0 if s.positive else -1.0
                if o == "Space::dt":
                    return 0.5
            if e.q == "std::vector::size" and "BodyList" in show(e.obj):
                return 3 if s.bodies else 0
        if x[0] == "ld" and x[1][0] == "fld" and x[1][2] in ("TTime::value", "TTime::timescale") and x[1][1][0] == "fld":
            k = x[1][1][2]
            if x[1][2] == "TTime::timescale":
                return 2
            return {"Space::time": 0 if s.positive else -2, "Space::dt": 1, "Space::finish": 200, "Space::dt_save": 1}.get(k)
        return None
    cache = {}

    def edges(a, b, l):
        e = brs.get(a)
        if e is None or l is None:
            return True
        if a not in cache:
            cache[a] = decide(e.val, env)
            if cache[a] is None:
                unknown[a] = e
        v = cache[a]
        return v is None or l[1] == bool(v)
    return edges


def check(R, sg, f, st, ev, s, begin, edges):
    time = st["time"]
    name = str(s)
    live = set(sg.reach(begin, edges=edges))
    live2 = set(sg.reach(begin, stop=time, edges=edges))
    if not (time & live):
        R.assume("no step in the state '%s' of %s" % (name, f.q))
        return
    need = {k: 1 for k in WHAT if k not in ("time", "circ", "save", "diffv", "diffh")}
    need["circ"] = (2 if s.collision else 1) if s.bodies else None
    need["save"] = 1 if s.due and s.positive else 0
    need["diffv"] = need["diffh"] = 1 if s.viscous else 0
    first = lambda n: ev[n][0].where()
    for k, cnt in need.items():
        ns = st[k]
        rule = "save" if k == "save" else "stages"
        if cnt is None:
            continue
        if cnt == 0:
            for n in sorted(ns & live2):
                R.bad(rule, first(n), "%s in %s" % (k, name), "%s happens in a step where it must not (%s)" % (WHAT[k], name))
            R.check(True, rule, f.where(), "%s not in %s" % (k, name), "", "%s not in: %s" % (k, name))
            continue
        # number of occurrences between begin and time
        starts, n_seen = set(begin), 0
        for i in range(cnt):
            miss = set(sg.reach(starts, stop=ns | time, edges=edges))
            if not R.check(not (miss & time), rule, f.where(), "%s %d in %s" % (k, i, name), "%s may be left out of a step (%s)" % (WHAT[k], name) if i == 0 else "%s is not repeated after a collision" % WHAT[k], "%s: %s" % (k, name)):
                break
            starts = set(m for n in ns & miss for m in sg.after(n))
        else:
            more = set(sg.reach(starts, stop=time, edges=edges)) & ns
            for n in sorted(more):
                R.bad(rule, first(n), "%s twice in %s" % (k, name), "%s may happen once more in the same step (%s)" % (WHAT[k], name))
    for a, b in ORDER:
        if a == "save" and not need["save"] or a in ("diffv", "diffh") and not s.viscous or b == "save" and not need["save"] or a == "circ" and not s.bodies:
            continue
        # b is not reached before a
        early = set(sg.reach(begin, stop=st[a] | time if b != "time" else st[a], edges=edges)) & st[b]
        for n in sorted(early):
            R.bad("order", first(n), "%s %s in %s" % (a, b, name), "%s comes before %s of its step (%s)" % (WHAT[b], WHAT[a], name))
        # and a does not follow b in the same step
        if b != "time":
            late = set(sg.reach(set(m for n in st[b] & live for m in sg.after(n)), stop=time, edges=edges)) & st[a]
            for n in sorted(late):
                R.bad("order", first(n), "%s after %s in %s" % (a, b, name), "%s follows %s of its step (%s)" % (WHAT[a], WHAT[b], name))
        R.check(True, "order", f.where(), "%s %s in %s" % (a, b, name), "", "%s before %s: %s" % (a, b, name))


def args(P, R, sg, f, st, ev, at):
    space = set()
    for k in st:
        for n in st[k]:
            for e in ev[n]:
                if e.kind != "call" or e.q not in STAGES:
                    continue
                if k == "move":
                    R.check(all(v in (("c", 1), ("c", True)) for v in sg.expand(e.args[0])), "arguments", e.where(), "remove", "particles inside bodies are not removed", "removal on")
                if k == "eps":
                    for v, want in ((100.0, 1), (float("inf"), 0)):
                        got = decide(e.args[0], lambda x: v if x[0] == "ld" and x[1][0] == "fld" and x[1][2] == "Space::re" else float("inf") if x[0] == "f" and x[1] == "std::numeric_limits::infinity" else None)
                        if got is None:
                            R.assume("argument of %s not resolved" % e.q)
                            continue
                        R.check(bool(got) == bool(want), "arguments", e.where(), "merge %d" % want, "particles are %s in %s fluid" % ("merged" if got else "not merged", "a viscous" if want else "an ideal"), "merge iff viscous")
                if k == "crop":
                    R.check(len(e.args) == 0 or e.args[0] == ("c", 10.0) or e.args[0][0] == "c", "arguments", e.where(), "crop", "heat is cropped at %s" % [show(x) for x in e.args], "crop distance")


# ------------------------------------------------------------------ what a step accumulates

SEG = {"TAtt::gsum": 0, "TAtt::fric": 0, "TAtt::hsum": 0, "TAtt::heat_layer_obj_no": -1}
BODY = ("TBody::force_hydro", "TBody::force_holder", "TBody::friction", "TBody::fdt_dead", "TBody::g_dead", "TBody::nusselt")


def cleared(P, R):
    for q in ("Space::zero_forces",):
        for f in [x for x in P.by_q.get(q, []) if x.blocks]:
            sg = SG(P, f, inline=lambda g, c: True, maxdepth=5, maythrow=lambda k: False, assume=lambda t: None)
            for m, v in list(SEG.items()) + [(b, 0) for b in BODY]:
                zeroed(R, sg, f, m, v, ["Space::BodyList"] + (["TBody::alist"] if m in SEG else []))
            prev(R, sg, f)
    for f in [x for x in P.by_q.get("MFlowmove::move_and_clean", []) if x.blocks]:
        sg = SG(P, f, inline=lambda g, c: g.file.endswith(("TVec.hpp", "TVec3D.hpp", "TObj.hpp")) or g.file == f.file, maxdepth=4, maythrow=lambda k: False, assume=lambda t: None)
        for li in ("VortexList", "HeatList", "StreakList"):
            speeds(R, sg, f, "Space::" + li)


def zeroed(R, sg, f, m, v, lists):
    ws = [e for e in sg.events if e.kind == "write" and m in chain(e.loc) and chain(e.loc).index(m) >= len(chain(e.loc)) - 3 and all(x in chain(e.loc) for x in lists)]
    if not R.check(bool(ws), "cleared", f.where(), m, "%s is not cleared" % m, m):
        return
    leaves_ = {}
    for e in ws:
        c = chain(e.loc)
        leaves_.setdefault(c[c.index(m):], []).append(e)
    for p, es in leaves_.items():
        for e in es:
            val = [x for y in leaves(sg.outs[e.n], e.loc).values() for x in sg.expand(y)] or [e.val]
            ok = all(decide(x, lambda y: None) == v for x in val) if all(decide(x, lambda y: None) is not None for x in val) else all(zero_record(x) for x in val) and v == 0
            R.check(ok, "cleared", e.where(), sp(p), "%s is set to %s instead of %s" % (sp(p), show(e.val), v), sp(p))
        ns = {e.n for e in es}
        every(R, "cleared", sg, f, ns, es[0], lists, sp(p))
    full = set(leaves_)
    if m in BODY and not m.endswith(("g_dead", "nusselt")) and (m,) not in full:
        want = {(m, "TVec3D::r", "TVec::x"), (m, "TVec3D::r", "TVec::y"), (m, "TVec3D::o")}
        alt = {(m, "TVec3D::r"), (m, "TVec3D::o")}
        R.check(want <= full or alt <= full, "cleared", f.where(), m + " whole", "only %s of %s is cleared" % (", ".join(sp(x) for x in full), m), m)


def zero_record(x):
    if x[0] in ("zero",):
        return True
    if x[0] == "f" and x[1] == "{}":
        return all(zero_record(y) or y in (("c", 0), ("c", 0.0)) for y in x[2:])
    return x in (("c", 0), ("c", 0.0)) or x[0] == "f" and "TVec" in x[1] and len(x) == 2


def runs_over(o, lst):
    if o is None:
        return False
    if o[0] == "it":
        return chain(o[1])[-1:] == (lst,)
    return any(y[0] == "f" and y[1] == "size" and chain(y[2])[-1:] == (lst,) for y in subterms(o[2]))


def every(R, rule, sg, f, ns, e0, lists, what):
    """The events ns happen for every element of the nested lists, on every path."""
    inner = ns
    fail = {e.n for e in sg.events if e.kind == "throw"}
    for lst in reversed(lists):
        hit = set()
        for n in sorted(inner):
            for h, body, ex in loops_around(sg, n):
                mine = [e for e in ex if runs_over(over(sg, e), lst)]
                if not mine:
                    continue
                hit.add(h)
                e = mine[0]
                st = [b for b, l in sg.nodes[e.n].succ if b in body]
                miss = set(sg.reach(st, stop=inner | fail | {h}))
                R.check(h not in miss and sg.exit.i not in miss, rule, e0.where(), what + " " + lst, "an element of %s may be left out (%s)" % (lst, what), what)
                o = over(sg, e)
                if o[0] == "ix":
                    starts, steps, bounds = index_cover(sg, o[1])
                    R.check(starts == [("c", 0)] and steps == {("+", 1)} and any(q in ("<", "!=") for q, b in bounds), rule, e.where(), what + " from " + lst, "not every element of %s is visited (%s)" % (lst, what), what)
                else:
                    b0 = [w for w in sg.events if w.kind == "write" and w.op == "decl" and w.val[0] == "it" and w.val[1] == o[1] and w.val[2] == "b" and sg.nodes[w.n].ctx == sg.nodes[e.n].ctx]
                    R.check(bool(b0), rule, e.where(), what + " first " + lst, "the first element of %s may be left out (%s)" % (lst, what), what)
                break
        if not hit:
            R.assume("the loop over %s around %s is not recognised" % (lst, e0.where()))
            return
        inner = hit
    R.check(sg.exit.i not in sg.reach([sg.entry.i], stop=inner | fail), rule, e0.where(), what + " always", "%s may be skipped altogether" % what, what)


def prev(R, sg, f):
    ws = [e for e in sg.events if e.kind == "write" and "TBody::friction_prev" in chain(e.loc)]
    if not R.check(bool(ws), "cleared", f.where(), "friction_prev", "the friction of the step is not kept for the next"):
        return
    for e in ws:
        for v in list(leaves(sg.outs[e.n], e.loc).values()) or [e.val]:
            l = v[2] if v[0] == "phi" else v[1] if v[0] == "ld" else v
            ok = is_term_loc(l) and "TBody::friction" in chain(l)
            R.check(ok, "cleared", e.where(), "friction_prev " + sp(chain(e.loc)[-1:]), "the friction kept for the next step is %s" % show(v)[:80], "friction_prev = friction")


def speeds(R, sg, f, lst):
    ws = [e for e in sg.events if e.kind == "write" and "TObj::v" in chain(e.loc) and chain(e.loc)[0].endswith("") and lst in chain(e.loc)]
    if not R.check(bool(ws), "cleared", f.where(), lst + " v", "speeds of %s are not cleared" % lst, lst):
        return
    ok = all(all(zero_record(v) or decide(v, lambda y: None) == 0 for y in (leaves(sg.outs[e.n], e.loc) or {0: e.val}).values() for v in sg.expand(y)) for e in ws)
    R.check(ok, "cleared", ws[0].where(), lst + " zero", "speeds of %s are not set to zero" % lst, lst)
    ns = {e.n for e in ws}
    for c in ("TVec::x", "TVec::y"):
        some = {e.n for e in ws if chain(e.loc)[-1] in ("TObj::v", c)}
        if R.check(bool(some), "cleared", ws[0].where(), lst + " " + c, "a component of the speeds of %s is not cleared" % lst, lst):
            every(R, "cleared", sg, f, some, ws[0], [lst], "speeds of " + lst)
    # used before cleared, not after
    use = [e for e in sg.events if e.kind == "write" and "TObj::r" in chain(e.loc) and lst in chain(e.loc)]
    R.check(bool(use), "cleared", f.where(), lst + " moved", "%s is not moved" % lst, lst)
    for e in use:
        R.check(e.n not in sg.reach([m for n in ns for m in sg.after(n)]), "cleared", e.where(), lst + " late", "%s is moved by speeds already cleared" % lst, lst)
