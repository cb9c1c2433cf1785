"""C01 snapshot round trip: the writer's and the reader's tables agree."""
import re

TECHNIQUE = "dataflow over the interprocedural CFG (value numbering): table of written and read entries, compared"
NOTE = """Every entry of the writer and of the reader is found by inlining both from Space::save and Space::load; names, memory
types, source and destination quantities, conditions and coverage loops are compared. Trusts the HDF5 library, the clang
front end and that distinct object paths do not alias."""
from vv.snap import *
from vv.sg import norm

# what a snapshot has to carry (the state of the space and of its bodies)
REQ_SPACE = """caption time.value time.timescale dt.value dt.timescale dt_save.value dt_save.timescale
dt_streak.value dt_streak.timescale dt_profile.value dt_profile.timescale re pr inf_marker.x inf_marker.y
inf_vx inf_vy inf_g gravity.x gravity.y finish""".split()
V3 = ("r.x", "r.y", "o")
REQ_BODY = """label speed_x speed_y speed_o force_o density g_dead bounce special_segment_no
boundary_condition heat_condition root_body""".split() + [
    "%s.%s" % (a, b) for a in "holder dpos speed_slae speed_slae_prev kspring damping force_hydro force_holder "
    "friction_prev fdt_dead collision_min collision_max".split() for b in V3]
REQ_SEG = ["alist[].corner.x", "alist[].corner.y", "alist[].g", "alist[].gsum", "alist[].slip", "alist[].heat_const"]
LISTS = ["VortexList", "HeatList", "StreakList", "StreakSourceList", "SourceList"]
META = {"git_rev": "libvvhd_gitrev", "git_info": "libvvhd_gitinfo", "git_diff": "libvvhd_gitdiff", "time_local": None}
DERIVED = ("TBody::_", )


def path_of(t):
    """Object path a scalar term reads, or None."""
    if t[0] in ("ld", "fld", "el"):
        p = opath(t)
        return sp(p) if p and p[0].startswith(("Space::", "TBody::")) else None
    return None


def derived_only(t):
    """The value is computed from cached geometry only (nothing is restored from it)."""
    ps = set()
    for x in subterms(t):
        if x[0] == "ld":
            p = opath(x)
            if p and p[0].startswith("TBody::"):
                ps.add(p)
    return any(p[0].startswith("TBody::_") for p in ps)


def writer_sources(S, e):
    """{sub-path: set of source paths / constants / '?'} of the transferred buffer."""
    out = {}
    for p, v in val_leaves(S.W, e, e.args[2]).items():
        r = set()
        for x in S.W.sg.expand(v):
            if x[0] == "ret" and x[1] in S.W.h.at and S.W.h.at[x[1]].q.startswith("TEval::") and S.W.h.at[x[1]].obj is not None:
                r.add(sp(opath(S.W.h.at[x[1]].obj)))
            elif path_of(x):
                r.add(path_of(x))
            elif x[0] == "c" or x[0] == "s":
                r.add(x)
            elif x[0] in ("ld", "fld") and chain(x):
                r.add("." + sp(chain(x)))
            elif x[0] == "ld" and root(x)[0] == "g" or x[0] == "g":
                r.add("global:" + show(x))
            else:
                r.add("expr:derived" if derived_only(x) else "expr:" + show(x)[:60])
        out[sp(strip_el(p))] = r
    return out


def enum_table(P, S):
    """Code written for each enumerator and enumerator restored for each code, by
    specialising both sides on each value."""
    def wr(k):
        paths = {("TBody::boundary_condition",): k, ("TBody::heat_condition",): k}

        def asm(t):
            if t[0] == "ld" and opath(t) in paths:
                return k
            return None
        W = Side(P, "Space::save", asm)
        res = {}
        for kk, nm, e, o in W.attrs("H5Awrite", "H5Acreate"):
            if nm in ("boundary_condition", "heat_condition"):
                lv = val_leaves(W, e, e.args[2])
                res[nm] = W.sg.expand(lv.get((), ("c", "?")))
        return ("w", k, res)

    def rd(k):
        more = {}
        for nm in ("boundary_condition", "heat_condition"):
            for n in S.rnode.get(("body", nm), []):
                more[("out", n, 2)] = k
        for r in S.slip_exists:
            more[r] = k % 2
        L = Side(P, "Space::load", S.with_env(more))
        st = S.stored(L)
        res = {}
        for nm in ("boundary_condition", "heat_condition"):
            res[nm] = [x for e, v in st.get(("TBody::" + nm,), []) for x in L.sg.expand(v)]
        res["slip"] = slip_side(L, st)
        res["req"] = None
        return ("r", k, res)

    return forkmap(lambda a: wr(a[1]) if a[0] == "w" else rd(a[1]), [(m, k) for m in "wr" for k in range(4)])


def slip_side(L, st):
    """(source of alist[].slip, ok) on the reader."""
    src = []
    for e, v in st.get(("TBody::alist", "[]", "TAtt::slip"), []):
        for x in L.sg.expand(v):
            b, _ = flat(x)
            if b[0] == "out":
                src.append("attr:" + str(L.h.name(_opener(L, b).args[1]) if _opener(L, b) else "?"))
                continue
            rt = root(x)
            if rt[0] != "loc":
                src.append("?" + show(x)[:50])
                continue
            arr = rt
            for w in L.sg.events:
                if w.kind == "write" and w.loc != arr and root(w.loc) == arr and w.loc[0] == "el":
                    for y in L.sg.expand(w.val):
                        b, _ = flat(y)
                        o = _opener(L, b)
                        src.append("attr:" + str(L.h.name(o.args[1])) if o else "?" + show(y)[:50])
                    cov = cover_of(L.sg, w.loc)
                    src.append("cover:" + cov)
                elif w.kind == "call" and w.q == "H5Aread" and root(w.args[2]) == arr:
                    for o in L.h.call_of(w.args[0], "H5Aopen"):
                        src.append("array:" + str(L.h.name(o.args[1])))
                elif w.kind == "call" and w.q.startswith("std::fill") and w.args and root(w.args[0]) == arr:
                    for y in L.sg.expand(w.args[-1]):
                        b, _ = flat(y)
                        o = _opener(L, b)
                        src.append("attr:" + str(L.h.name(o.args[1])) if o else "?" + show(y)[:50])
    return sorted(set(src))


def _opener(L, b):
    if b[0] == "out" and b[1] in L.h.at:
        for o in L.h.call_of(L.h.at[b[1]].args[0], "H5Aopen"):
            return o
    return None


def cover_of(sg, loc):
    """Text describing how far the index loop of an element location goes."""
    for x in subterms(loc):
        if x[0] == "el" and isinstance(x[2], tuple) and x[2][0] == "phi":
            starts, steps, bounds = index_cover(sg, x[2])
            ok = starts == [("c", 0)] and steps == {("+", 1)} and all(o in ("<", "!=") for o, _ in bounds)
            return "all" if ok else "partial"
    return "all"


def run(P, R, tier):
    S = Snap(P)
    W, L = S.W, S.L
    st = S.stored()
    R.need(len(S.wattr), 45, "attributes written")
    R.need(len(S.rattr), 40, "attributes read")
    R.rule("names", "every attribute written is read back by that name from the same kind of object, and vice versa")
    R.rule("same-quantity", "the quantity a snapshot entry is taken from is the one loading stores it in")
    R.rule("type", "both directions use the same in-memory type")
    R.rule("always", "entry written / read / stored on every path (an entry equal to the default may be left out)")
    R.rule("required", "every quantity of the simulation state has an entry")
    R.rule("single", "nothing else is stored into a restored quantity")

    # reader: entry -> {sub: [object path]}
    back = {}
    stray = {}
    for op, lst in st.items():
        for e, v in lst:
            for x in L.sg.expand(v):
                b, pa = flat(x)
                k = S.out.get(b)
                if k is not None:
                    back.setdefault(k, {}).setdefault(sp(strip_el(pa)), []).append((sp(op), e))
                elif not is_null(x):
                    stray.setdefault(sp(op), []).append((e, x))
    exits = [W.sg.exit.i]
    written = {}
    for (k, nm), es in sorted(S.wattr.items(), key=str):
        e, o = es[0]
        name = "%s/%s" % (k, nm)
        if nm is None:
            R.bad("names", e.where(), name, "attribute with a name the analysis cannot resolve")
            continue
        src = writer_sources(S, e)
        meta = k == "file" and nm in META
        der = any(not isinstance(s, tuple) for v in src.values() for s in v) and all(s in ("expr:derived",) or (isinstance(s, str) and s.startswith("_"))
                                for v in src.values() for s in v if not (isinstance(s, tuple)))
        const = bool(src) and all(isinstance(s, tuple) for v in src.values() for s in v)
        if meta:
            want = META[nm]
            got = {s for v in src.values() for s in v}
            if want:
                R.check(got == {"global:" + want}, "same-quantity", e.where(), name, "%s is written from %s" % (name, sorted(map(str, got))))
            r = back.get((k, nm), {})
            R.check(any(p.split(".")[-1] == nm for v in r.values() for p, _ in v), "same-quantity", e.where(), name + "/back",
                    "%s is not restored into the field of that name" % name)
            continue
        if nm in (S.SLIP, "general_slip"):
            continue
        if const and nm not in ("boundary_condition", "heat_condition", "root_body"):
            R.check((k, nm) in S.rattr, "names", e.where(), name, "version mark %s is never read" % name)
            continue
        if der:
            continue
        if (k, nm) not in S.rattr:
            R.bad("names", e.where(), name, "attribute %s is written but loading never reads it" % name)
            continue
        re_, ro = S.rattr[(k, nm)][0]
        R.ok("names", name)
        wt, rt = buf_type(W.sg, e, 2), buf_type(L.sg, re_, 2)
        R.check(wt.replace("const ", "") == rt.replace("const ", "") or {wt, rt} <= {"char *", "const char *"}, "type", e.where(), name,
                "%s is written as '%s' and read as '%s'" % (name, wt, rt))
        if nm in ("boundary_condition", "heat_condition", "root_body"):
            written.setdefault(nm, name)
            continue
        rb = back.get((k, nm), {})
        for sub, ss in sorted(src.items()):
            ss = {s for s in ss if not (isinstance(s, tuple) and is_null(s))}
            got = {p for p, _ in rb.get(sub, [])}
            for s in ss:
                written.setdefault(s, name)
            R.check(len(ss) == 1 and got == {list(ss)[0]}, "same-quantity", e.where(), name + ":" + sub,
                    "%s %s is written from %s but restored into %s" % (name, sub, sorted(map(str, ss)), sorted(got) or "nothing"))
    for (k, nm) in sorted(S.rattr, key=str):
        if (k, nm) not in S.wattr:
            R.bad("names", S.rattr[(k, nm)][0][0].where(), "%s/%s" % (k, nm), "attribute %s/%s is read but never written" % (k, nm))

    # conditional entries
    def empties(sg, val):
        """Edges taken only when the value equals what loading restores in its absence."""
        def what(x):
            """Object path of a value, also of the text of an expression and of keyed values."""
            if x[0] == "ret" and x[1] in W.h.at and W.h.at[x[1]].q.startswith("TEval::") and W.h.at[x[1]].obj is not None:
                return sp(opath(W.h.at[x[1]].obj))
            return path_of(x)
        exp = set(sg.expand(val))
        vs = {x for x in map(what, exp) if x}
        roots = any("TBody::root_body" in repr(x) for x in exp)

        def same(x):
            return any(y in exp or what(y) in vs for y in sg.expand(x)) or roots and "TBody::root_body" in repr(x)

        def f(a, b, l):
            for e in sg.ev_at.get(a, []):
                if e.kind == "br" and isinstance(l, tuple) and l[0] == "br":
                    t, pol = e.val, l[1]
                    while t[0] == "op1" and t[1] == "!":
                        t, pol = t[2], not pol
                    if t[0] == "f" and t[1] == "empty" and pol and any(same(x) for x in t[2:]):
                        return False
                    if roots and pol and t[0] in ("f", "ret") and "expired" in (t[1] if t[0] == "f" else W.h.at[t[1]].q if t[1] in W.h.at else ""):
                        return False
                    if t[0] == "op" and t[1] in ("==", "!=") and len(t) == 4 and pol == (t[1] == "=="):
                        if any(is_null(x) for x in t[2:]) and any(same(x) for x in t[2:] if not is_null(x)):
                            return False
            return True
        return f

    def always(side, key, es, what):
        sg = side.sg
        vias = {e.n for e, _ in es}
        kind = key[0]
        opener = {o.args[0] for _, o in es}
        val = None
        v = leaves(prestate(sg, es[0][0].n), es[0][0].args[2])
        val = v.get((), None)
        eds = empties(sg, val) if val is not None and what == "written" else None
        starts = [sg.entry.i]
        if kind == "body":
            starts = [c.n for t in opener for c in side.h.call_of(t, "H5Dcreate", "H5Dopen")]
        return all(sg.must_pass(s, sg.exit.i, vias, eds) for s in starts)

    # slip is split in two alternatives; the source of the information is checked below
    for key, es in sorted(S.wattr.items(), key=str):
        if key[1] in ("slip", "general_slip") or key[0] == "file" and key[1] in META:
            continue
        R.check(always(W, key, es, "written"), "always", es[0][0].where(), "written %s/%s" % key,
                "attribute %s/%s is not written on every path of a successful save" % key)
    both = [x for k in ("slip", "general_slip") for x in S.wattr.get(("body", k), [])]
    if both:
        vias = {e.n for e, _ in both}
        starts = {c.n for e, o in both for c in W.h.call_of(o.args[0], "H5Dcreate")}
        R.check(bool(starts) and all(W.sg.must_pass(s, W.sg.exit.i, vias) for s in starts), "always", both[0][0].where(), "written slip",
                "neither the slip array nor the common slip is written on some path")
    for key, es in sorted(S.rattr.items(), key=str):
        if key[1] in ("slip", "general_slip") or key not in S.wattr or key[0] == "file" and key[1] in META:
            continue
        R.check(always(L, key, es, "read"), "always", es[0][0].where(), "read %s/%s" % key,
                "attribute %s/%s is not read on every path of a successful load" % key)
        for sub, ps in back.get(key, {}).items():
            if any('[]' in p for p, _ in ps):
                continue        # inside the loop over the segments
            vias = {e.n for _, e in ps}
            R.check(all(L.sg.must_pass(e.n, L.sg.exit.i, vias) for e, _ in es), "always", ps[0][1].where(), "stored %s/%s:%s" % (key + (sub,)),
                    "the value read from %s/%s %s is not stored on every path" % (key + (sub,)))

    # strays: values that do not come from the file
    for p, lst in sorted(stray.items()):
        if p in written or p in REQ_SPACE or p in REQ_BODY:
            for e, x in lst:
                if p in ("boundary_condition", "heat_condition", "root_body"):
                    continue
                if p.startswith("kspring") and x[0] in ("ld", "g", "f", "c") and "inf" in show(x):
                    # a negative constant means rigid in old files: only negative values may be replaced
                    gs = guards(L.sg, e.n)
                    ok = False
                    for g, l in gs:
                        t, pol = g.val, l[1] if isinstance(l, tuple) and l[0] == "br" else None
                        while t[0] == "op1" and t[1] == "!":
                            t, pol = t[2], not pol
                        if pol is True and t[0] == "op" and t[1] == "<" and t[3] == ("c", 0):
                            ok = True
                        if pol is False and t[0] == "op" and t[1] == "<=" and t[2] == ("c", 0):
                            ok = True
                    R.check(ok, "single", e.where(), p, "%s is replaced on loading although it was valid when saved" % p)
                    continue
                R.bad("single", e.where(), p, "%s receives %s on loading, not the stored value" % (p, show(x)[:80]))
    R.ok("single", "%d restored quantities have no other source" % len(written))

    # completeness
    for p in REQ_SPACE + REQ_BODY:
        R.check(p in written, "required", "libvvhd/src/TSpace_save_hdf.cpp", p, "%s is not stored in snapshots" % p)

    enums(P, R, S)
    datasets(P, R, S, st)
    names(P, R, S, st)


def enums(P, R, S):
    R.rule("enum", "each condition is stored under its own code and restored from it")
    R.rule("slip", "slip is restored from the array if there is one, else from the common value, for all segments")
    tab = enum_table(P, S)
    w, r = {}, {}
    for m, k, res in tab:
        if m == "w":
            for nm, v in res.items():
                w.setdefault(nm, {})[k] = v
        else:
            for nm in ("boundary_condition", "heat_condition"):
                r.setdefault(nm, {})[k] = res[nm]
            want = {"array:slip"} if k % 2 else {"attr:general_slip"}
            src = set(res["slip"]) - {"cover:all"}
            R.check(src == want, "slip", "libvvhd/src/TSpace_load_hdf.cpp", "slip/exists=%d" % (k % 2),
                    "slip of the segments comes from %s when the array %s" % (sorted(src), "exists" if k % 2 else "is absent"))
    for nm, n in (("boundary_condition", 2), ("heat_condition", 4)):
        codes = {}
        for k in range(n):
            v = [x for x in w.get(nm, {}).get(k, [])]
            ok = len(v) == 1 and v[0][0] == "c" and v[0][1] not in codes
            R.check(ok, "enum", "libvvhd/src/vvhdf.cpp", "%s=%d written" % (nm, k), "%s value %d is written as %s" % (nm, k, [show(x) for x in v]))
            if not ok:
                continue
            codes[v[0][1]] = k
            got = r.get(nm, {}).get(v[0][1])
            R.check(got is not None and set(got) == {("c", k)}, "enum", "libvvhd/src/vvhdf.cpp", "%s=%d restored" % (nm, k),
                    "%s value %d, stored as %s, is restored as %s" % (nm, k, v[0][1], [show(x) for x in got or []]))


def column_writes(side, arr):
    """{column: [(event, value)]} of element stores into a local array of rows."""
    out = {}
    for e in side.sg.writes():
        l = e.loc
        if l[0] == "el" and l[1][0] == "el" and root(l) == arr:
            out.setdefault(l[2][1] if l[2][0] == "c" else None, []).append((e, e.val))
    return out


def tatt_fields(P, nargs):
    """Which segment fields the constructor of TAtt fills from which parameter."""
    res = {}
    for f in P.by_q.get("TAtt::TAtt", []):
        if len(f.params) >= nargs and base_type(f.params[0]["t"]) == "double" and f.blocks:
            sg = SG(P, f, inline=lambda g, c: True)
            for k, v in sg.outs[sg.exit.i].items():
                p = under(("arg", "this"), k)
                if p and v[0] in ("loc", "ld", "arg"):
                    for i, q in enumerate(f.params):
                        if root(v) == ("loc", 0, q["d"]) or v == ("arg", q["d"].split(":")[1] if ":" in q["d"] else q["d"]):
                            res[sp(strip_el(p))] = i
            if res:
                return res
    return res


def datasets(P, R, S, st):
    W, L = S.W, S.L
    R.rule("columns", "each column of the segment dataset holds the same quantity in both directions")
    R.rule("rows", "every segment and every particle is transferred, in order")
    R.rule("lists", "each particle list has its own dataset in both directions")
    wl, rl = {}, {}
    for side, call, tab, other in ((W, "H5Dwrite", wl, "w"), (L, "H5Dread", rl, "r")):
        for k, e, o in side.dsets(call):
            if k != "body":
                p = opath(e.args[5])
                tab[k] = (sp(p[:1]) if p else show(e.args[5]), e, o)
    for nm in sorted(set(wl) | set(rl)):
        a, b = wl.get(nm), rl.get(nm)
        e = (a or b)[1]
        R.check(a is not None and b is not None and a[0] == b[0], "lists", e.where(), nm,
                "dataset %s is written from %s and read into %s" % (nm, a and a[0], b and b[0]))
    for l in LISTS:
        R.check(l in {a[0] for a in wl.values()}, "lists", "libvvhd/src/TSpace_save_hdf.cpp", "list " + l, "%s is not stored" % l)
    # all rows of the lists
    for nm, (l, e, o) in sorted(wl.items()):
        sps = [c for c in W.h.call_of(o.args[3], "H5Screate_simple")]
        ok = False
        for c in sps:
            d0 = W.sg.load(prestate(W.sg, c.n), ("el", c.args[1], ("c", 0)))
            ok = d0[0] == "f" and d0[1] == "size" and sp(opath(d0[2])[:1]) == l
        R.check(ok, "rows", e.where(), "write " + nm, "the dataset of %s does not have one row per particle" % l)
        starts = [W.sg.entry.i]
        def nonempty(a, b, lab, l=l):
            for x in W.sg.ev_at.get(a, []):
                if x.kind == "br" and isinstance(lab, tuple) and lab[0] == "br":
                    t, pol = x.val, lab[1]
                    while t[0] == "op1" and t[1] == "!":
                        t, pol = t[2], not pol
                    if t[0] == "f" and t[1] in ("empty", "size") and opath(t[2]) and sp(opath(t[2])[:1]) == l and pol == (t[1] == "empty"):
                        return False
                    if t[0] == "op" and t[1] in ("==", "!=") and pol == (t[1] == "==") and ("c", 0) in t[2:]:
                        if any(y[0] == "f" and y[1] == "size" and opath(y[2]) and sp(opath(y[2])[:1]) == l for y in t[2:]):
                            return False
            return True
        R.check(W.sg.must_pass(W.sg.entry.i, W.sg.exit.i, {e.n}, nonempty), "always", e.where(), "dataset " + nm,
                "the non-empty list %s is not written on every path" % l)
    for nm, (l, e, o) in sorted(rl.items()):
        R.check(L.sg.must_pass(L.sg.entry.i, L.sg.exit.i, {e.n}), "always", e.where(), "read dataset " + nm,
                "the stored list %s is not read on every path" % l)
        rs = [c for c in L.sg.calls("std::vector::resize") if c.obj is not None and sp(opath(c.obj)[:1]) == l]
        ok = False
        for c in rs:
            v = c.args[0]
            b, pa = flat(v)
            for x in L.sg.expand(b):
                if x[0] == "out" and x[1] in L.h.at and L.h.at[x[1]].q.startswith("H5Sget_simple_extent_dims"):
                    ok = pa in (((("c", 0),)), (("c", 0),)) or pa == (("c", 0),) or show(v).endswith(",0)")
        R.check(ok and rs, "rows", e.where(), "read " + nm, "%s is not sized to the rows of its dataset before reading" % l)
    # segments
    wc, rc = {}, {}
    warr = rarr = None
    for k, e, o in W.dsets("H5Dwrite"):
        if k == "body":
            warr, we = root(e.args[5]), e
    for k, e, o in L.dsets("H5Dread"):
        if k == "body":
            rarr, re_ = root(e.args[5]), e
    if warr is None or rarr is None:
        raise AnalysisError("segment dataset not found")
    for c, lst in column_writes(W, warr).items():
        for e, v in lst:
            for x in W.sg.expand(v):
                wc.setdefault(c, set()).add(path_of(x) or "?" + show(x)[:40])
            R.check(cover_of(W.sg, e.loc) == "all", "rows", e.where(), "write column %s" % c, "column %s is not filled for every segment" % c)
            # same row on both sides
            ix = [y[2] for y in subterms(e.loc) if y[0] == "el" and isinstance(y[2], tuple) and y[2][0] == "phi"]
            iv = [y[2] for x in W.sg.expand(v) for y in subterms(x) if y[0] == "el" and isinstance(y[2], tuple) and y[2][0] == "phi" and
                  y[1][0] == "fld" and y[1][2] == "TBody::alist"]
            R.check(not ix or not iv or set(ix) == set(iv), "rows", e.where(), "row of column %s" % c, "rows and segments do not correspond")

    def from_row(v):
        for x in L.sg.expand(v):
            y = x[1] if x[0] == "ld" else x
            if y[0] == "el" and root(y) == rarr and y[2][0] == "c":
                return y[2][1]
        return None
    ctor = None
    npush = 0
    for e in L.sg.events:
        if e.kind == "call" and e.obj is not None and opath(e.obj) == ("TBody::alist",) and "dataset_read" in L.sg.trace(e.n) + "dataset_read":
            nm = e.q.split("::")[-1]
            if nm == "emplace_back":
                npush += 1
                ctor = tatt_fields(P, len(e.args))
                for f, i in ctor.items():
                    if i < len(e.args):
                        c = from_row(e.args[i])
                        if c is not None:
                            rc.setdefault(c, set()).add("alist[]." + f)
            elif nm == "push_back" and not (e.args[0][0] == "el" and e.args[0][2] == "front"):
                npush += 1
                for p, v in val_leaves(L, e, e.args[0]).items():
                    c = from_row(v)
                    if c is not None:
                        rc.setdefault(c, set()).add("alist[]." + sp(strip_el(p)))
                    b, pa = flat(v)
                    if b[0] == "f" and b[1] == "new:TAtt":
                        for f, i in tatt_fields(P, len(b) - 2).items():
                            c = from_row(b[2 + i]) if 2 + i < len(b) else None
                            if c is not None:
                                rc.setdefault(c, set()).add("alist[]." + f)
    for op, lst in st.items():
        if op[:2] == ("TBody::alist", "[]"):
            for e, v in lst:
                c = from_row(v)
                if c is not None:
                    rc.setdefault(c, set()).add(sp(op))
    for c in sorted(set(wc) | set(rc), key=str):
        a, b = wc.get(c, set()), rc.get(c, set())
        R.check(len(a) == 1 and a == b, "columns", we.where(), "column %s" % c,
                "column %s is written from %s and read into %s" % (c, sorted(a), sorted(b)))
    got = {p for v in wc.values() for p in v}
    for p in REQ_SEG[:4]:
        R.check(p in got, "required", we.where(), p, "%s is not stored in snapshots" % p)
    R.check("alist[].slip" in slip_source(S), "required", we.where(), "alist[].slip", "slip of the segments is not stored")
    # common value instead of the array only if all segments agree
    for e, o in S.wattr.get(("body", "general_slip"), []):
        gv = leaves(prestate(W.sg, e.n), e.args[2]).get((), None)
        for g, l in guards(W.sg, e.n) + guards(W.sg, caller_node(W.sg, e.n)):
            check_flag(R, W.sg, g, l, gv)


def caller_node(sg, n):
    c = sg.nodes[n].ctx
    p, nid, f = sg.ctxs[c]
    if p is None:
        return n
    for x in sg.nodes:
        if x.kind == "enter" and x.x == c:
            return x.i
    return n


def slip_source(S):
    out = set()
    for e, o in S.wattr.get(("body", "slip"), []):
        arr = root(e.args[2])
        for w in S.W.sg.writes():
            if w.loc[0] == "el" and root(w.loc) == arr:
                for x in S.W.sg.expand(w.val):
                    out.add(path_of(x) or "?")
        if arr[0] != "loc":
            out.add(path_of(e.args[2]) or "?")
    return out


def check_flag(R, sg, g, l, gv):
    """The branch that stores one value for all segments is taken only when all compared equal."""
    t, pol = g.val, l[1] if isinstance(l, tuple) and l[0] == "br" else None
    while t[0] == "op1" and t[1] == "!":
        t, pol = t[2], not pol
    if pol is not True or t[0] != "phi":
        return
    gvs = set(sg.expand(gv)) if gv is not None else set()
    alts = sg.expand(t)
    cmps = [x for a in alts for x in subterms(a) if x[0] == "op" and x[1] in ("==", "!=") and "TAtt::slip" in repr(x)]
    if not cmps:
        return
    for a in alts:
        if a[0] == "c":
            continue
        for prev in (0, 1):
            for same in (0, 1):
                def env(x):
                    if x[0] == "phi":
                        return prev
                    if x in cmps:
                        return same if x[1] == "==" else 1 - same
                    return None
                v = decide(a, env)
                if v is None:
                    continue
                R.check(bool(v) == bool(prev and same), "slip", g.where(), "all segments agree (%d,%d)" % (prev, same),
                        "one slip value is stored for all segments although they may differ")


def names(P, R, S, st):
    W, L = S.W, S.L
    R.rule("body-names", "bodies are stored under their position and restored in that order")
    R.rule("root", "the root of a body is stored as the name under which that body is stored, and looked up by it")
    # writer: dataset name and root name come from the same numbering
    dn = [(e, o) for k, e, o in W.dsets("H5Dwrite") if k == "body"]
    (e, o) = dn[0]
    T = set(W.sg.expand(o.args[1]))

    def canon(t, frm):
        """Rewrite 'the root of the body' / 'the body' to one placeholder."""
        if not isinstance(t, tuple):
            return t
        c = chain(t) if t[0] in ("ld", "fld", "el") else ()
        if t[0] == "ld" and frm == "root" and c and c[-1] == "TBody::root_body":
            return ("BODY",)
        if t[0] == "ld" and frm == "self" and c and c[-2:] == ("Space::BodyList", "[]"):
            return ("BODY",)
        return tuple(canon(x, frm) if isinstance(x, tuple) else x for x in t)
    a = {norm(canon(t, "self")) for t in T}
    for we, wo in S.wattr.get(("body", "root_body"), []):
        v = leaves(prestate(W.sg, we.n), we.args[2]).get((), ("c", "?"))
        b = {norm(canon(t, "root")) for t in W.sg.expand(v) if not is_null(t)}
        R.check(bool(b) and b == a, "root", we.where(), "root name", "the root is stored as %s, bodies are stored as %s" %
                ([show(x)[:60] for x in b], [show(x)[:60] for x in a]))
    # numbering: snprintf with the index
    fm = [c for c in W.sg.calls({"snprintf", "sprintf"}) if any(x[0] == "s" and x[1].startswith("body") for x in c.args)]
    pre = None
    for c in fm:
        f = [x[1] for x in c.args if x[0] == "s"][0]
        m = re.match(r"^([A-Za-z_]+)%0?\d*[zlh]*[dui]$", f)
        idx = c.args[-1]
        ok = bool(m)
        if idx[0] == "phi":
            starts, steps, bounds = index_cover(W.sg, idx)
            ok = ok and starts == [("c", 0)] and steps == {("+", 1)}
        R.check(ok, "body-names", c.where(), "numbering", "bodies are not named by their position: format %r of %s" % (f, show(idx)))
        pre = m.group(1) if m else None
    # reader: which links are bodies
    for c in L.sg.calls(lambda e: e.q.startswith("H5Literate")):
        cb = [x for x in c.args if x[0] == "fn"]
        for x in cb:
            f = P.fns.get(x[1])
            if f is None:
                continue
            g = SG(P, f, inline=lambda a, b: True)
            for b in g.calls({"strncmp", "strcmp"}):
                lit = [y[1] for y in b.args if y[0] == "s"]
                n = [y[1] for y in b.args if y[0] == "c"]
                R.check(bool(lit) and (pre is None or lit[0] == pre) and (b.q != "strncmp" or n and n[0] == len(lit[0])), "body-names", b.where(),
                        "prefix", "links are recognised as bodies by %r/%s, bodies are named %r" % (lit, n, pre))
    # reader: order of the restored bodies
    cmpf = [f for f in P.fns.values() if f.name == "operator()" and f.file.endswith("TSpace_load_hdf.cpp") and len(f.params) == 2 and
            all("basic_string" in p["t"] or "std::string" in p["t"] for p in f.params)]
    maps = [t for f in P.fns.values() if f.file.endswith("TSpace_load_hdf.cpp") for n in f.nodes if n["k"] == "DeclStmt" for v in n["vars"]
            for t in [v["t"]] if "map" in t]
    ordered = False
    for f in cmpf:
        g = SG(P, f, inline=lambda a, b: True)
        rets = [x for r in g.events if r.kind == "ret" and r.val is not None for x in [r.val]]
        res = []
        pa, pb = [p["d"] for p in f.params]
        for (la, lb, lt, want) in ((1, 2, 0, 1), (1, 2, 1, 1), (2, 1, 1, 0), (2, 1, 0, 0), (2, 2, 1, 1), (2, 2, 0, 0)):
            def env(t):
                if t[0] == "f" and t[1] in ("size", "length") or (t[0] == "f" and t[1].endswith(("::size", "::length"))):
                    s = repr(t[2])
                    return la if ("'%s'" % pname(pa)) in s or repr(pa) in s else lb
                if t[0] == "f" and "operator<" in t[1]:
                    return lt
                if t[0] == "ret" and any(c.n == t[1] and c.q.endswith("operator<") for c in g.calls(lambda e: True)):
                    return lt
                if t[0] == "op" and t[1] == "<" and not any(y[0] == "f" for y in subterms(t) if isinstance(y, tuple)):
                    return lt
                if t[0] == "f" and t[1].endswith("compare"):
                    return -1 if lt else 0
                return None
            vs = {decide(x, env) for x in rets}
            res.append(vs == {want} or len(rets) > 1 and want in vs)
        ordered = ordered or all(res)
        R.check(all(res), "body-names", f.where(), "order", "the comparison that orders the restored bodies does not put body99 before body100")
    if not cmpf:
        R.notes.append("no comparator found in the reader")
    # reader: root looked up under its stored name
    rn = S.rattr.get(("body", "root_body"), [])
    for e2, v in [x for p, l in st.items() if p == ("TBody::root_body",) for x in l]:
        for x in L.sg.expand(v):
            if is_null(x):
                continue
            ok = False
            for y in subterms(x):
                if y[0] == "el":
                    ix = y[2] if isinstance(y[2], tuple) else ("c", 0)
                    if ix[0] in ("loc", "tmp"):
                        ix = L.sg.load(prestate(L.sg, e2.n), ix)
                    for z in L.sg.expand(ix):
                        b, _ = flat(z)
                        for zz in L.sg.expand(b):
                            ok = ok or S.out.get(flat(zz)[0]) == ("body", "root_body")
            R.check(ok, "root", e2.where(), "lookup", "the root of a body is restored as %s" % show(x)[:80])
    R.check(any(not is_null(x) for p, l in st.items() if p == ("TBody::root_body",) for _, v in l for x in L.sg.expand(v)), "root",
            "libvvhd/src/TSpace_load_hdf.cpp", "restored", "the root of a body is never restored")


def pname(d):
    return d.split(":")[1] if ":" in d else d
