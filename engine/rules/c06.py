"""C06 time-series output: one row per step, each column its own quantity."""
import re
from vv.lib import *
from vv.luaattr import strip_ld

TECHNIQUE = "value-flow over the inlined writer and opener of the time series: slot, series name, body, row selection and value of every append, and must-pass analysis of each series"
NOTE = """Decides which series each identifier belongs to, which quantity of which body is appended to it, that every recording appends exactly one row to every series
in every state (with or without profiles), that the row is the one after the last, and that opening an existing file cuts all series to the same number of rows, counted
from the times before the present one. The storage library itself is trusted."""

V = lambda f: ["TBody::%s.r.x" % f, "TBody::%s.r.y" % f, "TBody::%s.o" % f]
SERIES = {"force_hydro": V("force_hydro"), "force_holder": V("force_holder"), "force_friction": V("friction"), "holder_position": V("holder"),
          "delta_position": V("dpos"), "speed_slae": V("speed_slae")}
PROFILE = {"pressure": "Cp", "friction": "Fr"}


def inl(g, c):
    return g.q not in ("h5_throw", "Space::get_body_index", "Space::get_body_name") and (
        g.q.startswith(("Stepdata::", "h5_handle::")) or g.file.endswith(("MStepdata.cpp", "MStepdata.hpp")) or g.q in ("TTime::operator double", "TBody::size"))


def throws(k):
    return "h5_throw" in k


def loc_of(x):
    """The place a leaf value was read from."""
    if x[0] == "ld":
        return x[1]
    if x[0] == "phi" and isinstance(x[2], tuple):
        return x[2]
    return None


def reads(x, member):
    l = loc_of(x)
    return l is not None and l[0] == "fld" and l[2] == member


def slot(l):
    """Name of the place that keeps an identifier, without the body index."""
    c = [x for x in chain(l) if not x.startswith("[]")]
    c = [x for x in c if not x.startswith("std::")]
    return tuple(c)


def index_of(l):
    ix = []
    while l[0] in ("fld", "el", "ld"):
        if l[0] == "el":
            ix.append(l[2])
        l = l[1]
    return ix


def body_of_index(sg, at, t):
    """The body whose number t is."""
    for x in sg.expand(t):
        if x[0] == "ret" and x[1] in at and at[x[1]].q == "Space::get_body_index":
            return norm_body(sg, at[x[1]].args[0])
        if x[0] == "phi" or x[0] == "ld":
            return ("number", x)
    return None


def norm_body(sg, t):
    """A body as the list element it is, ('it', list) or ('at', index)."""
    for x in sg.expand(t):
        while x[0] == "ld":
            x = x[1]
        if x[0] == "el":
            return ("number", x[2]) if isinstance(x[2], tuple) and x[2][0] == "phi" else ("elem", x)
        if x[0] == "f" and len(x) > 2:
            return norm_body(sg, x[2])
        return ("elem", x)


def owner(loc):
    """The body a member location belongs to."""
    x = loc
    own = None
    while x[0] in ("fld", "el", "ld"):
        if x[0] == "fld" and x[2].startswith("TBody::"):
            own = x[1]
        x = x[1]
    return own


def mpath(t):
    if loc_of(t) is None:
        return None
    c = [x for x in chain(loc_of(t))]
    i = [k for k, x in enumerate(c) if x.startswith("TBody::")]
    if not i:
        return None
    c = c[i[-1]:]
    return ".".join([c[0]] + [x.split("::")[-1] for x in c[1:]])


def heads(sg):
    """Branches that drive the loop over the bodies."""
    out = []
    for e in sg.events:
        if e.kind != "br" or e.ctx != sg.nodes[sg.entry.i].ctx and False:
            continue
        s = show(e.val)
        if "BodyList" not in s:
            continue
        t = e.val
        if t[0] == "op" and t[1] in ("!=", "==") and any(x[0] == "it" for x in t[2:]):
            out.append(e)
        elif t[0] == "op" and t[1] in ("<", "<=", "!=") and any(x[0] == "phi" for x in subterms(t)):
            out.append(e)
    return out


def run(P, R, tier):
    R.rule("series", "each identifier is opened for one series, in the group of its own body")
    R.rule("value", "the row appended to a series is the quantity of that name of that body, in component order")
    R.rule("once", "each recording appends exactly one row to every series")
    R.rule("row", "a row is appended after the last one and covers all columns")
    R.rule("restart", "an existing file loses the rows from the present time on, in all series alike")
    R.rule("step", "the simulation records every step once, after its forces are computed and before they are cleared")
    ct = [f for f in P.by_q.get("Stepdata::Stepdata", []) if f.blocks and any("char" in str(x) for x in f.params)]
    wr = [f for f in P.by_q.get("Stepdata::write", []) if f.blocks]
    R.need(len(ct), 1, "opener of the time series")
    R.need(len(wr), 1, "writer of the time series")
    names = opener(P, R, ct[0])
    writer(P, R, wr[0], names)
    step(P, R)


def opener(P, R, f):
    """{slot: series name}"""
    names = {}
    for prof in (1, 0):
        flags = {p["d"] for p in f.params if p["t"] == "bool"}

        def assume(t, prof=prof):
            if t[0] == "ld" and t[1][0] == "loc" and t[1][1] == 0 and t[1][2] in flags:
                return prof
            if t[0] == "ld" and (t[1] == ("arg", "b_save_profile") or t[1][0] == "fld" and t[1][2] == "Stepdata::b_save_profile") or t == ("arg", "b_save_profile"):
                return prof
            return None
        sg = SG(P, f, inline=inl, maxdepth=8, maythrow=throws, assume=assume)
        at = {e.n: e for e in sg.events if e.kind == "call"}
        calls = lambda *q: [e for e in sg.events if e.kind == "call" and e.inl is None and e.q in q]
        H = lambda t: [at[x[1]] for x in sg.expand(t) if x[0] == "ret" and x[1] in at]
        rowterms = set()
        dsets = {}        # handle term -> (series name, group)
        for e in calls("H5Dopen2", "H5Dcreate2", "H5Dopen1", "H5Dcreate1"):
            nm = {x[1] for x in sg.expand(e.args[1]) if x[0] == "s"} or listed(sg, at, e.args[1])
            dsets[e.n] = (nm, e)
        # group of each
        def group(e):
            g = H(e.args[0])
            if not g:
                return ("file",) if any("h5f" in show(x) for x in sg.expand(e.args[0])) else None
            gs = set()
            for x in g:
                if x.q.startswith(("H5Fopen", "H5Fcreate")):
                    gs.add(("file",))
                elif x.q.startswith(("H5Gopen", "H5Gcreate")):
                    for y in sg.expand(x.args[1]):
                        while y[0] in ("f",) and len(y) > 2:
                            y = y[2]
                        if y[0] == "ret" and y[1] in at and at[y[1]].q == "Space::get_body_name":
                            gs.add(("body", norm_body(sg, at[y[1]].args[0])))
                        else:
                            gs.add(("?", show(y)))
                else:
                    gs.add(("?", x.q))
            return gs.pop() if len(gs) == 1 else ("mixed", tuple(sorted(map(str, gs))))
        # identifiers stored
        seen = set()
        for e in sg.events:
            if e.kind != "write" or e.op != "=" and e.op != "init":
                continue
            src = [x for x in H(e.val) if x.n in dsets]
            if not src or root(e.loc) != ("arg", "this"):
                continue
            s = slot(e.loc)
            nm = set().union(*[dsets[x.n][0] for x in src])
            if not R.check(len(nm) == 1, "series", e.where(), sp(s), "%s is opened for more than one series: %s" % (sp(s), ", ".join(sorted(nm)))):
                continue
            nm = nm.pop()
            gr = {group(x) for x in src}
            g = gr.pop() if len(gr) == 1 else ("mixed",)
            series_ok = (nm == "time") == (g == ("file",)) and (nm == "time" or g[0] == "body")
            R.check(series_ok, "series", e.where(), "group of " + nm, "the series %s is kept in %s" % (nm, g), "%s in %s" % (nm, g[0]))
            if nm != "time":
                ix = [body_of_index(sg, at, i) for i in index_of(e.loc) if isinstance(i, tuple)]
                if not ix or ix[0] is None:
                    R.assume("slot at %s not resolved" % e.where())
                elif g[0] == "body":
                    R.check(ix[0] == g[1], "series", e.where(), "slot of " + nm, "the series %s of one body is kept under the number of another" % nm, nm)
            key = ("time" if nm == "time" else "body", nm)
            R.check(s not in names or names[s] == key, "series", e.where(), sp(s) + " twice", "%s belongs to two series" % sp(s))
            R.check(key not in [v for k, v in names.items() if k != s], "series", e.where(), nm + " twice", "two identifiers are opened for %s" % nm, nm)
            names[s] = key
            seen.add(nm)
        want = {"time"} | set(SERIES) | (set(PROFILE) if prof else set())
        for nm in sorted(want):
            R.check(nm in seen, "series", f.where(), "%s %d" % (nm, prof), "the series %s is not opened" % nm, nm)
        # extents
        exists = {e.n for e in calls("H5Lexists")}
        cut = {}
        for e in calls("H5Dset_extent"):
            src = [x for x in H(e.args[0]) if x.n in dsets]
            lv = leaves(prestate(sg, e.n), e.args[1])
            dims = ext(lv, 2)
            for x in src:
                for nm in dsets[x.n][0]:
                    cut.setdefault(nm, set()).add(e.n)
            nms = sorted({n for x in src for n in dsets[x.n][0]})
            extent(R, sg, e, nms, dims, rowterms)
        made = {}
        for e in calls("H5Dcreate2", "H5Dcreate1"):
            nms = sorted(dsets[e.n][0])
            for c in H(e.args[3]):
                if not c.q.startswith("H5Screate_simple"):
                    continue
                dims = ext(leaves(prestate(sg, c.n), c.args[1]), 2)
                extent(R, sg, e, nms, dims, rowterms)
                mx = ext(leaves(prestate(sg, c.n), c.args[2]), 2)
                R.check(mx[0] in (("c", 18446744073709551615), ("c", -1)) or mx[0] is None, "restart", e.where(), "growth " + ",".join(nms), "the series %s can not grow" % ",".join(nms), ",".join(nms))
            for nm in nms:
                made.setdefault(nm, set()).add(e.n)
        # every existing series is cut: no way from its opening to a stored identifier without
        for n, (nm, e) in dsets.items():
            if not e.q.startswith("H5Dopen"):
                continue
            if nm == {"time"} and any(c.q == "H5Dread" and n in [x.n for x in H(c.args[0])] for c in calls("H5Dread")):
                continue
            cs = set().union(*[cut.get(k, set()) for k in nm]) if nm else set()
            own = {c for c in cs if n in [x.n for x in H(at[c].args[0])]}
            R.check(bool(own) and sg.must_pass(n, sg.exit.i, own), "restart", e.where(), "cut %s %d" % (",".join(sorted(nm)), prof), "an existing series %s keeps its rows" % ",".join(sorted(nm)), ",".join(sorted(nm)))
        for nm in sorted(set(SERIES) | set(PROFILE) | {"time"}):
            R.check(bool(cut.get(nm)), "restart", f.where(), "%s %d is cut" % (nm, prof), "an existing series %s is not cut%s" % (nm, "" if prof else " when profiles are not recorded"), nm)
        # in every state of the file each body series of each body is opened or created
        hd = heads(sg)
        for nm in sorted(set(SERIES) | (set(PROFILE) if prof else set())):
            nodes = {n for n, (k, e) in dsets.items() if k == {nm}}
            for h, num in ((h, k) for h in hd for k in NUMBERS):
                st = [b for b, l in sg.nodes[h.n].succ if h.n in sg.reach([b], edges=skips(sg, at, num))]
                for b in st:
                    R.check(not nodes or h.n not in sg.reach([b], stop=nodes, edges=skips(sg, at, num)), "series", h.where(), "%s %d for each body" % (nm, prof), "the series %s is not opened for every body" % nm, nm)
        # a series found in the file is cut whatever else holds
        for nm in sorted(set(SERIES) | set(PROFILE)):
            ns = set(cut.get(nm, ()))
            for h in hd:
                via = set()
                body = set(sg.reach([b for b, l in sg.nodes[h.n].succ], stop={h.n})) & set(sg.coreach([h.n]))
                if not (ns & body):
                    continue
                for n in ns:
                    inner = [(h2, b2) for h2, b2, x2 in loops_around(sg, n) if h2 != h.n and b2 <= body - {h.n}]
                    if not inner:
                        via.add(n)
                    for h2, b2 in inner:
                        via.add(h2)
                        st = [b for a in b2 for b, l in sg.nodes[a].succ if a == h2 and b in b2] or [h2]
                        r = sg.reach([b for b in st if b != h2], stop=ns | {h2}, edges=skips(sg, at, 3, 1))
                        back = {a for a in r if a in b2 and a not in ns and a != h2 and any(b == h2 and skips(sg, at, 3, 1)(a, b, l) for b, l in sg.nodes[a].succ)}
                        R.check(not back, "restart", at[n].where(), "%s %d found" % (nm, prof), "a series %s that is in the file may keep its rows" % nm, nm)
                st = [b for b, l in sg.nodes[h.n].succ if b in body]
                R.check(h.n not in sg.reach(st, stop=via | {h.n}, edges=skips(sg, at, 3, 1)) or not missed(sg, st, via, h.n, skips(sg, at, 3, 1)), "restart", h.where(), "%s %d always" % (nm, prof),
                        "a series %s that is in the file may keep its rows" % nm, nm)
        # the number of rows
        R.check(len(rowterms) == 1, "restart", f.where(), "rows %d" % prof, "series are cut to different numbers of rows: %s" % ", ".join(sorted(show(x) for x in rowterms)))
        for t in rowterms:
            rows(P, R, sg, f, t, dsets, H, at)
    return names


def listed(sg, at, t):
    """The texts a loop over a list of literals goes through."""
    out = set()
    for x in sg.expand(t):
        while x[0] == "ld":
            x = x[1]
        if x[0] == "el" and root(x)[0] == "g" and str(root(x)[1]).startswith("static:"):
            for g in {e.fn for e in sg.events if e.fn is not None and root(x)[1].startswith("static:" + e.fn.q + ":")}:
                for nd in g.nodes:
                    if nd and nd["k"] == "DeclStmt":
                        for v in nd.get("vars", ()):
                            if root(x)[1].endswith(":" + v["d"]) and v.get("init") is not None:
                                out |= texts(g, v["init"])
        if x[0] != "phi":
            continue
        for w in sg.events:
            if w.kind == "write" and w.loc == x[2] and w.op != "++":
                for v in sg.expand(w.val):
                    if v[0] == "ret" and v[1] in at and at[v[1]].q.startswith("std::initializer_list::"):
                        e = at[v[1]]
                        if e.obj is not None and e.obj[0] == "e":
                            out |= texts(e.fn, e.obj[-1])
    return out


def texts(fn, nid):
    out, todo = set(), [nid]
    while todo:
        nd = fn.nodes[todo.pop()]
        if nd["k"] == "StringLiteral":
            out.add(nd.get("s", nd.get("v")))
        todo += [x for x in nd.get("ch", nd.get("c", [])) or () if x is not None]
    return out


def missed(sg, st, via, head, edges):
    r = sg.reach(st, stop=via | {head}, edges=edges)
    return any(b == head and edges(a, b, l) for a in r if a not in via and a != head for b, l in sg.nodes[a].succ)


def skips(sg, at, number=3, found=None):
    """Edge filter: bodies beyond those known at opening do not occur, identifiers are valid."""
    dec = sg.__dict__.setdefault("_skips", {}).setdefault((number, found), {})

    def val(n):
        if n in dec:
            return dec[n]
        r = None
        for e in brs(sg).get(n, ()):
            def env(x):
                if x[0] == "ret" and x[1] in at:
                    q = at[x[1]].q
                    if found is not None and q in ("H5Lexists", "H5Fis_hdf5"):
                        return found
                    return number if q == "Space::get_body_index" else None
                if reads(x, "Stepdata::blsize"):
                    return 1000
                if x[0] == "f" and x[1] == "size" and "BodyList" in show(x):
                    return 1000
                if x[0] == "phi" and number is not None and counter(sg, x):
                    return number
                if x[0] == "ld" and x[1][0] in ("fld", "el") and root(x[1]) == ("arg", "this") and ("h5" in show(x) or "dataset" in show(x)):
                    return 77
                return None
            r = decide(e.val, env)
        dec[n] = r
        return r

    def edges(a, b, l):
        v = val(a)
        if v is None or l is None:
            return True
        t = brs(sg)[a][0]
        return (l[1] if isinstance(l, tuple) else l) == bool(v)
    return edges


def counter(sg, x):
    """x counts the bodies from the first."""
    starts, steps, bounds = index_cover(sg, x)
    return starts == [("c", 0)] and steps == {("+", 1)} and any("BodyList" in show(b) or "blsize" in show(b) for o, b in bounds)


NUMBERS = (3, 0, 1, 999)


def brs(sg):
    d = sg.__dict__.setdefault("_brs", None)
    if d is None:
        d = {}
        for e in sg.events:
            if e.kind == "br":
                d.setdefault(e.n, []).append(e)
        sg.__dict__["_brs"] = d
    return d


def ext(lv, n):
    out = [None] * n
    for p, v in lv.items():
        if len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == "[]" and isinstance(p[0][1], tuple) and p[0][1][0] == "c" and p[0][1][1] < n:
            out[p[0][1][1]] = v
        if p == () and v[0] in ("f", "{}") and v[1] == "{}":
            for i, x in enumerate(v[2:2 + n]):
                out[i] = x
        if p == () and v[0] == "{}":
            for i, x in enumerate(v[1:1 + n]):
                out[i] = x
    whole = lv.get(())
    if whole is not None and whole[0] == "out":
        out = [("fv", whole, ("c", i)) if x is None else x for i, x in enumerate(out)]
    return out


def extent(R, sg, e, nms, dims, rowterms):
    for nm in nms:
        if dims[0] is None or dims[1] is None:
            R.assume("extent at %s not resolved" % e.where())
            return
        rowterms.add(dims[0])
        c = dims[1]
        if nm == "time":
            ok = c == ("c", 1)
        elif nm in SERIES:
            ok = c == ("c", 3)
        elif nm in PROFILE:
            ok = c[0] == "f" and c[1] == "size" and "alist" in show(c) or c[0] == "ret" and "size" in str([x.q for x in sg.events if x.kind == "call" and x.n == c[1]])
        else:
            continue
        R.check(ok, "series", e.where(), "columns of " + nm, "the series %s has %s columns" % (nm, show(c)), nm)


def rows(P, R, sg, f, t, dsets, H, at):
    """The number of rows kept is the number of leading times before the present one."""
    if t == ("c", 0):
        R.bad("restart", f.where(), "rows kept", "all rows are dropped whatever the time")
        return
    vals = [v for v in sg.expand(t)]
    ph = [x for x in sg.phis if x[2] == t[2]] if t[0] == "phi" else []
    starts, steps, bounds = index_cover(sg, t) if t[0] == "phi" else ([], set(), set())
    cmpb = None
    for e in sg.events:
        if e.kind != "br":
            continue
        s = show(e.val)
        tm = [x for x in subterms(e.val) if x[0] == "ld" and x[1][0] == "el"]
        if "time" in s and tm and any(x[0] == "phi" for x in subterms(e.val)):
            cmpb = e
            elem = tm[0]
    if cmpb is None:
        used = any("Space::time" in str(x) for e in sg.events for x in ([e.val] if e.kind in ("br", "write") else [e.args, e.obj] if e.kind == "call" and e.inl is None else []))
        if not R.check(used, "restart", f.where(), "rows kept", "the rows kept do not depend on the present time"):
            return
        R.assume("how the rows to keep are counted in %s is not resolved" % f.where())
        return
    # polarity: which way leads on counting
    def tenv(v, now):
        def env(x):
            if x == elem:
                return v
            if x[0] == "ld" and x[1][0] == "fld" and x[1][2].endswith("TTime::value"):
                return now * 10
            if x[0] == "ld" and x[1][0] == "fld" and x[1][2].endswith("TTime::timescale"):
                return 10.0
            if x[0] == "ret" and x[1] in at and at[x[1]].q == "TTime::operator double":
                return now
            return None
        return env
    incs = [e for e in sg.events if e.kind == "write" and e.loc[0] == "loc" and any(p[2] == e.loc for p in ph) and e.op in ("++", "+=", "=") and e.val != ("c", 0)]
    res = []
    for v in (0.2, 0.3, 0.4):
        r = decide(cmpb.val, tenv(v, 0.3))
        nxt = [b for b, l in sg.nodes[cmpb.n].succ if l is not None and l[1] == bool(r)]
        go = bool(nxt) and any(i.n in sg.reach(nxt, stop={cmpb.n}) for i in incs)
        res.append(go)
    R.check(res == [True, False, False], "restart", cmpb.where(), "rows kept", "of the rows before, at and after the present time, %s are kept" % ", ".join(n for n, k in zip(("those before", "that at", "those after"), res) if k), "rows before the present time are kept")
    ix = elem[1][2] if isinstance(elem[1][2], tuple) else None
    # as stored: both sides in the precision of the file
    ty = []
    fn = cmpb.fn
    nd = fn.nodes[fn.strip(cmpb.nid)] if cmpb.nid is not None else None
    if nd is not None and nd["k"] == "BinaryOperator":
        kids = [fn.nodes[x] for x in nd.get("c", nd.get("ch", []))]
        ty = [base_type(k.get("t", "")) for k in kids]
    side = [fn.nodes[x] for x in operands(fn, cmpb.nid)]
    now = None
    for x in side:
        if x["k"] in ("CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "ImplicitCastExpr"):
            pass
    prec = [narrow(fn, x) for x in operands(fn, cmpb.nid)]
    if prec:
        R.check(all(prec), "restart", cmpb.where(), "precision", "a stored time of single precision is compared with the present time in double precision", "compared as stored")
    # the loop is bounded by the extent read
    ok = starts and all(s == ("c", 0) for s in starts) and steps <= {("+", 1)}
    R.check(bool(ok), "restart", cmpb.where(), "rows counted", "the rows to keep are not counted one by one from the first", "rows counted from 0 by 1")
    for c in [e for e in sg.events if e.kind == "call" and e.q == "H5Dread"]:
        nm = {k for x in H(c.args[0]) if x.n in dsets for k in dsets[x.n][0]}
        R.check(nm == {"time"}, "restart", c.where(), "times", "the rows to keep are counted in %s" % ", ".join(sorted(nm)), "counted in time")


def operands(fn, nid):
    n = nid
    while n is not None:
        nd = fn.nodes[n]
        if nd["k"] == "BinaryOperator" and nd.get("op") in ("<", "<=", ">", ">="):
            return [nd["lhs"], nd["rhs"]] if "lhs" in nd else [x for x in nd.get("ch", nd.get("c", []))]
        m = fn.strip(n)
        if m == n:
            return []
        n = m
    return []


def narrow(fn, n):
    """The operand has at most single precision (possibly widened afterwards)."""
    x = n
    while True:
        nd = fn.nodes[x]
        if base_type(nd.get("t", "")) == "float":
            return True
        if nd["k"] in ("ImplicitCastExpr", "ParenExpr"):
            k = [y for y in nd.get("ch", nd.get("c", [])) if y is not None] or [nd.get("sub")]
            if not k or k[0] is None:
                return False
            x = k[0]
            continue
        return False


def writer(P, R, f, names):
    for prof in (1, 0):
        def assume(t, prof=prof):
            if t[0] == "ld" and t[1][0] == "fld" and t[1][2] == "Stepdata::b_save_profile":
                return prof
            return None
        sg = SG(P, f, inline=inl, maxdepth=8, maythrow=throws, assume=assume)
        at = {e.n: e for e in sg.events if e.kind == "call"}
        by = {}
        for e in sg.events:
            if e.kind == "call" and e.inl is None and e.q == "H5Dwrite":
                for d in sg.expand(e.args[0]):
                    s = slot(d[1]) if d[0] == "ld" else None
                    nm = names.get(s)
                    if not R.check(nm is not None, "series", e.where(), show(d)[:60], "a row is appended to %s, which is no open series" % show(d)):
                        continue
                    by.setdefault(nm[1], []).append(e)
                    content(P, R, sg, at, e, d, nm[1])
                    rowsel(R, sg, at, e, d, nm[1])
        hd = heads(sg)
        edges = skips(sg, at)
        R.need(len(hd), 1, "loops over the bodies")
        want = {"time"} | set(SERIES) | (set(PROFILE) if prof else set())
        for nm in sorted(want):
            ns = {e.n for e in by.get(nm, ())}
            if not R.check(bool(ns), "once", f.where(), "%s %d" % (nm, prof), "nothing is appended to %s" % nm, nm):
                continue
            if nm == "time":
                R.check(sg.exit.i not in sg.reach([sg.entry.i], stop=ns, edges=edges), "once", f.where(), "time %d" % prof, "a recording may skip the time", "time")
                R.check(not any(ns & set(sg.reach(sg.after(n), edges=edges)) for n in ns), "once", f.where(), "time twice %d" % prof, "a recording may append two times", "time")
                continue
            hs = [h for h in hd if ns & set(sg.reach([b for b, l in sg.nodes[h.n].succ], stop={h.n}))]
            R.check(len(hs) == 1, "once", f.where(), "%s loop %d" % (nm, prof), "%s is not appended in one pass over the bodies" % nm)
            for h in hs:
                for b, l in sg.nodes[h.n].succ:
                    r = sg.reach([b], edges=edges, stop={h.n})
                    if not (ns & set(r)):
                        continue
                    miss = set().union(*[set(sg.reach([b], stop=ns | {h.n}, edges=skips(sg, at, k))) for k in NUMBERS])
                    R.check(h.n not in miss and sg.exit.i not in miss, "once", h.where(), "%s body %d" % (nm, prof), "a body may be left out of %s" % nm, nm)
                R.check(not any(ns & set(sg.reach(sg.after(n), stop={h.n}, edges=edges)) for n in ns), "once", h.where(), "%s twice %d" % (nm, prof), "two rows may be appended to %s at once" % nm, nm)
                covers(R, sg, h, nm)
                R.check(sg.exit.i not in sg.reach([sg.entry.i], stop={h.n}, edges=edges), "once", h.where(), "%s pass %d" % (nm, prof), "a recording may skip the bodies", nm)
        for nm in by:
            R.check(nm in want, "once", f.where(), "%s unasked %d" % (nm, prof), "%s is appended to although not asked for" % nm)
        if prof:
            reset(R, sg, by)


def covers(R, sg, h, nm):
    t = h.val
    if any(x[0] == "it" for x in t[2:]):
        its = [x for x in t[2:] if x[0] == "it"]
        decl = [e for e in sg.events if e.kind == "write" and e.op == "decl" and e.val[0] == "it" and e.val[1] == its[0][1] and e.ctx == h.ctx]
        b = [e for e in decl if e.val[2] == "b"]
        R.check(bool(b) and any(x[2] == "e" for x in its), "once", h.where(), nm + " all bodies", "not every body is visited", nm)
    else:
        ph = [x for x in subterms(t) if x[0] == "phi"]
        starts, steps, bounds = index_cover(sg, ph[0])
        R.check(starts == [("c", 0)] and steps == {("+", 1)} and any("size" in show(b) or "blsize" in show(b) for o, b in bounds if o in ("<", "!=")), "once", h.where(), nm + " all bodies", "not every body is visited", nm)


def content(P, R, sg, at, e, d, nm):
    buf = e.args[5]
    st = prestate(sg, e.n)
    R.check("DOUBLE" in show(e.args[1]), "value", e.where(), nm + " type", "%s is written as %s" % (nm, show(e.args[1])), nm)
    ixs = [body_of_index(sg, at, i) for i in index_of(d[1]) if isinstance(i, tuple)]
    base = buf[1] if buf[0] == "el" and buf[2] == ("c", 0) else buf
    if nm != "time":
        R.check(not any(i[0] == "c" for i in index_of(d[1]) if isinstance(i, tuple)), "value", e.where(), nm + " slot", "%s of every body is appended to the series of one" % nm, nm)
    if nm in PROFILE:
        ws = [w for w in sg.events if w.kind == "write" and w.loc[0] == "el" and w.loc[1] == base]
        if not R.check(bool(ws), "value", e.where(), nm, "the profile %s is not filled" % nm):
            return
        for w in ws:
            i = w.loc[2]
            for v in sg.expand(w.val):
                ok, bad = True, None
                src = [x for x in subterms(v) if loc_of(x) is not None and loc_of(x)[0] == "fld" and loc_of(x)[2].startswith("TAtt::")]
                ok = len(src) == 1 and loc_of(src[0])[2] == "TAtt::" + PROFILE[nm]
                if ok:
                    num = decide(v, lambda x: 6.0 if x == src[0] else tt(x, at))
                    ok = num is not None and abs(num - 6.0 / 0.25) < 1e-9
                R.check(ok, "value", w.where(), nm, "the profile %s records %s" % (nm, show(v)[:80]), nm)
                for s in src:
                    el = loc_of(s)[1]
                    R.check(el[0] == "el" and (el[2] == i or not isinstance(el[2], tuple) or not isinstance(i, tuple) or same(el[2], i)), "value", w.where(), nm + " index", "segment %s of the profile %s records segment %s" % (show(i), nm, show(el[2]) if el[0] == "el" else "?"), nm)
                    own = owner(loc_of(s))
                    if own is not None and ixs and ixs[0] is not None:
                        R.check(norm_body(sg, own) == ixs[0], "value", w.where(), nm + " body", "%s of one body records another" % nm, nm)
            if isinstance(i, tuple) and i[0] == "phi":
                starts, steps, bounds = index_cover(sg, i)
                R.check(starts == [("c", 0)] and steps == {("+", 1)} and any("alist" in show(b) or "buf" in show(b) for o, b in bounds if o in ("<", "!=")), "value", w.where(), nm + " segments", "not every segment is recorded in %s (%s)" % (nm, [show(b) for o, b in bounds]), nm)
        return
    lv = leaves(st, base)
    n = 1 if nm == "time" else 3
    got = ext(lv, n)
    if n == 1 and got[0] is None:
        got[0] = lv.get(())
    if None in got:
        R.assume("row appended at %s to %s is not resolved" % (e.where(), nm))
        R.count("unresolved rows")
        return
    if nm == "time":
        for v in sg.expand(got[0]):
            num = decide(v, lambda x: tt(x, at, "time"))
            src = [x for x in subterms(v) if x[0] == "ld" and x[1][0] == "fld" and "TTime" in x[1][2]]
            R.check(num is not None and abs(num - 0.25) < 1e-9, "value", e.where(), "time", "the time recorded is %s" % show(v), "time")
        return
    want = SERIES.get(nm)
    if want is None:
        R.bad("value", e.where(), nm, "an unknown series %s is recorded" % nm)
        return
    for i in range(3):
        for v in sg.expand(got[i]):
            p = mpath(v)
            R.check(p == want[i], "value", e.where(), "%s %d" % (nm, i), "component %d of %s records %s" % (i + 1, nm, p or show(v)[:80]), "%s %d: %s" % (nm, i, want[i]))
            if p:
                own = owner(loc_of(v))
                if own is not None and ixs and ixs[0] is not None:
                    R.check(norm_body(sg, own) == ixs[0], "value", e.where(), nm + " body", "%s of one body records another" % nm, nm)


def same(a, b):
    """Two indices are equal, as far as arithmetic on the running one tells."""
    for k in (2, 5):
        env = lambda x: float(k) if x[0] == "phi" else 17.0 if x[0] in ("f", "ret", "ld") else None
        u, v = decide(a, env), decide(b, env)
        if u is None or v is None:
            return a[0] != "phi"
        if u != v:
            return False
    return a[0] != "phi" or b[0] != "phi" or a == b


def tt(x, at, which="dt"):
    """value 1/4 of the time in question"""
    l = loc_of(x)
    if l is not None and l[0] == "fld" and l[2] in ("TTime::value", "TTime::timescale"):
        mine = l[1][0] == "fld" and l[1][2] == "Space::" + which
        return (1 if mine else 17) if l[2] == "TTime::value" else (4.0 if mine else 31.0)
    if x[0] == "ret" and x[1] in at and at[x[1]].q == "TTime::operator double":
        o = at[x[1]].obj
        return 0.25 if o is not None and o[0] == "fld" and o[2] == "Space::" + which else 0.111
    return None


def rowsel(R, sg, at, e, d, nm):
    H = lambda t, q: [at[x[1]] for x in sg.expand(t) if x[0] == "ret" and x[1] in at and at[x[1]].q.startswith(q)]
    fs = H(e.args[3], "H5Dget_space")
    ms = H(e.args[2], "H5Screate_simple")
    back = sg.coreach([e.n])
    se = [c for c in sg.events if c.kind == "call" and c.q == "H5Dset_extent" and d in sg.expand(c.args[0]) and c.n in back and c.ctx == e.ctx]
    if not R.check(len(se) == 1, "row", e.where(), nm + " grows", "the series %s is not extended once before a row is written" % nm):
        return
    se = se[0]
    new = ext(leaves(prestate(sg, se.n), se.args[1]), 2)
    if None in new:
        R.assume("extent at %s not resolved" % se.where())
        return
    outs = [x for x in subterms(new[0]) if x[0] == "fv" and x[1][0] == "out"]
    if not R.check(len(outs) == 1, "row", se.where(), nm + " old", "the new number of rows is %s" % show(new[0])):
        return
    q = at.get(outs[0][1][1])
    k = outs[0][2]
    k = k[1] if isinstance(k, tuple) and k[0] == "c" else k
    R.check(q is not None and q.q.startswith("H5Sget_simple_extent_dims") and k in (0, (0,)) and any(d in sg.expand(g.args[0]) for g in H(q.args[0], "H5Dget_space")), "row", se.where(), nm + " rows", "the number of rows is not that of the series itself", nm)
    old = outs[0]

    def oldc(x):
        return x[0] == "fv" and x[1] == old[1] and x[2] != old[2]

    def ev(t, r=10, c=3):
        return decide(t, lambda x: r if x == old else c if oldc(x) else None)
    R.check(ev(new[0]) == 11 and ev(new[1]) == 3, "row", se.where(), nm + " extent", "appending makes a series of %s rows and %s columns" % (show(new[0]), show(new[1])), nm)
    R.check(bool(fs) and all(any(d in sg.expand(g.args[0]) for _ in [0]) and g.n in sg.reach(sg.after(se.n)) and se.n not in sg.reach(sg.after(g.n), stop={e.n}) for g in fs), "row", e.where(), nm + " space", "the row of %s is written to the extent before it grew" % nm, nm)
    hs = [c for c in sg.events if c.kind == "call" and c.q == "H5Sselect_hyperslab" and c.ctx == e.ctx and c.n in back and any(g in H(c.args[0], "H5Dget_space") for g in fs)]
    if not R.check(len(hs) == 1, "row", e.where(), nm + " select", "no single row of %s is selected" % nm):
        return
    c = hs[0]
    st = prestate(sg, c.n)
    off, cnt = ext(leaves(st, c.args[2]), 2), ext(leaves(st, c.args[4]), 2)
    if None in off + cnt:
        R.assume("selection at %s not resolved" % c.where())
        return
    R.check([ev(x) for x in off] == [10, 0], "row", c.where(), nm + " offset", "a row of %s is written at row %s, column %s" % (nm, show(off[0]), show(off[1])), nm)
    R.check([ev(x) for x in cnt] == [1, 3], "row", c.where(), nm + " count", "%s rows of %s columns are written to %s" % (show(cnt[0]), show(cnt[1]), nm), nm)
    for m in ms:
        mm = ext(leaves(prestate(sg, m.n), m.args[1]), 2)
        if None not in mm:
            R.check([ev(x) for x in mm] == [1, 3], "row", m.where(), nm + " memory", "%s by %s values are taken for a row of %s" % (show(mm[0]), show(mm[1]), nm), nm)
    R.check(len(ms) >= 1, "row", e.where(), nm + " memory", "the values of a row of %s are not selected" % nm)


def reset(R, sg, by):
    """What a profile accumulates is cleared once it was taken."""
    for nm, fld in PROFILE.items():
        rd = [w for w in sg.events if w.kind == "write" and w.loc[0] == "el" and any(reads(x, "TAtt::" + fld) for x in subterms(w.val))]
        z = [w for w in sg.events if w.kind == "write" and w.loc[0] == "fld" and w.loc[2] == "TAtt::" + fld]
        ok = bool(z) and all(x.val in (("c", 0), ("c", 0.0)) for x in z)
        R.check(ok, "value", rd[0].where() if rd else "", nm + " cleared", "the profile %s is not cleared after it was recorded" % nm, nm)
        for r in rd:
            same = {x.n for x in z}
            R.check(r.n not in sg.reach(sg.after(r.n), stop=same), "value", r.where(), nm + " cleared each", "the profile %s of a segment may stay uncleared" % nm, nm)
            for x in z:
                if r.n in sg.reach(sg.after(x.n), stop={r.n}) and x.n not in sg.reach(sg.after(r.n), stop={x.n}):
                    R.bad("value", x.where(), nm + " early", "the profile %s is cleared before it is recorded" % nm)


def step(P, R):
    sims = []
    for f in P.fns.values():
        if f.blocks and any(q == "Stepdata::write" for n, q in f_calls(P, f)):
            sims.append(f)
    R.need(len(sims), 1, "callers that record a step")
    for f in sims:
        sg = SG(P, f, inline=lambda g, c: not g.q.startswith("Stepdata::") and "::" not in g.q and g.file == f.file, maxdepth=4, maythrow=lambda k: False)
        w = {e.n for e in sg.events if e.kind == "call" and e.q == "Stepdata::write"}
        cf = {e.n for e in sg.events if e.kind == "call" and e.q == "Space::calc_forces"}
        zf = {e.n for e in sg.events if e.kind == "call" and e.q == "Space::zero_forces"}
        R.check(bool(cf) and bool(zf), "step", f.where(), "stages", "%s records without computing or clearing forces" % f.q)
        for n in sorted(cf):
            e = [x for x in sg.events if x.n == n and x.kind == "call"][0]
            r = sg.reach(sg.after(n), stop=w)
            R.check(not (zf & set(r)) and n not in r, "step", e.where(), "recorded", "the forces of a step may be cleared without having been recorded", "calc_forces -> write -> zero_forces")
        for n in sorted(w):
            e = [x for x in sg.events if x.n == n and x.kind == "call"][0]
            r = sg.reach(sg.after(n), stop=cf)
            R.check(n not in r, "step", e.where(), "once", "a step may be recorded twice", "once per step")
            R.check(n not in sg.reach([sg.entry.i], stop=cf), "step", e.where(), "computed", "a step may be recorded before its forces were computed", "forces first")
            adv = {x.n for x in sg.events if x.kind == "call" and x.q == "Space::finish_step"} | {x.n for x in sg.events if x.kind == "write" and any(y[0] == "fld" and y[2] == "Space::time" for y in subterms(x.loc))}
            adv |= {x.n for x in sg.events if x.kind == "call" and x.q == "TTime::add"}
            R.check(not (adv & set(sg.reach([m for c in cf for m in sg.after(c)], stop=w))), "step", e.where(), "time", "time advances between the forces and their record", "time of the step")


def f_calls(P, f):
    for i, n, d in f.calls():
        if d and d.get("q"):
            yield i, d["q"]
