"""C09 shape generators: every parameter checked and used, geometry computed from the final contour."""
import math
from vv.lib import *
from vv.sg import subterms, root, decide

TECHNIQUE = "abstract evaluation of every generator's guards over classes of parameter tables, data-flow of each parameter into the contour, and must-pass analysis of the geometry refresh"
NOTE = """Decides for the generators registered with scripts: the bounds given for every documented parameter, which may be missing, that the checks between parameters (alternatives, excess names, resolution) refuse every class of
invalid tables and accept valid ones, that the extraction function accepts exactly finite numbers in range, that every accepted parameter flows into the contour, and that segments and properties are computed
after the last change of the contour. The shape itself (that the points lie on the curve) is not judged."""

INF, NAN, DMIN, EPS = float("inf"), float("nan"), 2.2250738585072014e-308, 2.220446049250313e-16
LIM = {"max": 9.2e18, "min": DMIN, "epsilon": EPS, "infinity": INF, "quiet_NaN": NAN, "lowest": -1.8e308}

# key: (low, high, default); low/high: None, ("=", v) inclusive, ("<", v) exclusive with v a number or a function of the other parameters
GLOBALS = {}
POS = ("<", 0)
ALT = {"N": (("=", 1), None, 0), "dl": (POS, None, 0)}
REQ = lambda lo, hi=None: (lo, hi, None)
gpjY3 = lambda p: p["R0"] + (p["X3"] - p["X2"]) * math.tan(p["d"] * math.pi / 180)
SPEC = {
    "gen_cylinder": ({**ALT, "R": REQ(POS)}, {"R": 1.0}, []),
    "gen_semicyl": ({**ALT, "R": REQ(POS)}, {"R": 1.0}, []),
    "gen_ellipse": ({**ALT, "Rx": REQ(POS), "Ry": REQ(POS, ("=", lambda p: p["Rx"]))}, {"Rx": 2.0, "Ry": 1.0},
                    [("a resolution too low for the height", {"N": 0, "dl": 0.6})]),
    "gen_plate": ({**ALT, "R1": REQ(("=", 0)), "R2": REQ(("=", 0)), "L": REQ(POS), "start": (("=", 0), ("<", 1), 0), "stop": (POS, ("=", 1), 1), "gap": (POS, None, 0)},
                  {"R1": 0.1, "R2": 0.05, "L": 1.0, "start": 0, "stop": 1, "gap": 0}, [("two zero radii", {"R1": 0, "R2": 0})]),
    "gen_parallelogram": ({**ALT, "L": REQ(POS), "H": REQ(POS), "d": REQ(POS, ("<", 180))}, {"L": 1.0, "H": 2.0, "d": 60.0}, []),
    "gen_savonius": ({**ALT, "R": REQ(POS), "h": REQ(POS)}, {"R": 1.0, "h": 0.1}, [("a thickness above the radius", {"R": 0.1, "h": 0.2}), ("a thickness equal to the radius", {"R": 0.2, "h": 0.2})]),
    "gen_chamber_box": ({"dln": REQ(POS), "dls": REQ(POS), "L": REQ(POS), "H": REQ(POS), "D": REQ(POS, ("<", lambda p: p["L"])), "h": REQ(POS), "d": REQ(POS, ("<", lambda p: p["L"] - p["D"]))},
                        {"dln": 0.01, "dls": 0.02, "L": 2.0, "H": 1.0, "D": 0.5, "h": 0.1, "d": 0.2}, []),
    "gen_chamber_gpj": ({"dln": REQ(POS), "dls": REQ(POS), "R0": REQ(POS), "d": REQ(("=", 0), ("<", 90)), "X0": REQ(None), "X1": REQ(("=", lambda p: p["X0"])), "X2": REQ(("=", lambda p: p["X1"])),
                         "X3": REQ(("=", lambda p: p["X2"])), "L": REQ(("<", lambda p: p["X3"] - p["X0"] + p["R0"])), "H": REQ(("<", lambda p: 2 * gpjY3(p)))},
                        {"dln": 0.01, "dls": 0.02, "R0": 0.5, "d": 30.0, "X0": -1.0, "X1": 0.5, "X2": 1.0, "X3": 2.0, "L": 10.0, "H": 9.0}, []),
}


def lim(t):
    if t[0] == "f" and len(t) == 2 and isinstance(t[1], str) and "numeric_limits::" in t[1]:
        return LIM.get(t[1].split("::")[-1])
    if t[0] == "ld" and t[1][0] == "g" and t[1][1] in GLOBALS:
        g = GLOBALS[t[1][1]]
        if g.get("const") and isinstance(g.get("init"), int) and g["init"] >= 0:
            v = g["nodes"][g["init"]].get("fv")
            return None if v is None else float(v)
    return None


def val(t, env):
    def e(x):
        v = env(x)
        if v is not None:
            return v
        v = lim(x)
        if v is not None:
            return v
        if x[0] == "op" and x[1] == "^" and len(x) == 4:
            a, b = val(x[2], env), val(x[3], env)
            return None if a is None or b is None else int(a) ^ int(b)
        return None
    return decide(t, e)


def run(P, R, tier):
    R.rule("extract", "the extraction function returns only the default of a missing parameter or a finite number in range, and takes the parameter out of the table")
    R.rule("ranges", "every documented parameter is read with its documented bounds, and may be missing only if documented so")
    R.rule("refused", "invalid combinations and unknown parameters are refused, valid ones accepted")
    R.rule("used", "every accepted parameter flows into the contour")
    R.rule("geometry", "the derived geometry is computed from the final contour before the script gets the body")
    GLOBALS.clear()
    GLOBALS.update(P.globals)
    gens = {}
    for f in P.fns.values():
        if not f.blocks or "/vvflow/" not in f.file:
            continue
        regs = [(i, n, d) for i, n, d in f.calls() if (d or {}).get("q") in ("lua_pushcclosure", "lua_setglobal", "lua_setfield")]
        if not any("gen_" in str(x.get("s", x.get("v", ""))) for x in f.nodes if x["k"] == "StringLiteral"):
            continue
        if regs:
            sg = SG(P, f, inline=lambda g, c: g.cls is None and "/vvflow/" in g.file and not g.q.startswith("luavvd_"), maythrow=lambda k: False)
            last = None
            for e in sg.events:
                if e.kind == "call" and e.q == "lua_pushcclosure" and len(e.args) > 1:
                    last = e.args[1]
                elif e.kind == "call" and e.q in ("lua_setglobal", "lua_setfield") and e.args[-1][0] == "s" and str(e.args[-1][1]).startswith("gen_"):
                    fn = [x for x in subterms(last or ("c", 0)) if isinstance(x, tuple) and x[0] in ("fn", "g", "func")]
                    gens[e.args[-1][1]] = (last, e)
    table = {f.q: f for f in P.fns.values() if f.blocks and "/vvflow/" in f.file and f.cls is None}
    getter = table.get("get_param")
    if getter is None:
        R.assume("the generators do not read their parameters through get_param any more")
        return
    extract(P, R, getter)
    for name in sorted(SPEC):
        g = None
        if name in gens:
            txt = str(gens[name][0])
            cand = [f for q, f in table.items() if "'%s'" % q in txt or ("'%s'" % f.key) in txt]
            g = cand[0] if cand else None
            if g is None:
                R.assume("the function registered as %s is not known" % name)
        g = g or table.get("luavvd_" + name)
        if g is None:
            R.assume("no generator %s was found" % name)
            continue
        generator(P, R, name, g)


def paths(sg, base, seeds):
    """Nodes reached from the entry under base; and the guards that could not be decided."""
    push = {e.n for e in sg.events if e.kind == "call" and e.q == "pushTBody"}
    co = sg.coreach(push)
    open_ = []
    brs = {}
    for e in sg.events:
        if e.kind == "br":
            brs[e.n] = e

    guards = {n for n in brs if n in co and any(s not in co for s, l in sg.nodes[n].succ if l != ("eh",))}
    before = sg.coreach(guards)
    reached = []

    def stop(n, env):
        if n not in before:
            if n in co:
                reached.append(n)       # nothing refuses the table any more
            return True
        e = brs.get(n)
        if e is not None and any(s not in co for s, l in sg.nodes[n].succ if l != ("eh",)) and any(s in co for s, l in sg.nodes[n].succ):
            if val(e.val, env) is None:
                open_.append(e)
        return False
    full = dict(base)
    # constants and exclusive-or that the walk itself does not know
    for e in sg.events:
        if e.kind in ("br", "call", "write"):
            for t0 in ([e.val] if e.val is not None else []) + list(e.args or ()):
                for t in subterms(t0):
                    v = lim(t)
                    if v is not None:
                        full[t] = v
        if e.kind == "br":
            for t in subterms(e.val):
                if isinstance(t, tuple) and len(t) == 4 and t[0] == "op" and t[1] == "^":
                    v = val(t, lambda x: base.get(x))
                    if v is not None:
                        full[t] = v
    sg.follow(sg.entry.i, full, stop=stop, consts=True)
    return bool(reached), open_


def extract(P, R, f):
    sg = SG(P, f, inline=lambda g, c: g.cls is None and "/vvflow/" in g.file, maythrow=lambda k: False)
    calls = lambda *q: [e for e in sg.events if e.kind == "call" and e.q in q]
    num = calls("lua_tonumberx")
    if len(num) != 1:
        R.assume("%s: the conversion of the parameter is not understood" % f.q)
        return
    num = num[0]
    par = {p["name"] if isinstance(p, dict) else p: p for p in ()}
    names = {}
    for e in sg.events:
        for t0 in ([e.val] if e.val is not None else []) + list(e.args or ()):
            for t in subterms(t0):
                if isinstance(t, tuple) and t[0] == "ld" and isinstance(t[1], tuple) and t[1][0] == "loc":
                    names.setdefault(t[1][2].split(":")[1] if isinstance(t[1][2], str) else "", t)
    sizes = f.params if hasattr(f, "params") else []
    pn = [p["name"] for p in sizes] if sizes and isinstance(sizes[0], dict) else ["L", "param", "range_err", "min", "max", "dflt"]
    if len(pn) != 6:
        R.assume("%s: its parameters are not understood" % f.q)
        return
    lo, hi, df = (("ld", ("loc", 0, "l:%s:0" % x)) for x in pn[3:])
    types = calls("lua_type")
    isnum = calls("lua_isnumber")
    okc = ("out", num.n, 2)
    rets = {e.n: e for e in sg.events if e.kind == "ret" and e.ctx == 0}
    clear = {e.n for e in calls("lua_setfield", "lua_rawset", "lua_settable")}

    def simple(t):
        return t[0] in ("phi", "c") or t in (lo, hi) or t[0] in ("op", "op1", "f") and all(simple(x) for x in t[2:] if isinstance(x, tuple))

    def scen(nil, ok, v, mn, mx, d):
        base = {lo: mn, hi: mx, df: d, okc: ok, ("ret", num.n): v}
        for e in types:
            base[("ret", e.n)] = 0 if nil else 3 if ok else 4
        for e in isnum:
            base[("ret", e.n)] = ok
        got = []
        undec = []
        cleared = [True]

        def stop(n, env):
            if sg.nodes[n].kind == "br":
                for e in sg.ev_at.get(n, ()):
                    if e.kind == "br" and decide(e.val, env) is None:
                        undec.append(e)
            if n in rets:
                got.append((rets[n], decide(rets[n].val, env)))
                return True
            return False
        sg.follow(sg.entry.i, base, stop=stop, consts=True)
        return got, undec
    bad = lambda w, k, m: R.bad("extract", w, "%s %s" % (f.q, k), m)
    S = [("a missing required parameter", True, 0, 0.0, -INF, INF, NAN, None),
         ("a missing optional parameter", True, 0, 0.0, 1.0, 10.0, 7.0, 7.0),
         ("a missing optional parameter whose default is outside the range", True, 0, 0.0, 1.0, 10.0, 0.0, 0.0),
         ("a value that is no number", False, 0, 0.0, -INF, INF, NAN, None),
         ("an optional value that is no number", False, 0, 0.0, -1.0, 10.0, 7.0, None),
         ("NaN", False, 1, NAN, 1.0, 10.0, NAN, None), ("NaN where there is no range", False, 1, NAN, -INF, INF, NAN, None),
         ("infinity where there is no range", False, 1, INF, -INF, INF, NAN, None), ("minus infinity where there is no range", False, 1, -INF, -INF, INF, 7.0, None),
         ("a value below the range", False, 1, 0.5, 1.0, 10.0, NAN, None), ("a value above the range", False, 1, 10.5, 1.0, 10.0, NAN, None),
         ("an optional value below the range", False, 1, 0.5, 1.0, 10.0, 7.0, None), ("an optional value above the range", False, 1, 10.5, 1.0, 10.0, 7.0, None),
         ("a value in the range", False, 1, 5.5, 1.0, 10.0, NAN, 5.5), ("an optional value in the range", False, 1, 5.5, 1.0, 10.0, 7.0, 5.5),
         ("the lower bound", False, 1, 1.0, 1.0, 10.0, NAN, 1.0), ("the upper bound", False, 1, 10.0, 1.0, 10.0, 7.0, 10.0)]
    for what, nil, ok, v, mn, mx, d, exp in S:
        got, undec = scen(nil, ok, v, mn, mx, d)
        if undec and nil and exp is None and got and all(simple(e.val) for e in undec) and all(x is None for _, x in got):
            bad(got[0][0].where(), what, "%s returns a number that was not read for %s" % (f.q, what))
            continue
        if undec:
            if (exp is None) == bool(got) or any(x is None for _, x in got):
                R.assume("%s: %s: a condition at %s is not understood" % (f.q, what, undec[0].where()))
                continue
        if exp is None and got:
            bad(got[0][0].where(), what, "%s accepts %s" % (f.q, what))
        elif exp is not None and not got:
            bad(f.where(), what, "%s refuses %s" % (f.q, what))
        elif exp is not None and any(x is not None and x != exp for _, x in got):
            bad(got[0][0].where(), what, "%s does not return the value of %s" % (f.q, what))
        else:
            R.ok("extract", "%s %s" % (f.q, what))
    for n, e in rets.items():
        if not decide_nil_only(sg, e, num) and not sg.must_pass(num.n, n, clear) and clear:
            bad(e.where(), "clear", "%s returns a parameter without taking it out of the table: it is then refused as an excess one" % f.q)
        else:
            R.ok("extract", "%s clear" % f.q)
    if not clear:
        R.assume("%s does not take parameters out of the table" % f.q)


def decide_nil_only(sg, e, num):
    return e.n not in sg.reach([num.n])


def generator(P, R, name, f):
    spec, sample, bads = SPEC[name]
    stay = ("get_param", "pushTBody", "gen_seg_N", "gen_seg_dl", "gen_arc_N", "gen_arc_dl")
    sg = SG(P, f, inline=lambda g, c: g.q not in stay and (g.cls is None and "/vvflow/" in g.file or g.cls == "TBody" and g.q not in ("TBody::doUpdateSegments", "TBody::doFillProperties") and not g.q.startswith("TBody::TBody")
                                                           and any((d or {}).get("q") in ("TBody::doUpdateSegments", "TBody::doFillProperties") for _, _, d in g.calls())), maythrow=lambda k: False)
    reads = [e for e in sg.events if e.kind == "call" and e.q == "get_param"]
    push = [e for e in sg.events if e.kind == "call" and e.q == "pushTBody"]
    if not reads or not push:
        R.assume("%s: parameters or result of the generator not found" % name)
        return
    key = {}
    opaque = False
    for e in reads:
        ks = {x[1] for x in sg.expand(e.args[1]) if x[0] == "s"}
        if len(ks) == 1:
            key.setdefault(ks.pop(), []).append(e)
        else:
            opaque = True
    if opaque:
        R.assume("%s: a parameter's name is not constant" % name)
    sam = dict(sample)
    alt = "N" in spec
    if alt:
        sam.update(N=100.0, dl=0.0)
    for k, (lo, hi, df) in sorted(spec.items()):
        if k not in key:
            if not opaque:
                R.bad("ranges", f.where(), "%s %s" % (name, k), "%s does not accept the parameter '%s'" % (name, k))
            continue
        for e in key[k]:
            # the bounds, for two sets of values
            for shift in (1.0, 1.25):
                p = {x: v * shift if x not in ("N",) else v for x, v in sam.items()}
                if "stop" in p:
                    p["stop"] = 1
                base = {("ret", x.n): p[kk] for kk, es in key.items() for x in es if kk in p}
                mn, mx, d = (val(a, base.get) for a in (e.args[3], e.args[4], e.args[5]))
                if mn is None or mx is None or d is None:
                    R.assume("%s: a bound of '%s' at %s is not understood" % (name, k, e.where()))
                    continue
                num = lambda b: b[1](p) if callable(b[1]) else b[1]
                why = None
                if lo is None:
                    if not mn <= -1e300:
                        why = "refuses values below %g" % mn
                elif lo[0] == "=" and not abs(mn - num(lo)) <= 1e-12 * max(1, abs(num(lo))):
                    why = "has the lower bound %g, not %g" % (mn, num(lo))
                elif lo[0] == "<" and not num(lo) < mn <= num(lo) + 1e-9 * max(abs(num(lo)), 1e-290 if num(lo) == 0 else 0):
                    why = "has the lower bound %g, not just above %g" % (mn, num(lo))
                if hi is None:
                    if not mx >= 2 ** 31:
                        why = "refuses values above %g" % mx
                elif hi[0] == "=" and not abs(mx - num(hi)) <= 1e-12 * abs(num(hi)):
                    why = "has the upper bound %g, not %g" % (mx, num(hi))
                elif hi[0] == "<" and not num(hi) * (1 - 1e-9) <= mx < num(hi):
                    why = "has the upper bound %g, not just below %g" % (mx, num(hi))
                if df is None and not math.isnan(d):
                    why = "may be left out"
                elif df is not None and d != df:
                    why = "must be given" if math.isnan(d) else "is taken as %g if it is left out, not as %g" % (d, df)
                if why:
                    R.bad("ranges", e.where(), "%s %s" % (name, k), "parameter '%s' of %s %s" % (k, name, why))
                    break
            else:
                R.ok("ranges", "%s %s" % (name, k))
    # scenarios
    nexts = [e for e in sg.events if e.kind == "call" and e.q == "lua_next"]
    for e in reads:
        if any(e.n in sg.reach([x.n]) and e.n != x.n for x in nexts):
            R.bad("refused", e.where(), "%s order" % name, "%s looks for excess parameters before it has read all of its own" % name)

    def scen(over, nxt):
        p = dict(sam)
        p.update(over)
        base = {("ret", x.n): p[kk] for kk, es in key.items() for x in es if kk in p}
        for x in nexts:
            base[("ret", x.n)] = nxt
        return paths(sg, base, None)
    S = [("a valid table", {}, 0, True), ("an unknown parameter", {}, 1, False)]
    if alt:
        S += [("a table with dl", {"N": 0.0, "dl": 0.01}, 0, True), ("a table with neither N nor dl", {"N": 0.0, "dl": 0.0}, 0, False), ("a table with both N and dl", {"N": 100.0, "dl": 0.01}, 0, False),
              ("an unknown parameter beside dl", {"N": 0.0, "dl": 0.01}, 1, False)]
    S += [(w, o, 0, False) for w, o in bads]
    for what, over, nxt, exp in S:
        got, undec = scen(over, nxt)
        if got == exp:
            R.ok("refused", "%s %s" % (name, what))
        elif undec and not exp:
            R.assume("%s: %s: the condition at %s is not understood" % (name, what, undec[0].where()))
        else:
            R.bad("refused", push[0].where(), "%s %s" % (name, what), "%s %s %s" % (name, "accepts" if got else "refuses", what))
    # data flow into the contour
    shape = lambda t: t is not None and "TBody::alist" in chain(t)

    def muts():
        for e in sg.events:
            if e.kind == "call" and not e.inl:
                if shape(e.obj) and not (e.info or {}).get("const") and e.q.split("::")[-1] not in ("reserve", "begin", "end", "size", "operator[]", "front", "back", "data", "at", "rbegin", "rend", "operator->", "shrink_to_fit"):
                    yield e
                elif any(shape(a) and a[0] == "fld" for a in e.args) and not e.q.startswith("std::vector::"):
                    ps = (e.info or {}).get("params", [])
                    if any(shape(a) and i < len(ps) and "&" in ps[i] and not ps[i].startswith("const ") for i, a in enumerate(e.args)):
                        yield e
            elif e.kind == "write" and shape(e.loc):
                yield e
    mut = list(muts())
    for k, es in sorted(key.items()):
        T = {("ret", e.n) for e in es}
        changed = True

        def tainted(t, st=None):
            todo, done = [t], set()
            while todo:
                x = todo.pop()
                if x in done or not isinstance(x, tuple):
                    continue
                done.add(x)
                if x in T:
                    return True
                todo += [y for y in x[1:] if isinstance(y, tuple)]
                if x in sg.phis:
                    todo += list(sg.phis[x])
                if st is not None and x and x[0] in ("tmp", "loc"):
                    todo += [v for v in leaves(st, x).values() if isinstance(v, tuple)]
            return False
        used = False
        while changed and not used:
            changed = False
            for e in sg.events:
                n0 = len(T)
                if e.kind == "write" and e.val is not None:
                    if tainted(e.val) and root(e.loc)[0] in ("loc", "tmp") and not root(e.loc) in T:
                        if e.loc[0] != "loc":
                            T.add(root(e.loc))
                elif e.kind == "call" and e not in es:
                    st = sg.outs.get(e.n)
                    if any(tainted(a, st) for a in e.args) or tainted(e.obj, st) if e.obj is not None else any(tainted(a, st) for a in e.args):
                        T.add(("ret", e.n))
                        if e.obj is not None and root(e.obj)[0] in ("loc", "tmp") and e.q.startswith("std::") and "shared_ptr" not in e.q and not (e.info or {}).get("const"):
                            T.add(root(e.obj))
                changed |= len(T) != n0
        hit = None
        for e in mut:
            st = sg.outs.get(e.n)
            vs = [e.val] if e.kind == "write" else [a for a in e.args if not shape(a)]
            if any(v is not None and tainted(v, st) for v in vs):
                hit = e
                break
        if hit is None and k not in spec and any(e.kind == "br" and tainted(e.val) for e in sg.events):
            hit = es[0]
        R.check(hit is not None, "used", es[0].where(), "%s %s" % (name, k), "%s accepts the parameter '%s' and does not use it for the contour" % (name, k))
    # refresh
    upd = {e.n for e in sg.events if e.kind == "call" and e.q == "TBody::doUpdateSegments"}
    fil = {e.n for e in sg.events if e.kind == "call" and e.q == "TBody::doFillProperties"}
    if not mut:
        R.assume("%s: the construction of the contour is not understood" % name)
    for p in push:
        for e in mut:
            R.check(sg.must_pass(e.n, p.n, upd), "geometry", e.where(), "%s segments" % name, "%s hands out a body whose segments were not updated after the contour was changed" % name)
            R.check(sg.must_pass(e.n, p.n, fil), "geometry", e.where(), "%s properties" % name, "%s hands out a body whose properties were not computed after the contour was changed" % name)
        for u in upd:
            R.check(sg.must_pass(u, p.n, fil), "geometry", p.where(), "%s order" % name, "%s computes the properties of the body before its segments" % name)
