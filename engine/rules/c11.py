"""C11 a copied object is complete and independent."""
from vv.lib import *
from vv.sg import norm
from vv.prog import REPO
from .c16 import every
import re

TECHNIQUE = "value-flow of every written-out copy operation (each field at its end is the source's field of the same name), ownership of handles against destructors, and definite assignment of every scalar field by every constructor"
NOTE = """Decides, for every class of the repository, that each written-out copy constructor and assignment carries every field over from the same field of the source on every path (derived geometry may be
recomputed instead), that no class whose destructor releases something can be copied member by member, that copies of values hold no pointer of the original, that a copied space remaps
the roots of its bodies to its own bodies, and that every constructor defines every scalar field and reads none before."""

VALUE = ("TVec", "TVec3D", "TObj", "TAtt", "TTime", "TEval", "TBody", "Space", "Matrix", "snode")
# bookkeeping that is rebuilt before it is used, and relations to other objects
TRANSIENT = ("TBody::eq_forces_no", "TAtt::eq_no", "TEval::cacheTime1", "TEval::cacheTime2", "TEval::cacheValue1", "TEval::cacheValue2", "TEval::lua_state")
DERIVED = ("TBody::_slip", "TBody::_slen", "TBody::_area", "TBody::_cofm", "TBody::_moi_cofm", "TBody::_min_disc_r2", "TBody::_min_rect_bl", "TBody::_min_rect_tr", "TBody::heat_layer")
WEAK = ("TBody::root_body",)
RELEASE = re.compile(r"^(lua_close|fclose|pclose|close|closedir|free|H5\w+close\w*|archive_(read|write)_(free|close)|munmap|delete|operator delete(\[\])?)$")


def run(P, R, tier):
    R.rule("complete", "a written-out copy carries every property over from the same property of the original")
    R.rule("owned", "an object that releases something when destroyed is not copied member by member")
    R.rule("shared", "a copy of a value holds no pointer or handle of the original")
    R.rule("bodies", "a copied space has a copy of every body, in the same order, and their roots are its own bodies")
    R.rule("defined", "a constructor defines every scalar property")
    R.rule("early", "a constructor reads no property before it is defined")
    recs = [r for q, r in P.records.items() if q and str(r.get("file", "")).startswith(REPO)]
    R.need(len(recs), 35, "classes")
    n = c = 0
    for r in recs:
        c += owned(P, R, r)
        for f in ctors(P, r["q"]):
            if iscopy(f, r["q"]):
                continue
            n += 1
            defined(P, R, r, f)
        for f in ctors(P, r["q"]) + [g for g in P.by_q.get(r["q"] + "::operator=", []) if g.blocks]:
            if iscopy(f, r["q"]):
                c += 1
                complete(P, R, r, f)
    R.need(n, 35, "constructors")
    R.need(c, 4, "written-out copies and owners")


def ctors(P, q):
    return [f for f in P.by_q.get(q + "::" + q.split("::")[-1], []) if f.blocks]


def iscopy(f, q):
    return len(f.params) >= 1 and re.sub(r"\bconst\b|&|\s", "", f.params[0]["t"]) == q and f.params[0].get("ref") and len(f.params) == 1


def near(P, f):
    r = P.records.get(f.cls)
    cl = {f.cls} | {base_type(b["t"]) for b in (r or {"bases": []})["bases"]}
    return lambda g, c: g.file.startswith(REPO) and (g.cls in cl or g.file.endswith(("TVec.hpp", "TVec3D.hpp", "TObj.hpp", "TTime.hpp")))


def graph(P, f, src=None):
    def assume(t):
        if src is not None and t[0] == "op" and t[1] in ("==", "!=") and {t[2], t[3]} == {("arg", "this"), src}:
            return t[1] == "!="
        return None
    # not the assignment of an object to itself
    return SG(P, f, inline=near(P, f), maxdepth=6, maythrow=lambda k: False, assume=assume)


def place(path):
    l = ("arg", "this")
    for x in path:
        l = ("fld", l, x)
    return l


def at_exit(sg, loc):
    return sg.load(prestate(sg, sg.exit.i), loc)


SCALAR = re.compile(r"^(const |unsigned |signed |long |short )*(double|float|int|char|bool|long|short|unsigned|signed|size_t|u?int\d+_t|hid_t|time_t|\w+_t)$")


def scalar(P, t):
    t = t.strip()
    return t.endswith("*") or "(*)" in t or base_type(t) not in P.records and "std::" not in t and not t.endswith("&") and "[" not in t and "<" not in t and bool(SCALAR.match(t) or t in P.__dict__.get("enums", ()))


def defined(P, R, r, f):
    sg = graph(P, f)
    if sg.exit.i not in sg.outs and not any(p in sg.outs for p, _ in sg.exit.pred):
        return
    for p, t in record_leaves(P, r["q"]):
        if not scalar(P, t):
            continue
        loc = place(p)
        v = at_exit(sg, loc)
        key = "%s(%s) %s" % (f.q, ",".join(x["t"] for x in f.params), sp(p))
        bad = undefined(sg, v, loc)
        if bad:
            # lost from the state by an opaque call: every path passes an assignment of it
            ws = {e.n for e in sg.events if e.kind == "write" and isinstance(e.loc, tuple) and (under(e.loc, loc) is not None) and e.val and e.val[0] != "undef" and e.loc != ("arg", "this")}
            bad = not ws or sg.exit.i in sg.reach([sg.entry.i], stop=ws)
        R.check(not bad, "defined", f.where(), key, "%s leaves %s undefined" % (f.q, sp(p)), key)
        # read before
    rd = SG(P, f, inline=near(P, f), maxdepth=6, maythrow=lambda k: False, assume=lambda t: None, reads=True)
    sc = {place(p): p for p, t in record_leaves(P, r["q"]) if scalar(P, t)}
    n = 0
    for e in rd.events:
        if e.kind != "read" or e.loc not in sc:
            continue
        n += 1
        if e.val == ("ld", e.loc):
            ws = {x.n for x in rd.events if x.kind == "write" and isinstance(x.loc, tuple) and under(x.loc, e.loc) is not None}
            if e.n in rd.reach([rd.entry.i], stop=ws):
                R.bad("early", e.where(), "%s %s" % (f.q, sp(sc[e.loc])), "%s reads %s before it is defined" % (f.q, sp(sc[e.loc])))
                continue
        R.ok("early", "%s reads %s" % (f.q, sp(sc[e.loc])))


def undefined(sg, v, loc):
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == ("ld", loc) or x[0] == "undef":
            return True
        if x[0] == "phi":
            st.extend(sg.phis.get(x, ()))
    return False


def owned(P, R, r):
    """Fields the destructor releases: copying must be written out or forbidden."""
    q = r["q"]
    ds = [f for f in P.fns.values() if f.blocks and f.cls == q and f.q.split("::")[-1].startswith("~")]
    fs = set()
    for f in ds:
        sg = SG(P, f, inline=near(P, f), maxdepth=5, maythrow=lambda k: False, assume=lambda t: None)
        for e in sg.events:
            vs = []
            if e.kind == "delete":
                vs = [e.val]
            elif e.kind == "call" and e.inl is None and e.q and RELEASE.match(e.q.split("::")[-1]):
                vs = list(e.args or ())
            for v in vs:
                if isinstance(v, tuple):
                    for x in subterms(v):
                        if x[0] == "fld" and x[1] == ("arg", "this"):
                            fs.add(x[2])
    if not fs:
        return 0
    ms = r["methods"]
    what = ", ".join(sorted(x.split("::")[1] for x in fs))
    for kind, pat in (("copy constructor", re.compile(r"C1ERK?S\d*_$")), ("assignment", re.compile(r"aSERK?S\d*_$"))):
        m = [x for x in ms if pat.search(x["key"] or "")]
        okm = [x for x in m if x.get("deleted") or not x["implicit"] and not x.get("defaulted")]
        # an explicit move operation suppresses the implicit copies
        mv = [x for x in ms if not x["implicit"] and re.search(r"(C1EO|aSEO)", x["key"] or "")]
        priv = [x for x in m if x["access"] == 2]
        holder = any(noncopy(P, x["t"]) for x in r["fields"])
        R.check(bool(okm or priv or holder or mv and not m), "owned", "%s:%d" % (r["file"].replace(REPO + "/", ""), r["line"]), "%s %s" % (q, kind),
                "%s releases %s when destroyed, but its %s copies member by member" % (q, what, kind), "%s owns %s: no member by member %s" % (q, what, kind))
    return 1


def noncopy(P, t):
    if "unique_ptr" in t or re.search(r"std::(basic_)?[io]?f?stream\b|std::(mutex|thread|atomic)", t):
        return "*" not in t and "&" not in t
    x = P.records.get(base_type(t)) if "*" not in t and "&" not in t else None
    return bool(x) and any(m.get("deleted") and re.search(r"C1ERK?S", m["key"] or "") for m in x["methods"])


def complete(P, R, r, f):
    q = r["q"]
    src = ("arg", f.params[0]["name"])
    sg = graph(P, f, src)
    name = "%s(%s)" % (f.q, f.params[0]["t"])
    if q == "TEval":
        return teval(P, R, f, sg, src, name)
    lv = record_leaves(P, q)
    for p, t in lv:
        top = p[-1]
        loc = place(p)
        want = ("arg", src[1])
        for x in p:
            want = ("fld", want, x)
        key = "%s %s" % (name, sp(p))
        if any(x in TRANSIENT for x in p):
            continue
        if q == "Space" and p == ("Space::BodyList",):
            bodies(P, R, f, src)
            continue
        v = at_exit(sg, loc)
        good, wrong, how = judge(sg, p, loc, want, v)
        if any(x in DERIVED for x in p):
            if not good:
                al = [e for e in sg.events if e.kind in ("write", "call") and (e.loc if e.kind == "write" else e.obj) == ("fld", ("arg", "this"), "TBody::alist") and (e.kind == "write" or e.q.split("::")[-1] in ("operator=", "assign"))]
                al = [e for e in al if e.kind == "call" or e.val == ("ld", ("fld", src, "TBody::alist"))]
                ws = {e.n for e in sg.events if e.kind == "write" and isinstance(e.loc, tuple) and e.loc != ("arg", "this") and under(e.loc, loc) is not None or e.kind == "call" and e.inl is None and e.obj == loc and e.q.split("::")[-1] in ("clear", "operator=", "assign", "resize")}
                starts = [s for e in al for s in sg.after(e.n)] or [sg.entry.i]
                good = bool(ws) and sg.exit.i not in sg.reach(starts, stop=ws)
            R.check(good, "complete", f.where(), key, "%s neither takes %s over nor computes it anew" % (name, sp(p)), key)
            continue
        R.check(good and not wrong, "complete", f.where(), key, "%s %s" % (name, how or "does not take %s over from the original" % sp(p)), key)
        if q in VALUE and ("*" in t or "shared_ptr" in t) and top not in WEAK:
            R.check(not good, "shared", f.where(), key, "%s takes over the pointer %s: the copy shares what it points to" % (name, sp(p)))


def judge(sg, p, loc, want, v):
    """(carried over on every path, something else carried over, message)"""
    vals = sg.expand(v)
    same = lambda x: x == ("ld", want) or x == want
    if all(same(x) for x in vals):
        return True, False, None
    # whole-object assignment by an operator, on the place itself or an enclosing object
    ws = {}
    for e in sg.events:
        if e.kind == "write" and isinstance(e.loc, tuple) and under(e.loc, loc) is not None and e.loc != ("arg", "this"):
            sub = under(e.loc, loc)
            w = e.val[1] if e.val and e.val[0] == "ld" else e.val
            for x in sub:
                w = ("fld", w, x) if w is not None else None
            ws.setdefault(e.n, []).append(w == want)
        elif e.kind == "call" and e.inl is None and isinstance(e.obj, tuple) and under(e.obj, loc) is not None and e.q.split("::")[-1] in ("operator=", "assign", "reset", "swap") and e.args:
            sub = under(e.obj, loc)
            a = e.args[0]
            if isinstance(a, tuple) and a[0] == "it" and len(e.args) == 2 and e.args[1][:2] == a[:2] and (a[2], e.args[1][2]) == ("b", "e"):
                a = a[1]
            w = a[1] if isinstance(a, tuple) and a[0] == "ld" else a
            for x in sub:
                w = ("fld", w, x)
            ws.setdefault(e.n, []).append(w == want)
    good = {n for n, b in ws.items() if any(b)}
    badw = {n for n, b in ws.items() if not any(b)}
    if good:
        if sg.exit.i not in sg.reach([sg.entry.i], stop=good):
            # nothing else written over it afterwards
            after = sg.reach([s for n in good for s in sg.after(n)])
            late = [n for n in badw if n in after and len(p) and any(e.n == n and covers(e, loc) and not derivedcall(sg, e) for e in sg.events)]
            if not late:
                return True, False, None
            return True, True, "writes over %s after taking it over (%s)" % (sp(p), sg.nodes[late[0]].where())
        return False, True, "takes %s over only on some paths" % sp(p)
    src = root(want)
    oth = [x for x in vals if x != ("ld", want) and any(y == src or y[0] == "ld" and y[1] == src for y in subterms(x) if isinstance(y, tuple) and y)]
    if oth:
        return False, True, "gives %s the value %s of the original" % (sp(p), show(norm(oth[0])))
    return False, True, None


def covers(e, loc):
    o = e.loc if e.kind == "write" else e.obj
    return isinstance(o, tuple) and o != ("arg", "this") and under(o, loc) is not None


def alts(t):
    return alts(t[2]) + alts(t[3]) if isinstance(t, tuple) and t[0] == "ite" else [t]


def derivedcall(sg, e):
    return sg.nodes[e.n].fn.q.split("::")[-1] in ("doUpdateSegments", "doFillProperties", "push_back", "pop_back")


def teval(P, R, f, sg0, src, name):
    """An expression is copied by compiling the text of the original in the copy's own interpreter."""
    own = ("arg", "this")
    sg = SG(P, f, inline=lambda g, c: g.cls == "TEval" and not (g.q == "TEval::operator=" and "TEval" not in g.params[0]["t"]), maxdepth=5, maythrow=lambda k: False,
            assume=lambda t: t[1] == "!=" if t[0] == "op" and t[1] in ("==", "!=") and {t[2], t[3]} == {own, src} else None)
    ex = ("fld", src, "TEval::expr")
    tx = lambda a: isinstance(a, tuple) and any(x == ex for x in subterms(a))
    via = set()
    for e in sg.events:
        if e.kind == "call" and e.inl is None and e.q == "TEval::operator=" and e.obj == own and e.args:
            a = e.args[0]
            if a[0] in ("loc", "tmp"):
                a = sg.load(prestate(sg, e.n), a)
            if tx(a) or tx(sg.load(prestate(sg, e.n), e.args[0])):
                via.add(e.n)
            else:
                R.bad("complete", e.where(), name + " text", "%s compiles %s, not the text of the original" % (name, show(a)))
    if not via:
        comp = {e.n for e in sg.events if e.kind == "call" and e.q == "lua_setglobal" and e.args[1:2] == [("s", "_evaluator")]}
        wr = {e.n for e in sg.events if e.kind == "write" and e.loc == ("fld", own, "TEval::expr") and tx(e.val)}
        ok = bool(comp) and bool(wr) and sg.exit.i not in sg.reach([sg.entry.i], stop=comp) and sg.exit.i not in sg.reach([sg.entry.i], stop=wr)
        R.check(ok, "complete", f.where(), name, "%s does not compile the text of the original" % name, name)
    else:
        R.check(sg.exit.i not in sg.reach([sg.entry.i], stop=via), "complete", f.where(), name, "%s compiles the text of the original only on some paths" % name, name)
    for e in sg.events:
        if e.kind == "write" and e.loc == ("fld", own, "TEval::lua_state"):
            R.check(not any(x == src for x in subterms(e.val)), "shared", e.where(), name + " lua_state", "%s takes over the interpreter of the original" % name, "%s has its own interpreter" % name)
    v = at_exit(sg, ("fld", own, "TEval::lua_state"))
    R.check(not any(x == src for y in sg.expand(v) for x in subterms(y)), "shared", f.where(), name + " lua_state", "%s takes over the interpreter of the original" % name, "%s has its own interpreter" % name)


def bodies(P, R, f, src):
    sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO) and g.cls not in ("TBody", "TEval", "TVec", "TTime") and g.q != "Space::get_body_index", maxdepth=5, maythrow=lambda k: False,
            assume=lambda t: None)
    mine = ("fld", ("arg", "this"), "Space::BodyList")
    hers = ("fld", src, "Space::BodyList")
    # every body is copied, in order
    push = []
    for e in sg.events:
        if e.kind == "call" and e.inl is None and e.obj == mine and e.q.split("::")[-1] in ("push_back", "emplace_back") and e.args:
            v = e.args[0]
            if v[0] in ("loc", "tmp"):
                v = prestate(sg, e.n).get(v, v)
            for x in sg.expand(v):
                if x[0] == "new":
                    mk = next((y for y in sg.events if y.n == x[1] and y.kind == "new"), None)
                    a = (mk.args or [None])[0] if mk is not None else None
                    ok = a is not None and any(y[0] == "el" and y[1] == hers for y in subterms(a))
                    R.check(ok, "bodies", e.where(), "copy of", "the new body is made from %s, not from a body of the original" % (show(a) if a else "nothing"), "each new body is a copy of a body of the original")
                    if ok:
                        push.append(e)
        elif e.kind == "call" and e.inl is None and e.obj == mine and e.q.split("::")[-1] in ("insert", "emplace"):
            a = e.args[0] if e.args else None
            if a and a[0] == "it" and a[2] != "e":
                R.bad("bodies", e.where(), "order", "bodies are copied in another order")
    if not push:
        R.assume("how the bodies of a copied space are made is not recognised at %s" % f.where())
    else:
        every(R, "bodies", sg, f, {e.n for e in push}, push[0], ["Space::BodyList"], "copy of bodies")
        for e in push:
            nxt = sg.reach(sg.after(e.n), stop={h for h, b, x in loops_around(sg, e.n)})
            R.check(not any(o.n in nxt for o in push), "bodies", e.where(), "once", "a body is copied twice", "each body once")
    # roots
    ws = []
    for e in sg.events:
        loc = e.loc if e.kind == "write" else None
        if loc is not None and isinstance(loc, tuple) and loc[0] == "fld" and loc[2] == "TBody::root_body" and any(x == mine for x in subterms(loc)):
            ws.append(e)
    if not R.check(bool(ws), "bodies", f.where(), "roots", "the roots of the copied bodies stay bodies of the original", "roots are remapped"):
        return
    for e in ws:
        for v in sg.expand(e.val):
            x = v[1] if v[0] == "ld" else v
            if v[0] == "zero" or v == ("c", 0) or v[0] == "f" and len(v) == 2:
                continue
            if x[0] == "el" and x[1] == mine:
                for i in alts(x[2]):
                    const = isinstance(i, str) and i != "*" or isinstance(i, tuple) and i[0] == "c"
                    R.check(not const, "bodies", e.where(), "root index", "the root of a copied body is always body %s" % show(i if isinstance(i, tuple) else ("c", i)), "the root is the body of the same index")
                    if isinstance(i, tuple) and i[0] == "ret":
                        c = next((y for y in sg.events if y.n == i[1] and y.kind == "call"), None)
                        if c is not None and c.q == "Space::get_body_index":
                            for k in (0, 1, 3):
                                for g, l in guards(sg, e.n):
                                    d = decide(g.val, lambda t: k if t == i else None)
                                    if l[0] == "br":
                                        R.check(d is None or bool(d) == l[1], "bodies", e.where(), "root condition", "the root of a copied body is left a body of the original when it is body %d" % k, "remapped for index %d" % k)
                            R.check(root(c.obj) == src, "bodies", c.where(), "root of", "the root is looked up among the copied bodies, not in the original", "looked up in the original")
                            a = c.args[0]
                            R.check(any("TBody::root_body" in (z[2] if z[0] == "fld" else "") for y in sg.expand(a) for z in subterms(y)), "bodies", c.where(), "root which", "what is looked up is %s, not the root" % show(a), "the root is looked up")
                    elif isinstance(i, tuple) and i[0] == "op":
                        R.bad("bodies", e.where(), "root shift", "the root of a copied body is taken from index %s" % show(i))
            elif any(y == hers or y == src for y in subterms(v)):
                R.bad("bodies", e.where(), "root foreign", "the root of a copied body is a body of the original")
            else:
                R.assume("the root given to a copied body at %s is not resolved" % e.where())
