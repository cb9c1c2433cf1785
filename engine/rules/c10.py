"""C10 derived body geometry: always that of the current contour."""
from fractions import Fraction
from vv.lib import *
from vv.prog import REPO
from vv.poly import Poly, poly, TooBig
from vv.sg import SG, norm, decide, subterms, show, is_term_loc, root

TECHNIQUE = "dataflow of a stale-geometry state over every function that changes a contour, followed through its callers; algebraic normal forms of the loop increments that compute each derived quantity"
NOTE = """Decides that no function, with all its callers, can end or read derived geometry after a change of the contour or of what its properties depend on before both refreshers ran,
that no script gets a way to change corners behind the body's back, that the heat layer is rebuilt from all segments after each change, and that what the refreshers compute are
the midpoints, lengths, areas, moments and bounds of the contour (as polynomial identities, up to sums that vanish over a closed contour). Rounding is not judged."""

ALIST = "TBody::alist"
THIS = ("arg", "this")
SEGF = ("TAtt::corner", "TAtt::slip")
MUT = {"push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "pop_back", "swap", "assign", "operator=", "push_front", "pop_front", "shrink", "reserve_and_fill"}
SEGD = {"TAtt::dl": "the segment vector", "TObj::r": "the segment midpoint", "TObj::_1_eps": "the segment's kernel radius"}
BODYD = ("_slip", "_slen", "_area", "_cofm", "_moi_cofm", "_min_disc_r2", "_min_rect_bl", "_min_rect_tr")


def strip(t):
    while t[0] == "ld":
        t = t[1]
    return t


def owner(loc):
    """The body whose contour a location belongs to, with the rest of the path."""
    path = []
    t = loc
    while t[0] in ("fld", "el", "ld"):
        if t[0] == "fld" and t[2] == ALIST:
            return norm(strip(t[1])), tuple(reversed(path))
        if t[0] != "ld":
            path.append(t[2] if t[0] == "fld" else "[]")
        t = t[1]
    return None, ()


def refreshers(P):
    """Member functions that rebuild derived segment data (U) and derived body data (F)."""
    seg, body = [], []
    for f in P.fns.values():
        if f.cls != "TBody" or not f.nodes or f.q == "TBody::TBody" or f.q == "TBody::operator=":
            continue
        w = written(f)
        if "TAtt::dl" in w or "dl" in w:
            seg.append(f)
        if "_area" in w or "_cofm" in w:
            body.append(f)
    return seg, body


def written(f):
    """Names of member fields that f assigns directly."""
    out = set()
    for n, nd in enumerate(f.nodes):
        k = nd["k"]
        t = None
        if k in ("BinaryOperator", "CompoundAssignOperator") and (nd.get("op") or "").endswith("=") and nd.get("op") not in ("==", "!=", "<=", ">="):
            t = nd["c"][0]
        elif k == "CXXOperatorCallExpr" and nd.get("op") in ("=", "+=", "-=", "*=", "/="):
            t = nd["args"][0] if nd.get("args") else None
        while t is not None:
            x = f.nodes[t]
            if x["k"] == "MemberExpr":
                out.add(x.get("m") or "")
                break
            t = x["c"][0] if x["k"] in ("ImplicitCastExpr", "ParenExpr") and x["c"] else None
    return out


def run(P, R, tier):
    R.rule("refresh", "after a change of the contour both refreshers run, segments first, before the change is visible")
    R.rule("stale", "derived geometry is not read between a change of the contour and its refresh")
    R.rule("escape", "no script or caller gets a way to change corners without a refresh")
    R.rule("direct", "derived geometry is written by its refreshers only")
    R.rule("segments", "each segment's vector, midpoint and radius are those of its own two corners")
    R.rule("properties", "length, area, centre, moment and bounds are those of the contour")
    R.rule("heat", "the heat layer is built from all segments of the current contour")
    R.rule("getters", "each query gives the quantity it names")
    seg = [f for f in P.by_q.get("TBody::doUpdateSegments", [])]
    fill = [f for f in P.by_q.get("TBody::doFillProperties", [])]
    if not seg or not fill:
        s, b = refreshers(P)
        seg, fill = seg or s, fill or b
    R.need(len(seg), 1, "refreshers of segments")
    R.need(len(fill), 1, "refreshers of properties")
    U = {f.key for f in seg}
    F = {f.key for f in fill}
    segments(P, R, seg[0])
    properties(P, R, fill[0])
    heat(P, R, seg[0], U, F)
    getters(P, R)
    direct(P, R, U, F)
    flow(P, R, U, F)


# ---------------------------------------------------------------- changes and refreshes
def writers(P, U, F):
    """Functions with a construct that may change a contour."""
    out = []
    for f in P.fns.values():
        if not f.nodes or f.key in U or f.key in F or not f.file.startswith(REPO) or "/test/" in f.file:
            continue
        if any(n["k"] == "MemberExpr" and (n.get("mc"), n.get("m")) in (("TBody", "alist"), ("TAtt", "corner"), ("TAtt", "slip")) for n in f.nodes):
            out.append(f)
    return out


def flow(P, R, U, F):
    callers = {}
    for f in P.fns.values():
        for _, nd, d in f.calls():
            k = nd.get("callee")
            if k:
                callers.setdefault(k, set()).add(f.key)
    n0 = writers(P, U, F)
    work = [f.key for f in n0 if may_change(P, R, f, U | F)]
    R.need(len(n0), 10, "functions that touch a contour")
    # callers of what changes or refreshes
    rel, st = set(), work + list(U | F)
    while st:
        k = st.pop()
        for c in callers.get(k, ()):
            if c not in rel:
                rel.add(c)
                st.append(c)
    rel |= set(work) | {f.key for f in P.fns.values() if contour_arg(f)}
    rel -= U | F
    seen = set()
    n = 0
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        f = P.fns[k]
        if not f.file.startswith(REPO) or "/test/" in f.file:
            continue
        up = one(P, R, f, U, F, callers, rel)
        n += 1
        if up:
            cs = [c for c in callers.get(k, ()) if "/test/" not in P.fns[c].file]
            if not cs:
                for own, ev, what in up:
                    R.bad("refresh", ev.where(), "%s:%s" % (f.q, what), "%s changes %s of a body and ends without %s; nothing that calls it does so either" % (
                        f.q, what, missing(ev.bits)))
            work.extend(cs)
    R.need(n, 10, "functions that may change a contour")


def missing(bits):
    if bits == 4:
        return "clearing the heat layer"
    return {3: "rebuilding segments and properties", 1: "rebuilding the segments", 2: "rebuilding the properties (after the segments)"}[bits & 3]


def small(g):
    return len(g.nodes) < 60


def contour_arg(g):
    """A function that is given a contour it may change."""
    return any("vector<TAtt" in p["t"] and ("&" in p["t"] or "*" in p["t"]) and not p["t"].startswith("const") for p in g.params)


def may_change(P, R, f, skip):
    sg = SG(P, f, inline=lambda g, c: g.key not in skip and g.file.startswith(REPO) and small(g), maxdepth=3)
    for e in sg.events:
        escape(P, R, sg, f, e)
    for e in sg.events:
        g = P.fns.get(e.key) if e.kind == "call" else None
        if g is not None and e.inl is None and contour_arg(g) and any(owner(a)[0] is not None for a in e.args or ()):
            return True
    return any(change(e) for e in sg.events)


def change(e):
    """(body, what gets stale, what is changed) of an event that changes a contour."""
    own = what = None
    bits = 7
    if e.kind == "write":
        own, rest = owner(e.loc)
        if own is not None:
            if not rest:
                what = "the contour"
                if e.op == "init":
                    own = None
            elif "TAtt::corner" in rest:
                what = "a corner"
            elif rest[-1] == "TAtt::slip":
                what, bits = "the slip of a segment", 2
            elif rest == ("[]",):
                what = "a segment"
            else:
                own = None
    elif e.kind == "call" and e.obj is not None and e.inl is None and e.q.split("::")[-1] in MUT:
        own, rest = owner(e.obj)
        if own is not None and rest and not (rest == ("[]",)):
            own = None
        what = "the contour"
    elif e.kind == "call" and e.inl is None and e.q.startswith("std::") and e.q.split("::")[-1] in ("swap", "reverse", "rotate", "sort", "iter_swap", "fill", "transform", "copy"):
        for a in e.args or ():
            o, rest = owner(a if a[0] != "it" else a[1])
            if o is not None and not rest:
                own, what = o, "the contour"
    if own is not None and what:
        return own, bits, what
    return None


def one(P, R, f, U, F, callers, rel):
    skip = U | F
    sg = SG(P, f, inline=lambda g, c: g.key not in skip and g.file.startswith(REPO) and (g.key in rel or small(g)), maxdepth=8, reads=True)
    changes = {}
    nchg = 0
    for e in sg.events:
        c = change(e)
        if c:
            changes.setdefault(e.n, []).append(c + (e,))
            nchg += 1
    if not changes:
        return []
    R.count("changes of a contour", nchg)
    fresh = {}
    for e in sg.events:
        if e.kind == "call" and e.key in skip or e.kind == "call" and e.q in ("TBody::doUpdateSegments", "TBody::doFillProperties"):
            if e.obj is not None:
                o = norm(strip(e.obj))
                fresh.setdefault(e.n, []).append((o, (5 if e.key in U or e.q.endswith("doUpdateSegments") else 0) | (2 if e.key in F or e.q.endswith("doFillProperties") else 0), e))
        # a copied or emptied heat layer is that of the copied contour
        if e.kind in ("call", "write") and (e.inl is None if e.kind == "call" else True):
            l = e.obj if e.kind == "call" else e.loc
            if l is not None and l[0] == "fld" and l[2] == "TBody::heat_layer" and (e.kind == "write" or e.q.split("::")[-1] in ("clear", "operator=", "swap")):
                fresh.setdefault(e.n, []).append((norm(strip(l[1])), 4, e))
    copied = copies_all(sg, f)
    # forward dataflow: {owner: (bits, first change)}
    st = {sg.entry.i: {}}
    work = [sg.entry.i]
    while work:
        x = work.pop()
        cur = dict(st[x])
        for own, bits, what, e in changes.get(x, ()):
            b, e0, w0 = cur.get(own, (0, None, None))
            cur[own] = (b | bits, e0 or e, w0 or what)
        for own, bits, e in fresh.get(x, ()):
            for o in list(cur):
                if same(o, own):
                    b, e0, w0 = cur[o]
                    if bits == 2 and b & 1:
                        continue            # computed from stale segments
                    b &= ~bits
                    if bits & 1 and not bits & 2:
                        b |= 2
                    if b:
                        cur[o] = (b, e0, w0)
                    else:
                        del cur[o]
        for s, l in sg.nodes[x].succ:
            old = st.get(s)
            new = dict(old) if old else {}
            ch = old is None
            for o, (b, e0, w0) in cur.items():
                bb = new.get(o, (0, None, None))
                if bb[0] | b != bb[0]:
                    new[o] = (bb[0] | b, bb[1] or e0, bb[2] or w0)
                    ch = True
            if ch:
                st[s] = new
                work.append(s)
    # stale reads
    for e in sg.events:
        if e.kind == "read" and e.n in st and e.loc is not None:
            for o, (b, e0, w0) in st[e.n].items():
                d = derived(e.loc)
                if d and same(d[0], o) and b & d[1]:
                    R.bad("stale", e.where(), "%s:%s" % (f.q, d[2]), "%s reads %s after it changed %s and before the refresh" % (e.fn.q, d[2], w0))
    end = st.get(sg.exit.i, {})
    up = []
    for o, (b, e, w) in sorted(end.items(), key=str):
        if o == THIS and copied:
            b &= 4
            R.ok("refresh", "%s copies every derived value" % f.q)
            if not b:
                continue
        r = root(o)
        ev = Chg(e, b)
        if f.q in ("TBody::TBody", "TBody::operator="):
            R.bad("refresh", e.where(), "%s:%s" % (f.q, w), "%s changes %s of a body and ends without %s" % (f.q, w, missing(b)))
        elif r[0] == "arg" or r[0] == "loc" and any(r[2] == p["d"] for p in f.params):
            up.append((o, ev, w))
        elif r[0] in ("loc", "tmp") and not shared(f, r):
            R.ok("refresh", "%s: a local body that nobody sees" % f.q)
        elif r[0] in ("ret",) and f.file.endswith(".cpp") is False:
            continue
        else:
            R.bad("refresh", e.where(), "%s:%s" % (f.q, w), "%s changes %s of a body and ends without %s" % (f.q, w, missing(b)))
    for n, cs in changes.items():
        for own, bits, what, e in cs:
            if not any(same(own, o) for o in end):
                R.ok("refresh", "%s: %s changed at %s, then refreshed" % (f.q, what, e.where()))
    return up


class Chg:
    def __init__(self, e, bits):
        self.e, self.bits = e, bits

    def where(self):
        return self.e.where()


def shared(f, r):
    """A local that hands its body on: a smart pointer."""
    for n in f.nodes:
        if n["k"] == "DeclStmt":
            for v in n.get("decls", ()):
                if isinstance(v, dict) and v.get("d") == r[2]:
                    return "_ptr" in v.get("t", "")
    return True


def same(a, b):
    return a == b or strip(a) == strip(b)


def derived(loc):
    t = loc
    while t[0] in ("fld", "el", "ld"):
        if t[0] == "fld" and t[2].startswith("TBody::_"):
            return norm(strip(t[1])), 2, t[2].split("::")[-1]
        if t[0] == "fld" and t[2] in SEGD:
            o, rest = owner(t)
            if o is not None:
                return o, 1, SEGD[t[2]]
        t = t[1]
    return None


def copies_all(sg, f):
    got = set()
    for e in sg.events:
        if e.kind == "write" and e.loc[0] == "fld" and e.loc[1] == THIS and e.loc[2].startswith("TBody::_"):
            v = strip(e.val) if e.val else ("?",)
            if v[0] == "fld" and v[2] == e.loc[2] and v[1] != THIS:
                got.add(e.loc[2].split("::")[-1])
    return got >= set(BODYD)


def escape(P, R, sg, f, e):
    """The address of a corner that is handed to somebody who may keep and change it."""
    v = None
    if e.kind == "write" and e.val is not None and root(e.loc)[0] not in ("loc", "tmp", "retv"):
        v = [e.val]
    elif e.kind == "call" and e.inl is None and (e.q or "").startswith(("lua_pushlightuserdata", "lua_newuserdata")):
        v = list(e.args or ())
    for t in v or ():
        if t[0] in ("fld", "el"):
            o, rest = owner(t)
            if o is not None and ("TAtt::corner" in rest or rest == ("[]",) or rest and rest[-1] == "TAtt::slip"):
                R.bad("escape", e.where(), "%s" % f.q, "%s hands out the address of %s: what is changed through it changes the contour without a refresh" % (f.q, show(t)))


def direct(P, R, U, F):
    n = 0
    for f in P.fns.values():
        if not f.file.startswith(REPO) or "/test/" in f.file or not f.nodes:
            continue
        for i, t in lhs(f):
            x = f.nodes[t]
            nm = x.get("m")
            if nm not in ("dl", "r", "_1_eps") + BODYD:
                continue
            base = f.nodes[x["c"][0]] if x["c"] else {}
            bt = base.get("t", "")
            while base.get("k") in ("ImplicitCastExpr", "ParenExpr") and base.get("c"):
                base = f.nodes[base["c"][0]]
                if "TAtt" in base.get("t", ""):
                    bt = base["t"]
            if nm in BODYD and "TBody" not in bt or nm not in BODYD and "TAtt" not in bt:
                continue
            n += 1
            ok = f.key in (F if nm in BODYD else U) or f.q in ("TBody::TBody", "TBody::operator=", "TAtt::TAtt")
            if not ok:
                ok = all(g in U | F for g in callersof(P, f.key)) and bool(callersof(P, f.key))
            R.check(ok, "direct", f.where(i), "%s:%s" % (f.q, nm), "%s sets %s of a %s itself: it need not be that of the contour" % (f.q, nm, "body" if nm in BODYD else "segment"),
                    sample="%s is set in %s" % (nm, f.q))
    R.need(n, 8, "assignments of derived geometry")


def callersof(P, key):
    c = P.__dict__.setdefault("_c10callers", None)
    if c is None:
        c = {}
        for f in P.fns.values():
            for _, nd, d in f.calls():
                if nd.get("callee"):
                    c.setdefault(nd["callee"], set()).add(f.key)
        P.__dict__["_c10callers"] = c
    return c.get(key, set())


def lhs(f):
    for n, nd in enumerate(f.nodes):
        k = nd["k"]
        t = None
        if k in ("BinaryOperator", "CompoundAssignOperator") and (nd.get("op") or "").endswith("=") and nd.get("op") not in ("==", "!=", "<=", ">="):
            t = nd["c"][0]
        elif k == "CXXOperatorCallExpr" and nd.get("op") in ("=", "+=", "-=", "*=", "/="):
            t = nd["args"][0] if nd.get("args") else None
        while t is not None:
            x = f.nodes[t]
            if x["k"] == "MemberExpr":
                yield n, t
                # v.x = ...: also the vector it is part of
                t = x["c"][0] if x["c"] else None
                continue
            t = x["c"][0] if x["k"] in ("ImplicitCastExpr", "ParenExpr") and x["c"] else None


# ---------------------------------------------------------------- formulas
class Geo:
    """Terms over one segment: corners C (this) and N (next)."""

    def __init__(self, sg, f):
        self.sg, self.f = sg, f
        self.idx = set()
        self.wrap = False
        self.next = False
        self.unknown = None

    def leaf(self, t):
        """Corner coordinates, and what the segment refresher has computed from them."""
        if t[0] == "ld":
            t = t[1]
        ax = None
        if t[0] == "fld" and t[2] in ("TVec::x", "TVec::y"):
            ax = t[2][-1]
            b = t[1]
        else:
            b = t
        if b[0] == "ld":
            b = b[1]
        if b[0] != "fld" or b[2] not in ("TAtt::corner", "TAtt::dl", "TObj::r") or ax is None:
            return None
        e = b[1]
        if e[0] != "el" or strip(e[1]) != ("fld", THIS, ALIST):
            return None
        k = self.which(e[2])
        if k is None:
            self.unknown = e[2]
            return None
        nm = b[2]
        if k not in (0, 1) and nm == "TAtt::corner":
            return Poly.atom(("corner%+d" % k, ax))
        C, N = Poly.atom(("C", ax)), Poly.atom(("N", ax))
        if nm == "TAtt::corner":
            self.next |= k == 1
            return C if k == 0 else N
        if k != 0:
            return Poly.atom(("%s%+d" % (nm.split("::")[1], k), ax))
        return N - C if nm == "TAtt::dl" else (C + N) * Poly.const(Fraction(1, 2))

    def which(self, i):
        """Offset of the segment from the one the loop is at (None: not recognised)."""
        if i[0] == "phi":
            self.idx.add(i)
            return 0
        if i[0] == "op" and i[1] in ("+", "-") and len(i) == 4:
            for a, b in ((i[2], i[3]), (i[3], i[2])):
                if a[0] == "c" and isinstance(a[1], int) and (i[1] == "+" or a is i[3]):
                    k = self.which(b)
                    return None if k is None else k + (a[1] if i[1] == "+" else -a[1])
                if a[0] == "f" and a[1] == "size" and i[1] == "+":
                    return self.which(b)        # one whole turn
            return None
        if i[0] == "op" and i[1] == "%" and i[3][0] == "f" and i[3][1] == "size":
            k = self.which(i[2])
            self.wrap = True
            return k
        if i[0] == "ite":
            ks = [x for x in (i[2], i[3]) if x != ("c", 0)]
            if len(ks) == 1 and self.which(ks[0]) == 1:
                self.wrap = True
                return 1
        return None

    def poly(self, t, extra=None):
        def at(x):
            r = self.leaf(x)
            if r is None and extra is not None:
                r = extra(x)
            return r
        return poly(t, at)


def C(a):
    return Poly.atom(("C", a))


def N(a):
    return Poly.atom(("N", a))


def half(p):
    return p * Poly.const(Fraction(1, 2))


DL = {a: N(a) - C(a) for a in "xy"}
MID = {a: half(C(a) + N(a)) for a in "xy"}
LEN = Poly.atom(("fn", "sqrt", ((DL["x"] * DL["x"] + DL["y"] * DL["y"]).key(),)))
CROSS = C("x") * N("y") - C("y") * N("x")


def telescopes(p):
    """p summed over a closed contour vanishes: p = h(N) - h(C)."""
    s = {}
    for k, v in p.m.items():
        side = {a[0] for a, e in k if isinstance(a, tuple) and a and a[0] in ("C", "N")}
        other = [a for a, e in k if not (isinstance(a, tuple) and a and a[0] in ("C", "N"))]
        if len(side) > 1 or any("'C'" in repr(a) or "'N'" in repr(a) for a in other):
            return False
        if not side:
            return False
        kk = tuple(sorted((((("C", a[1]) if isinstance(a, tuple) and a[0] in ("C", "N") else a), e) for a, e in k), key=repr))
        s[kk] = s.get(kk, 0) + v
    return all(v == 0 for v in s.values())


def whole(P, R, sg, g, rule, at, what):
    """The loop visits every segment of the contour once, with its own next corner."""
    for i in g.idx:
        starts, steps, bounds = index_cover(sg, i)
        if not starts or not bounds:
            R.assume("%s: the loop over the contour is not recognised" % what)
            continue
        al = ("fld", THIS, ALIST)
        size = ("f", "size", al)
        off = None
        for op, b in bounds:
            d = poly(("op", "-", b, size))
            if d.isconst():
                off = int(d.value()) + (1 if op == "<=" else 0)
            else:
                off = None
        push = [e for e in sg.events if e.kind == "call" and e.inl is None and e.q.split("::")[-1] in ("push_back", "emplace_back") and e.obj is not None and strip(e.obj) == al]
        pop = [e for e in sg.events if e.kind == "call" and e.inl is None and e.q.split("::")[-1] == "pop_back" and e.obj is not None and strip(e.obj) == al]
        hdr = i[1]
        closed = [e for e in push if dominates(sg, e.n, hdr)]
        opened = [e for e in pop if dominates(sg, e.n, hdr)]
        extra = len(closed) - len(opened)
        R.check(all(s == ("c", 0) for s in starts), rule, at, "start", "%s starts with segment %s: the first ones are left out" % (what, ", ".join(show(s) for s in starts)))
        R.check(steps == {("+", 1)}, rule, at, "step", "%s does not visit every segment" % what)
        if off is None:
            R.assume("%s: the bound of the loop is not recognised" % what)
            continue
        R.check(off + extra == 0, rule, at, "bound", "%s visits %s segments than there are" % (what, "fewer" if off + extra < 0 else "more"), sample="%s: every segment once" % what)
        if extra == 1:
            a = closed[-1].args[0] if closed[-1].args else ("?",)
            fr = strip(a)
            R.check(fr[0] == "el" and fr[2] in ("front", ("c", 0)) and strip(fr[1]) == al, rule, closed[-1].where(), "closing", "the contour is closed with %s instead of its first corner" % show(a))
            R.check(bool(pop) and bool(pop) and sg.exit.i not in sg.reach([closed[-1].n], stop=[e.n for e in pop if e not in opened]), rule, closed[-1].where(), "unclose",
                    "the corner added to close the contour is not removed again")
        elif not g.wrap and g.next:
            R.bad(rule, at, "closing", "%s uses the corner after the last one, which is not that of the contour's first segment" % what)


def segments(P, R, f):
    sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO), maxdepth=6, itidx=True)
    want = {("TAtt::dl", "x"): DL["x"], ("TAtt::dl", "y"): DL["y"], ("TObj::r", "x"): MID["x"], ("TObj::r", "y"): MID["y"], ("TObj::_1_eps", ""): Poly.const(3) * LEN.inv()}
    got = {}
    unres = set()
    for e in sg.events:
        if e.kind != "write" or e.loc is None:
            continue
        o, rest = owner(e.loc)
        if o is None or len(rest) < 2 or rest[0] != "[]":
            continue
        nm = rest[1]
        if nm not in ("TAtt::dl", "TObj::r", "TObj::_1_eps"):
            continue
        axs = [rest[2][-1]] if len(rest) > 2 else ["x", "y"] if nm != "TObj::_1_eps" else [""]
        for ax in axs:
            v = e.val
            if ax and len(rest) == 2:
                v = part(sg, e, ax)
                if v is None:
                    R.assume("%s: the value of %s.%s is not resolved" % (f.q, nm, ax))
                    unres.add((nm, ax))
                    continue
            g = Geo(sg, f)
            p = g.poly(v)
            i = e.loc
            while i[0] != "el":
                i = i[1]
            k = g.which(i[2])
            if g.unknown is not None or k is None or len(g.idx) != 1:
                R.assume("%s: the corners that %s is computed from are not recognised" % (f.q, nm))
                unres.add((nm, ax))
                continue
            if k != 0:
                R.bad("segments", e.where(), "index", "%s of the next segment is set" % SEGD[nm])
                continue
            got.setdefault((nm, ax), []).append(e)
            R.check(p == want[(nm, ax)], "segments", e.where(), nm + ax, "%s%s is computed as %r instead of %r (C, N: the segment's corners)" % (SEGD[nm], "." + ax if ax else "", p, want[(nm, ax)]),
                    sample="%s%s = %r" % (nm.split("::")[1], "." + ax if ax else "", p))
            whole(P, R, sg, g, "segments", e.where(), "the refresh of %s" % nm.split("::")[1])
    for e in sg.events:
        if e.kind == "write" and e.loc is not None and owner(e.loc)[0] is None and root(e.loc) != THIS:
            for nm, ax in want:
                if any(y[0] == "fld" and y[2] == nm for y in subterms(e.loc)):
                    R.assume("%s: the segment whose %s is set is not recognised" % (f.q, nm))
                    unres.add((nm, ax))
    for k in want:
        if k not in got:
            R.check(k in got or k in unres, "segments", f.where(0), "missing:%s%s" % k, "%s is not rebuilt" % SEGD[k[0]])
    R.count("segment formulas", len(got))


def part(sg, e, ax):
    """Component ax of the value that a vector write assigns."""
    v = e.val
    if v is None:
        return None
    if v[0] == "ld":
        v = v[1]
    if v[0] in ("tmp", "loc", "fld", "el"):
        l = ("fld", v, "TVec::" + ax)
        st = sg.outs[e.n]
        return sg.load(st, l)
    return None


def accumulators(sg, p):
    """(initial values, increments) of an accumulator phi: terms."""
    fam = {p}
    init, inc = [], []
    seen = set()
    st = [p]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for v in sg.phis.get(x, ()):
            if v[0] == "phi" and v in sg.phis:
                st.append(v)
            elif any(y[0] == "phi" and y[2] == p[2] for y in subterms(v)):
                inc.append(v)
            elif v == ("undef",):
                pass
            else:
                init.append(v)
    return init, inc


def properties(P, R, f):
    sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO), maxdepth=6, itidx=True)
    st = sg.outs[sg.exit.i] if sg.exit.i in sg.outs or isinstance(sg.outs, (list, dict)) else {}

    def member(n, ax=None):
        l = ("fld", THIS, "TBody::" + n)
        return ("fld", l, "TVec::" + ax) if ax else l

    acc = {}

    def sumof(p):
        """Normal form of what accumulator p adds up per segment, with loop facts."""
        if p in acc:
            return acc[p]
        acc[p] = None
        init, inc = accumulators(sg, p)
        if not inc:
            return None
        g = Geo(sg, f)
        tot = None
        for v in inc:
            me = lambda x: Poly.atom(("ME",)) if x[0] == "phi" and x[2] == p[2] else None
            try:
                q = g.poly(v, me)
            except TooBig:
                return None
            rest = q - Poly.atom(("ME",))
            if any(a == ("ME",) for a in rest.atoms()):
                return None
            if tot is not None:
                return None
            tot = rest
        if g.unknown is not None:
            return None
        acc[p] = (tot, init, g)
        return acc[p]

    def values(loc):
        """What the member may hold at the end: terms with the conditions unrolled."""
        v = sg.load(st, loc)
        out, seen, todo = [], set(), [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "phi" and x in sg.phis and not induct(sg, x):
                todo.extend(sg.phis[x])
            else:
                out.append(x)
        return out

    def at(loc):
        for e in sg.events:
            if e.kind == "write" and (e.loc == loc or loc[0] == "fld" and e.loc == loc[1]):
                return e.where()
        return f.where(0)

    # simple sums
    def simple(n, want, what):
        l = member(n)
        vs = [v for v in values(l)]
        ok = False
        for v in vs:
            if v == ("c", 0):
                continue
            if v == ("ld", l):
                R.bad("properties", at(l), n + ":kept", "%s of the earlier contour is kept on a way through %s" % (what, f.q))
                ok = True
                continue
            s = sumof(v) if v[0] == "phi" else None
            if s is None:
                R.assume("%s: how %s is added up is not recognised" % (f.q, what))
                ok = True
                continue
            tot, init, g = s
            R.check(all(i == ("c", 0) for i in init), "properties", at(l), n + ":init", "%s starts from %s" % (what, ", ".join(show(i) for i in init)))
            d = tot - want
            R.check(not d.m or telescopes(d), "properties", at(l), n, "%s adds up %r per segment instead of %r" % (what, tot, want), sample="%s = sum of %r" % (n, tot))
            whole(P, R, sg, g, "properties", at(l), what)
            ok = True
        R.check(ok, "properties", at(l), n + ":none", "%s is not computed from the contour" % what)
        return vs

    simple("_slen", LEN, "the length of the contour")
    AREA = MID["y"] * DL["x"]
    avs = simple("_area", AREA, "the area")
    isarea = lambda x: x[0] == "phi" and x[2] == member("_area") or x[0] == "ld" and x[1] == member("_area")
    islen = lambda x: x[0] == "phi" and x[2] == member("_slen") or x[0] == "ld" and x[1] == member("_slen")

    def linear(v, what, key, loc):
        """v = sum over accumulators: returns {factor monomial: increment} or None."""
        def ex(x):
            if isarea(x):
                return Poly.atom("A")
            if islen(x):
                return Poly.atom("S")
            if x[0] == "phi" and induct(sg, x):
                return Poly.atom(("ACC", x))
            return None
        try:
            p = poly(v, ex)
        except TooBig:
            return None
        return p

    # centre of mass
    seen = {"area": 0, "line": 0}
    for ax in "xy":
        l = member("_cofm", ax)
        for v in values(l):
            if v == ("c", 0):
                continue
            p = linear(v, "the centre of mass", "_cofm", l)
            r = expand(sg, p, sumof)
            if r is None:
                R.assume("%s: how the centre of mass is computed is not recognised" % f.q)
                continue
            tot, gs, inits = r
            R.check(all(i == ("c", 0) for i in inits), "properties", at(l), "_cofm:init", "the sum for the centre of mass starts from %s" % ", ".join(show(i) for i in inits))
            wa = -(MID[ax] * CROSS) * (Poly.const(3) * Poly.atom("A")).inv()
            wl = MID[ax] * LEN * Poly.atom("S").inv()
            kind = "area" if "A" in tot.atoms() else "line" if "S" in tot.atoms() else None
            w = wa if kind == "area" else wl
            d = tot - w
            R.check(kind is not None and (not d.m or telescopes(d)), "properties", at(l), "_cofm." + ax, "the centre of mass (%s) is the sum of %r per segment instead of %r" % (ax, tot, w), sample="cofm.%s = sum of %r" % (ax, tot))
            if kind:
                seen[kind] += 1
            for g in gs:
                whole(P, R, sg, g, "properties", at(l), "the centre of mass")
    # moment of inertia
    l = member("_moi_cofm")
    for v in values(l):
        if v == ("c", 0):
            continue
        cof = {}

        def ex(x):
            if isarea(x):
                return Poly.atom("A")
            if x[0] == "ld" and x[1] in (member("_cofm", "x"), member("_cofm", "y")):
                return Poly.atom(("cofm of the earlier contour", x[1][2][-1]))
            if x[0] == "phi":
                k = x[2]
                for ax in "xy":
                    if k == member("_cofm", ax):
                        return Poly.atom(("cofm", ax))
                if x[0] == "phi" and induct(sg, x):
                    return Poly.atom(("ACC", x))
            return None
        p = poly(v, ex)
        # replace the centre of mass by its own value where it was written out
        r = None
        A = Poly.atom("A")
        cv = {}
        for ax in "xy":
            for c in values(member("_cofm", ax)):
                q = poly(c, ex)
                if "A" in q.atoms():
                    cv[ax] = q
        cand = []
        if len(cv) == 2:
            cand.append(p + A * (cv["x"] * cv["x"] + cv["y"] * cv["y"]))
        cand.append(p + A * (Poly.atom(("cofm", "x")) * Poly.atom(("cofm", "x")) + Poly.atom(("cofm", "y")) * Poly.atom(("cofm", "y"))))
        w = -((C("x") * C("x") + C("y") * C("y") + C("x") * N("x") + C("y") * N("y") + N("x") * N("x") + N("y") * N("y")) * CROSS) * Poly.const(Fraction(1, 12))
        res = [expand(sg, q, sumof) for q in cand]
        res = [x for x in res if x is not None]
        if not res:
            left = [q.split(lambda a: isinstance(a, tuple) and a and a[0] == "ACC").get((), Poly({})) for q in cand]
            known = lambda a: a == "A" or isinstance(a, tuple) and a and a[0] in ("cofm", "cofm of the earlier contour")
            if left[-1].m and all(known(a) for a in left[-1].atoms()):
                R.bad("properties", at(l), "_moi_cofm:shift", "the moment of inertia is not moved from the origin to the current centre of mass: it is %r" % p)
                continue
            R.assume("%s: how the moment of inertia is computed is not recognised" % f.q)
            continue
        ok = None
        for tot, gs, inits in res:
            d = tot - w
            if not d.m or telescopes(d):
                ok = (tot, gs, inits)
        tot, gs, inits = ok or res[0]
        R.check(ok is not None, "properties", at(l), "_moi_cofm", "the moment of inertia is %r per segment (about the origin) instead of %r, or is not moved to the centre of mass" % (tot, w), sample="moi = sum of %r - A |cofm|^2" % tot)
        R.check(all(i == ("c", 0) for i in inits), "properties", at(l), "_moi_cofm:init", "the sum for the moment of inertia starts from %s" % ", ".join(show(i) for i in inits))
        for g in gs:
            whole(P, R, sg, g, "properties", at(l), "the moment of inertia")
    bounds(P, R, sg, f, member, values, at)
    # slip
    l = member("_slip")
    ok = False
    for v in values(l):
        if v == ("c", 0):
            continue
        if v[0] == "phi":
            ini, inc = accumulators(sg, v)
            for e in sg.events:         # if (slip) _slip = true
                if e.kind == "write" and e.loc == v[2] and e.val in (("c", 1), ("c", True)) and e.val in ini:
                    for b, lab in guards(sg, e.n):
                        d = [decide(b.val, lambda t: k if slipload(t) else None) for k in (0, 1)]
                        if None not in d and bool(d[1]) == bool(truth(lab)) != bool(d[0]):
                            ini = [i for i in ini if i != e.val]
                            inc = inc + [e.val]
                            break
            R.check(all(i in (("c", 0), ("c", False)) for i in ini if not slipload(i)), "properties", at(l), "_slip:init", "the slip of the body starts from %s" % ", ".join(show(i) for i in ini))
            ok = any(slipload(y) for i in inc + ini for y in subterms(i)) or any(slipload(y) for e in sg.events if e.kind == "br" for y in subterms(e.val))
            good = all(orterm(i) for i in inc)
            R.check(ok and good, "properties", at(l), "_slip", "whether the body slips is not 'any of its segments slips': %s" % ", ".join(show(i) for i in inc), sample="slip = any segment slips")
    R.check(ok, "properties", at(l), "_slip:none", "whether the body slips is not computed from its segments")
    R.count("properties with a formula", 6)


def truth(lab):
    return lab[-1] if isinstance(lab, tuple) else lab


def orterm(t):
    return t[0] == "op" and t[1] in ("||", "|") or slipload(t) or t in (("c", 1), ("c", True)) or t[0] == "op" and t[1] == "!=" or t[0] == "ite"


def slipload(t):
    return t[0] == "ld" and t[1][0] == "fld" and t[1][2] == "TAtt::slip"


def induct(sg, p):
    from vv.paths import inductive
    return p in sg.phis and inductive(sg, p)


def expand(sg, p, sumof):
    """Per-segment value of a form that is linear in accumulators."""
    tot = Poly({})
    gs, inits = [], []
    isacc = lambda a: isinstance(a, tuple) and a and a[0] == "ACC"
    parts = p.split(isacc)
    for k, c in parts.items():
        if not k:
            if c.m:
                return None
            continue
        if len(k) != 1 or k[0][1] != 1:
            return None
        s = sumof(k[0][0][1])
        if s is None:
            return None
        tot = tot + c * s[0]
        inits += s[1]
        gs.append(s[2])
    return (tot, gs, inits) if gs else None


def bounds(P, R, sg, f, member, values, at):
    """Largest distance from the centre and smallest and largest coordinates of the corners."""
    for n, ax, sign in (("_min_rect_tr", "x", 1), ("_min_rect_tr", "y", 1), ("_min_rect_bl", "x", -1), ("_min_rect_bl", "y", -1), ("_min_disc_r2", None, 1)):
        l = member(n, ax)
        what = "the %s" % {"_min_rect_tr": "upper bound of " + str(ax), "_min_rect_bl": "lower bound of " + str(ax), "_min_disc_r2": "radius of the bounding disc"}[n]
        done = False
        for v in values(l):
            if v == ("c", 0):
                continue
            if v[0] != "phi":
                R.check(not poly(v).isconst(), "properties", at(l), n, "%s is the constant %s" % (what, show(v)))
                R.assume("%s: how %s is found is not recognised" % (f.q, what))
                done = True
                continue
            init, cand, extra = family(sg, v)
            for b, e in extra:
                R.bad("properties", e.where(), n + str(ax or "") + ":guard", "a corner is considered for %s only if another comparison (%s) fails or holds" % (what, show(b.val)))
            g = Geo(sg, f)

            def ex(x):
                k = x[2] if x[0] == "phi" else None
                if x[0] == "ld" and x[1] in (member("_cofm", "x"), member("_cofm", "y")):
                    return Poly.atom(("cofm of the earlier contour", x[1][2][-1]))
                for b in "xy":
                    if k == member("_cofm", b):
                        return Poly.atom(("cofm", b))
                return None
            if n == "_min_disc_r2":
                dx, dy = C("x") - Poly.atom(("cofm", "x")), C("y") - Poly.atom(("cofm", "y"))
                w = dx * dx + dy * dy
                oki = all(poly(i).isconst() and poly(i).value() <= 0 for i in init)
            else:
                w = C(ax)
                oki = all(extreme(i, -sign) for i in init)
            R.check(oki, "properties", at(l), n + str(ax or "") + ":init", "the search for %s starts from %s" % (what, ", ".join(show(i) for i in init)), sample="%s starts from %s" % (n, ", ".join(show(i) for i in init)))
            if not cand:
                R.assume("%s: how %s is found is not recognised" % (f.q, what))
                done = True
                continue
            for c, how in cand:
                p = g.poly(c, ex)
                if g.unknown is not None:
                    R.assume("%s: which corner bounds %s is not recognised" % (f.q, what))
                    done = True
                    continue
                R.check(p == w, "properties", at(l), n + str(ax or ""), "%s is sought among %r instead of %r" % (what, p, w), sample="%s among %r" % (n, p))
                if how is None:
                    R.assume("%s: the comparison that finds %s is not recognised" % (f.q, what))
                else:
                    R.check(how == sign, "properties", at(l), n + str(ax or "") + ":side", "%s is the %s value that is met" % (what, "smallest" if how < 0 else "largest" if how > 0 else "last"), sample="%s: %s" % (n, "largest" if how > 0 else "smallest"))
                done = True
            whole(P, R, sg, g, "properties", at(l), what)
        R.check(done, "properties", at(l), n + str(ax or "") + ":none", "%s is not computed from the contour" % what)


def extreme(t, sign):
    """The term is infinite (or the largest number) of the given sign."""
    s = 1
    while t[0] == "op1" and t[1] == "-":
        s, t = -s, t[2]
    x = show(t)
    if "infinity" in x or "HUGE_VAL" in x or "inf" == x or "numeric_limits::max" in x or x.startswith("std::numeric_limits::max"):
        return s == sign
    if "lowest" in x:
        return -s == sign
    if t[0] == "c" and isinstance(t[1], float) and abs(t[1]) > 1e300:
        return (t[1] > 0) == (s * sign > 0)
    return False


def family(sg, p):
    """Of a running extreme: initial values and the candidates with +1 (largest) or -1."""
    init, cand, extra = [], [], []
    seen, st = set(), [p]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for v in sg.phis.get(x, ()):
            if v[0] == "phi" and v[2] == p[2]:
                st.append(v)
            elif v == ("undef",):
                pass
            elif v[0] == "f" and v[1] in ("std::max", "std::min", "fmax", "fmin", "std::fmax", "std::fmin") or v[0] == "ld" and v[1][0] == "f" and v[1][1] in ("std::max", "std::min"):
                t = v if v[0] == "f" else v[1]
                oth = [a for a in t[2:] if strip(a) != p[2] and not (a[0] == "phi" and a[2] == p[2])]
                if len(oth) == 1:
                    cand.append((oth[0], 1 if "max" in t[1] else -1))
            elif v[0] == "ite" and any(y[0] == "phi" and y[2] == p[2] for y in subterms(v)):
                o = [a for a in v[2:] if not (a[0] == "phi" and a[2] == p[2])]
                if len(o) == 1:
                    h = cmpdir(v[1], o[0], p)
                    if h is not None and v[3] == o[0]:
                        h = -h
                    cand.append((o[0], h))
            elif not reads_corner(v):
                init.append(v)
            else:
                how = None
                for e in sg.events:
                    if e.kind == "write" and e.loc == p[2] and e.val == v or e.kind == "write" and e.loc == p[2] and sg.outs[e.n].get(p[2]) == v:
                        how = 0
                        for b, lab in guards(sg, e.n):
                            h = cmpdir(b.val, v, p)
                            if h is not None:
                                how = h if truth(lab) else -h
                            elif reads_corner(b.val) and (b.val[0] == "op" and b.val[1] in ("<", "<=")):
                                extra.append((b, e))
                cand.append((v, how))
    return init, cand, extra


def cmpdir(t, v, p):
    """+1: t holds when v is larger than the running value p."""
    neg = 1
    while t[0] == "op1" and t[1] == "!":
        neg, t = -neg, t[2]
    if t[0] == "op" and t[1] in ("<", "<=") and len(t) == 4:
        isp = lambda x: x[0] == "phi" and x[2] == p[2] or strip(x) == p[2]
        if isp(t[2]) and t[3] == v:
            return neg
        if isp(t[3]) and t[2] == v:
            return -neg
    return None


def reads_corner(t):
    return any(y[0] == "fld" and y[2] == "TAtt::corner" for y in subterms(t))


# ---------------------------------------------------------------- heat layer and getters
def heat(P, R, seg, U, F):
    HL = ("fld", THIS, "TBody::heat_layer")
    rec = P.records.get("TBody") or {}
    lay = [x["name"] for x in rec.get("fields", ()) if "vector<TVec" in x.get("t", "")]
    if not lay:
        R.assume("the body keeps no heat layer")
        return
    HL = ("fld", THIS, "TBody::" + lay[0])
    # cleared by the refresher on every way
    sg = SG(P, seg, inline=lambda g, c: g.file.startswith(REPO), maxdepth=6, itidx=True)
    clr = [e for e in sg.events if e.kind == "call" and e.obj == HL and e.q.split("::")[-1] in ("clear", "operator=", "swap", "assign")]
    builds = [e for e in sg.events if e.kind == "call" and e.obj == HL and e.q.split("::")[-1] in ("push_back", "emplace_back")]
    seen = sg.reach([sg.entry.i], stop=[e.n for e in clr]) if clr else {sg.exit.i}
    R.check(sg.exit.i not in seen, "heat", seg.where(0), "cleared", "the heat layer of the earlier contour is kept on a way through %s" % seg.q, sample="cleared on every way through %s" % seg.q)
    n = 0
    for f in P.fns.values():
        if f.cls != "TBody" or not f.nodes or f.key in U:
            continue
        if not any(nd["k"] == "MemberExpr" and nd.get("m") == lay[0] for nd in f.nodes):
            continue
        sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO) and g.key not in U | F, maxdepth=6, itidx=True)
        push = [e for e in sg.events if e.kind == "call" and e.obj == HL and e.q.split("::")[-1] in ("push_back", "emplace_back")]
        if f.q in ("TBody::TBody", "TBody::operator="):
            continue
        for e in push:
            n += 1
            g = Geo(sg, f)
            el = None
            ps = {}
            a = e.args[0] if e.args else None
            for ax in "xy":
                v = sg.load(sg.outs[e.n], ("fld", a, "TVec::" + ax)) if a is not None and len(e.args) == 1 else e.args["xy".index(ax)] if len(e.args or ()) == 2 else None
                if v is None:
                    continue

                def lf(x):
                    y = strip(x)
                    if y[0] == "fld" and y[2] in ("TVec::x", "TVec::y") and strip(y[1])[0] == "fld":
                        b = strip(y[1])
                        if b[2] in ("TObj::r", "TAtt::dl") and b[1][0] == "el" and strip(b[1][1]) == ("fld", THIS, ALIST):
                            if g.which(b[1][2]) == 0:
                                return Poly.atom((b[2].split("::")[1], y[2][-1]))
                    return None
                ps[ax] = poly(v, lf)
            w = {"x": Poly.atom(("r", "x")) - Poly.atom(("dl", "y")), "y": Poly.atom(("r", "y")) + Poly.atom(("dl", "x"))}
            if len(ps) < 2 or not g.idx:
                R.assume("%s: the points of the heat layer are not recognised" % f.q)
                continue
            for ax in "xy":
                R.check(ps[ax] == w[ax], "heat", e.where(), "point." + ax, "a point of the heat layer has %s = %r instead of %r" % (ax, ps[ax], w[ax]), sample="%s = %r" % (ax, ps[ax]))
            whole(P, R, sg, g, "heat", e.where(), "the heat layer")
            # built into an empty layer only
            cl = [c for c in sg.events if c.kind == "call" and c.obj == HL and c.q.split("::")[-1] == "clear"]
            gd = [(b, lab) for b, lab in guards(sg, e.n) if any(y[0] == "f" and y[1] in ("size", "empty") and len(y) > 2 and y[2] == HL for y in subterms(b.val))]
            ok = any(dominates(sg, c.n, e.n) and e.n not in sg.reach([e.n], stop=[c.n]) or dominates(sg, c.n, e.n) for c in cl)
            for b, lab in gd:
                for size in (0, 3):
                    d = decide(b.val, lambda t: (size if t[1] == "size" else int(size == 0)) if t[0] == "f" and t[1] in ("size", "empty") and len(t) > 2 and t[2] == HL else None)
                    if d is not None and size == 0 and bool(d) == bool(truth(lab)):
                        ok = True
            R.check(ok, "heat", e.where(), "empty", "points are added to a heat layer that may hold those of an earlier query")
            # every way to a use of the layer passes the test
        uses = [e for e in sg.events if e.kind == "call" and e.inl is None and e.q.split("::")[-1] in ("begin", "end", "operator[]", "at", "front", "back") and e.obj == HL]
    R.need(n, 1, "places that build the heat layer")


GET = {"get_slip": "_slip", "get_slen": "_slen", "get_area": "_area", "get_moi_cofm": "_moi_cofm", "get_cofm": "_cofm"}


def getters(P, R):
    n = 0
    for f in P.fns.values():
        if f.cls != "TBody" or not f.q.startswith("TBody::get_"):
            continue
        g = f.q.split("::")[1]
        sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO), maxdepth=6)
        for e in sg.events:
            if e.kind != "ret" or e.ctx != 0 or e.val is None:
                continue
            n += 1
            if g in GET:
                v = strip(e.val)
                ok = v == ("fld", THIS, "TBody::" + GET[g])
                if not ok and e.val[0] in ("tmp", "loc"):
                    ok = all(strip(sg.load(sg.outs[e.n], ("fld", e.val, "TVec::" + a))) == ("fld", ("fld", THIS, "TBody::" + GET[g]), "TVec::" + a) for a in "xy")
                if not ok and v[0] not in ("fld", "tmp", "loc", "phi"):
                    try:
                        ok = poly(e.val) == Poly.atom(("ld", ("fld", THIS, "TBody::" + GET[g])))
                    except TooBig:
                        pass
                R.check(ok, "getters", f.where(0), g, "%s gives %s, not %s" % (f.q, show(e.val), GET[g]), sample="%s: %s" % (g, GET[g]))
            elif g == "get_moi_axis":
                A = lambda *p: Poly.atom(("ld", chainf(p)))
                ax = {a: A("TBody::holder", "TVec3D::r", "TVec::" + a) + A("TBody::dpos", "TVec3D::r", "TVec::" + a) - A("TBody::_cofm", "TVec::" + a) for a in "xy"}
                w = A("TBody::_moi_cofm") + (ax["x"] * ax["x"] + ax["y"] * ax["y"]) * A("TBody::_area")
                p = poly(e.val)
                R.check(p == w, "getters", f.where(0), g, "the moment of inertia about the axis is %r instead of moi_cofm + |axis-cofm|^2 area" % p, sample="moi_axis = moi_cofm + |axis-cofm|^2 area")
    R.need(n, 5, "queries of derived geometry")


def chainf(p):
    t = THIS
    for x in p:
        t = ("fld", t, x)
    return t
