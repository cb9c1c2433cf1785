"""C18 equations and kernels treat x and y as rotations of each other."""
from vv.lib import *
from vv.sg import SG, subterms, show, root
from vv.poly import poly, Poly, TooBig
from vv.prog import REPO, AnalysisError

TECHNIQUE = "equivariance of the value flow: every assignment, return value and matrix coefficient is brought to a polynomial normal form and compared with its image under x->y, y->-x, with the rotation character of local quantities inferred"
NOTE = """Decides, for the equations, boundary conditions, kernels, force integrals, motion and geometry updates, that the y component is the image of the x component under the quarter
turn x->y, y->-x and that scalars do not change; contour integrals are compared up to terms that cancel around a closed contour. Point-in-contour tests, bounding boxes, the
tree and the sampling grids are bound to the axes by design and are not judged; the linear source formula is written with complex numbers and is judged by its weights."""

PAIR = {"TVec::x": ("TVec::y", 0), "TVec::y": ("TVec::x", 1), "snode::x": ("snode::y", 0), "snode::y": ("snode::x", 1)}
VEC = {"TVec::x", "TVec::y"}
TENSOR = {"TBody::kspring", "TBody::damping", "TBody::collision_min", "TBody::collision_max"}
EVAL = {"TBody::speed_x": ("TBody::speed", 0), "TBody::speed_y": ("TBody::speed", 1), "Space::inf_vx": ("Space::inf_v", 0), "Space::inf_vy": ("Space::inf_v", 1)}
FILES = ("MConvectiveFast.cpp", "MDiffusiveFast.cpp", "MFlowmove.cpp", "TBody.cpp", "TSpace.cpp", "MEpsilonFast.cpp", "TVec.hpp", "TVec3D.hpp", "TBody.hpp", "TObj.hpp", "TSpace.hpp")
# bound to the axes by design
AXES = {"TBody::isPointInContour", "TBody::isPointInHeatLayer", "TBody::isPointInvalid"}
LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
ONEDIR = {"MFlowmove::heat_crop"}
BASES = {"TBody::_min_rect_bl", "TBody::_min_rect_tr"}


def run(P, R, tier):
    R.rule("pair", "what is assigned to the y component of a vector is the image of what is assigned to its x component, and both are assigned together")
    R.rule("scalar", "a quantity that is not a component does not change under the quarter turn")
    R.rule("integral", "an integral over the contour does not change under the quarter turn, up to terms that cancel around it")
    R.rule("returns", "a returned vector is a vector (or a pair of scalars everywhere)")
    R.rule("tests", "tests of components come in pairs")
    R.rule("rows", "the equation of the y component is the image of the equation of the x component; other equations are their own image")
    M = Model(P, R)
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.nodes or not f.file.startswith(REPO) or f.file.rsplit("/", 1)[-1] not in FILES or f.q in AXES:
            continue
        if M.row(f):
            continue
        a = M.get(f)
        n += 1
        a.report(R)
        tests(a, R)
    rows(P, R, M)
    R.need(n, 60, "functions with vector code")


class Model:
    def __init__(s, P, R):
        s.P, s.R, s.memo, s.busy = P, R, {}, set()

    def row(s, f):
        return f.cls == "MConvectiveFast" and f.name.startswith("fill") and "Equation" in f.name

    def small(s, f0):
        def ok(g, c):
            if g.q in ("TEval::eval",) or g.cls in ("Matrix", "TEval"):
                return False
            if g.file.endswith(("/TVec.hpp", "/TVec3D.hpp", "/TObj.hpp", "/TBody.hpp", "/elementary.h", "/TTime.hpp")):
                return True
            if not g.file.startswith(REPO) or g.q in AXES or s.row(g):
                return False
            br = sum(1 for n in g.nodes if n["k"] in LOOPS)
            if s.row(f0) and any(base_type(p["t"]).endswith("*") and "double" in p["t"] for p in g.params):
                return True
            return not br and len(g.nodes) < 220
        return ok

    def get(s, f):
        a = s.memo.get(f.key)
        if a is None:
            s.busy.add(f.key)
            a = s.memo[f.key] = Fun(s, f)
            s.busy.discard(f.key)
        return a

    def retclass(s, f):
        """Character of the vector a function returns."""
        if f is None or not f.nodes or f.key in s.busy or not f.file.startswith(REPO):
            return "vec"
        return s.get(f).rcls or "vec"


SW = {"TVec::x": "TVec::y", "TVec::y": "TVec::x", "TBody::speed_x": "TBody::speed_y", "TBody::speed_y": "TBody::speed_x", "Space::inf_vx": "Space::inf_vy",
      "Space::inf_vy": "Space::inf_vx", "snode::x": "snode::y", "snode::y": "snode::x"}


def swap(t):
    """Components exchanged, without signs."""
    if isinstance(t, frozenset):
        return frozenset(swap(x) for x in t)
    if isinstance(t, tuple):
        r = tuple(swap(x) for x in t)
        if len(r) == 3 and r[0] == "fn" and isinstance(r[2], tuple) and str(r[1])[:3] in ("cmp", "abs", "op&", "op|"):
            ks = r[2]
            if str(r[1])[:3] in ("cmp", "abs"):
                ks = [min(Poly(dict(k)).key(), (-Poly(dict(k))).key(), key=repr) for k in ks]
            return ("fn", r[1], tuple(sorted(ks, key=repr)))
        if r and all(isinstance(x, tuple) and len(x) == 2 for x in r):   # a sum or a product
            return tuple(sorted(r, key=lambda x: repr(x[0])))
        return r
    return SW.get(t, t) if isinstance(t, str) else t


def comp(t):
    """Mentions a component."""
    if isinstance(t, (tuple, frozenset)):
        return any(comp(x) for x in t)
    return t in SW


def base_type(t):
    return t.replace("const ", "").replace("&", "").strip()


class Fun:
    """Rotation characters in one function."""

    def __init__(s, M, f):
        s.M, s.f = M, f
        s.sg = SG(M.P, f, inline=M.small(f), maxdepth=6, maythrow=lambda k: False, itidx=True)
        s.calls = {e.n: e for e in s.sg.events if e.kind == "call"}
        s.cls = {}
        s.rcls = None
        s.bads = []
        s.n = {"pair": 0, "scalar": 0, "returns": 0, "integral": 0}
        s.ctrl = None
        s._pm, s._lm = {}, {}
        s.collect()
        s.infer()
        s.returns()

    # ---- locations -------------------------------------------------------
    def local(s, loc):
        r = root(loc)
        if r[0] in ("loc", "tmp"):
            # a reference or pointer parameter of the root function names the caller's object
            return not (loc != r and any(x[0] == "ld" for x in subterms(loc)))
        return False

    def outparam(s, loc):
        """A scalar result handed back through a pointer."""
        return loc[0] in ("arg", "ld") and (loc[0] == "arg" or loc[1][0] == "loc")

    def collect(s):
        sg = s.sg
        s.control()
        s.vw, s.sw, s.recs = {}, {}, []
        for e in sg.events:
            if e.kind != "write" or e.loc is None or e.val is None:
                continue
            l = e.loc
            if l[0] == "fld" and l[2] in PAIR:
                s.vw.setdefault(l[1], []).append(e)
            elif l[0] in ("loc", "tmp") and e.val[0] in ("loc", "tmp") and (("fld", l, "TVec::x") in sg.outs.get(e.n, {}) or ("fld", e.val, "TVec::x") in sg.outs.get(e.n, {})):
                s.recs.append(e)
                s.whole(e)
            elif not s.whole(e):
                s.sw.setdefault(l, []).append(e)

    def whole(s, e):
        """A record assigned as a whole: its vectors are assigned."""
        import copy
        st = s.sg.outs.get(e.n, {})
        if e.val[0] not in ("loc", "tmp", "fld", "el", "ret", "ld", "arg") or e.val == e.loc:
            return False
        seen = False
        for p in list(leaves(st, e.loc)):
            if not p or p[-1] != "TVec::x":
                continue
            b = e.loc
            for m in p[:-1]:
                if not (isinstance(m, str) and "::" in m):
                    break
                b = ("fld", b, m)
            else:
                vs = [st.get(("fld", b, "TVec::" + c)) for c in "xy"]
                if None in vs or e.loc[0] in ("loc", "tmp") and all(v[0] == "phi" for v in vs):
                    continue
                for c, v in zip("xy", vs):
                    x = copy.copy(e)
                    x.loc, x.val = ("fld", b, "TVec::" + c), v
                    s.vw.setdefault(b, []).append(x)
                seen = True
        return seen

    def control(s):
        """For every node the branch edges all paths to it take."""
        sg = s.sg
        s.ctrl = {}
        cuts = []
        base = sg.reach([sg.entry.i])
        for e in sg.events:
            if e.kind != "br":
                continue
            labs = {l for _, l in sg.nodes[e.n].succ}
            if len(labs) < 2:
                continue
            for l in labs:
                seen = sg.reach([sg.entry.i], edges=lambda a, b, m: not (a == e.n and m == l))
                cuts.append(((e.n, l), base - seen if isinstance(base, set) else set(base) - set(seen)))
        for c, ns in cuts:
            for n in ns:
                s.ctrl.setdefault(n, set()).add(c)

    def region(s, n):
        return frozenset(s.ctrl.get(n, ()))

    # ---- normal forms ----------------------------------------------------
    def leaf(s, t):
        if t[0] == "ld" and t[1][0] == "f":
            return s.poly(t[1])                       # the referent of a pure function's result
        if t[0] == "ret":
            e = s.calls.get(t[1])
            if e is not None and e.q == "TEval::eval" and e.obj is not None and e.obj[0] == "fld" and e.obj[2] in EVAL:
                b, i = EVAL[e.obj[2]]
                return Poly.atom(("ld", ("fld", ("fld", e.obj[1], b), "TVec::" + "xy"[i])))
            if e is not None and e.q == "TEval::eval":
                return Poly.atom(("ld", ("fld", e.obj, "TEval::value")))
        if t[0] == "f" and t[1] in ("std::complex::real", "std::complex::imag", "std::real", "std::imag") and len(t) == 3:
            z = t[2][1] if t[2][0] == "ld" else t[2]
            w = s.weight(z)
            if w == "?":
                return None
            if w == 1:
                return Poly.atom(("ld", ("fld", ("cplx", z), "TVec::x" if t[1].endswith("real") else "TVec::y")))
            return Poly.atom(("none", t))
        if t[0] == "ite":
            c, a, b = t[1], s.poly(t[2]), s.poly(t[3])
            while c[0] == "op1" and c[1] == "!":
                c, a, b = c[2], b, a
            return b + (a - b) * Poly.atom(("fn", "if", (s.poly(c).key(),)))
        if t[0] == "op" and t[1] in ("!=", "==") and len(t) == 4:
            d = s.poly(t[2]) - s.poly(t[3])
            return Poly.atom(("fn", "cmp" + t[1], (min(d.key(), (-d).key(), key=repr),)))
        if t[0] == "op" and t[1] in ("&&", "||"):
            return Poly.atom(("fn", "op" + t[1], tuple(sorted((s.poly(x).key() for x in t[2:]), key=repr))))
        if t[0] == "f" and t[1] in ("isinf", "std::isinf", "isfinite", "std::isfinite") and len(t) == 3:
            return Poly.atom(("fn", "isinf", (s.poly(t[2]).key(),)))
        return None

    def poly(s, t):
        p = s._pm.get(t)
        if p is None:
            p = s._pm[t] = poly(t, s.leaf)
        return p

    def chr(s, loc):
        """Character of a vector location or scalar location."""
        if loc[0] == "ret":
            e = s.calls.get(loc[1])
            return s.M.retclass(s.M.P.fns.get(e.key) if e is not None and e.key else None)
        if loc[0] == "tmp" and loc not in s.cls:
            return "vec"
        return s.cls.get(loc, "vec")

    def img(s, a):
        """Image of an atom under x -> y, y -> -x, as a Poly, or None when it does not change."""
        if not isinstance(a, tuple) or not a:
            return None
        k = a[0]
        if k == "sum":
            return Poly(dict(a[1])).subst(s.img)
        if k == "fn" and len(a) < 3:
            return None
        if k == "fn":
            ps = [Poly(dict(x)).subst(s.img) if isinstance(x, tuple) else x for x in a[2]]
            if a[1] in ("op&&", "op||"):
                return Poly.atom(("fn", a[1], tuple(sorted((p.key() for p in ps), key=repr))))
            if a[1] == "abs" or str(a[1]).startswith("cmp"):
                return Poly.atom(("fn", a[1], (min(ps[0].key(), (-ps[0]).key(), key=repr),)))
            return Poly.atom(("fn", a[1], tuple(p.key() if isinstance(p, Poly) else p for p in ps)))
        if k == "none":
            return Poly.atom(("none", ("turned", a[1])))
        if k in ("ld", "phi", "out"):
            l = a[2] if k == "phi" else a[1] if k == "ld" else None
            mk = (lambda x: ("phi", a[1], x)) if k == "phi" else (lambda x: ("ld", x))
            if l is None:
                return None
            if isinstance(l, tuple) and l[0] == "fld" and l[2] in PAIR:
                other, i = PAIR[l[2]]
                b = l[1]
                if any(x[0] == "fld" and x[2] in TENSOR for x in subterms(b)):
                    return Poly.atom(mk(("fld", b, other)))
                c = s.chr(b)
                if c == "inv":
                    return None
                if c == "none":
                    return Poly.atom(("none", b))
                if c == "odd":
                    return -Poly.atom(a)
                p = Poly.atom(mk(("fld", b, other)))
                return p if i == 0 else -p
            c = s.cls.get(l)
            if c == "odd":
                return -Poly.atom(a)
            if isinstance(c, tuple):
                p = Poly.atom(mk(c[1]))
                return p if c[0] == "px" else -p
            if c == "none":
                return Poly.atom(("none", l))
        return None

    def sig(s, p):
        return p.subst(s.img)

    # ---- characters ------------------------------------------------------
    def pairs(s, base):
        """[(x write, y write)] and the writes left over."""
        g = {}
        for e in s.vw[base]:
            g.setdefault((s.region(e.n)), ([], []))[PAIR[e.loc[2]][1]].append(e)
        out, rx, ry = [], [], []
        ten = any(x[0] == "fld" and x[2] in TENSOR for x in subterms(base))
        for xs, ys in g.values():
            out += list(zip(xs, ys))
            rx += xs[len(ys):]
            ry += ys[len(xs):]
        if len(rx) == len(ry) and all(ten or s.same(a, b) for a, b in zip(rx, ry)):
            return out + list(zip(rx, ry)), []
        return out, rx + ry

    def same(s, a, b):
        """Both happen under the same conditions, up to the turn."""
        ca, cb = s.conds(a.n), s.conds(b.n)
        return ca == cb or swap(ca) == cb

    def conds(s, n):
        c = s.__dict__.setdefault("_cc", {})
        if n not in c:
            out = set()
            br = s.__dict__.get("_br")
            if br is None:
                br = s._br = {e.n: e for e in s.sg.events if e.kind == "br"}
            loops_ = s.__dict__.get("_lx")
            if loops_ is None:
                loops_ = s._lx = {}
                for h, body in loops(s.sg).items():
                    for b in body:
                        if b in br and any(t not in body for t, _ in s.sg.nodes[b].succ) and any(x[0] == "phi" and x[1] == h or x[0] == "it" for x in subterms(br[b].val)):
                            loops_[b] = 1
            for x, l in s.ctrl.get(n, ()):
                if x in loops_:
                    continue
                v, flip = br[x].val, False
                while v[0] in ("op", "op1") and (v[0] == "op1" and v[1] == "!" or v[1] == "!="):
                    v = v[2] if v[0] == "op1" else ("op", "==") + v[2:]
                    flip = not flip
                if flip and isinstance(l, tuple) and l[0] == "br" and isinstance(l[1], bool):
                    l = ("br", not l[1])
                out.add((s.canon(v), l))
            c[n] = frozenset(out)
        return c[n]

    def canon(s, t):
        try:
            k = s.poly(t).key()
        except TooBig:
            k = t
        return s.ren(k)

    def ren(s, t):
        """Terms without the numbers of this function's graph."""
        m = s.__dict__.get("_ren")
        if m is None:
            m = s._ren = {}
            for i, q in enumerate(s.f.params):
                for x in (("loc", 0, q.get("d")), ("arg", q.get("name")), ("loc", 0, "l:%s" % q.get("name"))):
                    m[x] = ("par", i)

        def go(x):
            if not isinstance(x, tuple):
                return x
            if x in m:
                return m[x]
            if len(x) == 3 and x[0] == "el" and isinstance(x[2], tuple) and x[2] and x[2][0] == "phi" and x[2][2][0] == "loc":
                return ("el", go(x[1]), "*")
            if len(x) == 3 and x[0] == "phi":
                return ("phi", 0, go(x[2]))
            if len(x) == 2 and x[0] == "ret":
                e = s.calls.get(x[1])
                if e is not None:
                    return ("call", e.q, go(e.obj) if e.obj else None, tuple(go(a) for a in e.args or ()))
            if len(x) == 3 and x[0] == "loc" and isinstance(x[2], str) and x[2].startswith("l:"):
                return ("loc", 0, x[2].split(":")[1])
            return tuple(go(y) for y in x)
        return go(t)

    def vec_ok(s, base, c, why=None):
        ps, rest = s.pairs(base)
        if rest:
            if why is not None:
                why.append((rest[0], "only the %s component is assigned here" % rest[0].loc[2][-1]))
            return False
        ten = any(x[0] == "fld" and x[2] in TENSOR for x in subterms(base))
        old = s.cls.get(base)
        s.cls[base] = c
        try:
            for a, b in ps:
                try:
                    x, y = s.poly(a.val), s.poly(b.val)
                    sx, sy = s.sig(x), s.sig(y)
                except TooBig:
                    continue
                if ten:
                    ok = sx == y and sy == x
                elif c == "vec":
                    ok = sx == y and sy == -x
                elif c == "inv":
                    ok = sx == x and sy == y
                else:
                    ok = sx == -x and sy == -y
                if not ok:
                    if why is not None:
                        why.append((b, "y is %s, but x is %s, which turns into %s" % (short(y), short(x), short(sx))))
                    return False
            return True
        finally:
            if old is None:
                s.cls.pop(base, None)
            else:
                s.cls[base] = old

    def sc_ok(s, loc, c, why=None):
        old = s.cls.get(loc)
        if c == "inv":
            s.cls.pop(loc, None)
        else:
            s.cls[loc] = c
        try:
            for e in s.sw.get(loc, ()):
                try:
                    p = s.poly(e.val)
                    q = s.sig(p)
                except TooBig:
                    continue
                if c == "inv" and q != p:
                    if not s.closed(e, q - p):
                        if why is not None:
                            why.append((e, "%s turns into %s" % (short(p), short(q))))
                        return False
                if c == "odd" and q != -p:
                    return False
            return True
        finally:
            if old is None:
                s.cls.pop(loc, None)
            else:
                s.cls[loc] = old

    def closed(s, e, d):
        """A change of an accumulated quantity that cancels around the contour: it is F(next) - F(this)."""
        sub = {}
        C, N = {}, {}
        for a in d.atoms():
            if a[0] != "ld" and a[0] != "phi":
                return False
            l = a[1] if a[0] == "ld" else a[2]
            if not (l[0] == "fld" and l[2] in PAIR and l[1][0] == "fld" and l[1][2] in ("TObj::r", "TAtt::dl", "TAtt::corner")):
                return False
            el, m, c = l[1][1], l[1][2], l[2][-1]
            nx = False
            if el[0] == "el" and el[2][0] == "op" and el[2][1] == "+":
                nx = True
            sub[a] = (m, c, nx)
        if not sub:
            return not d.m

        def f(a):
            m, c, nx = sub[a]
            this, nxt = Poly.atom(("C", c)), Poly.atom(("N", c))
            if m == "TAtt::corner":
                return nxt if nx else this
            if nx:
                return None
            return nxt - this if m == "TAtt::dl" else (nxt + this) * Poly.const("1/2")
        q = d.subst(f)
        zero = lambda k: (lambda a: Poly({}) if a[0] == k else None)
        ren = lambda a: Poly.atom(("C", a[1])) if a[0] == "N" else None
        F = q.subst(zero("C"))
        s.n["integral"] += 1
        return q == F - F.subst(ren)

    # ---- complex numbers -------------------------------------------------
    def weight(s, t, d=0):
        """The power of the turn a complex value takes on, "any" for zero, or None."""
        if d > 60:
            return None
        if t[0] == "ld":
            t = t[1]
        if t[0] in ("loc", "tmp") and t in s.cdefs():
            ws = {s.weight(x, d + 1) if not isinstance(x, list) else s.cpair(x) for x in s.cdefs()[t]} - {"any"}
            return ws.pop() if len(ws) == 1 else "any" if not ws else None
        if t[0] == "f" and str(t[1]).startswith("std::"):
            o = t[1][5:]
            ws = [s.weight(x, d + 1) for x in t[2:]]
            if None in ws:
                return None
            if "?" in ws:
                return "?"
            if o in ("operator+", "operator-"):
                ws = set(ws) - {"any"}
                return ws.pop() if len(ws) == 1 else "any" if not ws else None
            if "any" in ws:
                return "any"
            if o == "operator*":
                return (ws[0] + ws[1]) % 4
            if o == "operator/":
                return (ws[0] - ws[1]) % 4
            if o == "conj":
                return -ws[0] % 4
            if o in ("log", "exp", "sqrt") and ws == [0]:
                return 0
            if o in ("norm", "abs"):
                return 0
            return None if o in ("log", "exp", "sqrt") else "?"
        try:
            p = s.poly(t)
            if not p.m:
                return "any"
            return 0 if s.sig(p) == p else None
        except TooBig:
            return None

    def cpair(s, a):
        x, y = s.poly(a[0]), s.poly(a[1]) if len(a) > 1 else Poly({})
        if not x.m and not y.m:
            return "any"
        if s.sig(x) == y and s.sig(y) == -x:
            return 1
        if not y.m and s.sig(x) == x:
            return 0
        return None

    def cdefs(s):
        d = s.__dict__.get("_cd")
        if d is None:
            d = s._cd = {}
            last = None
            for e in s.sg.events:
                if e.kind == "call" and e.q == "std::complex::complex":
                    last = e
                    if s.sg.nodes[e.n].nid is not None:
                        d.setdefault(("tmp", e.ctx, s.sg.nodes[e.n].nid), []).append(list(e.args) if len(e.args) == 2 else e.args[0])
                elif e.kind == "write" and last is not None and e.loc and e.loc[0] == "loc":
                    d.setdefault(e.loc, []).append(list(last.args) if len(last.args) == 2 else last.args[0])
                    last = None
                elif e.kind == "call" and e.q == "std::complex::operator=":
                    d.setdefault(e.obj, []).append(e.args[0])
                elif e.kind == "call" and e.q in ("std::complex::operator+=", "std::complex::operator-="):
                    d.setdefault(e.obj, []).append(e.args[0])
                elif e.kind == "call" and e.q in ("std::complex::operator*=", "std::complex::operator/="):
                    d.setdefault(e.obj, []).append(("f", "std::operator" + e.q[-2], ("ld", e.obj), e.args[0]))
                elif e.kind == "call":
                    last = None
        return d

    def params(s):
        """Scalar parameters that are used as the two components of a vector."""
        if s.f.q in ("TVec::TVec", "TVec::set") or s.f.name in ("TVec3D", "TObj", "TAtt", "TVec", "set"):
            for b, es in s.vw.items():
                x = [e.val for e in es if PAIR[e.loc[2]][1] == 0]
                y = [e.val for e in es if PAIR[e.loc[2]][1] == 1]
                if len(x) == len(y) == 1 and x[0][0] == "ld" == y[0][0] and x[0][1][0] in ("loc", "arg") and y[0][1][0] in ("loc", "arg") and x != y:
                    s.cls[x[0][1]], s.cls[y[0][1]] = ("px", y[0][1]), ("py", x[0][1])

    def infer(s):
        sg = s.sg
        s.params()
        loc = lambda l: s.local(l) or s.outparam(l)
        for rnd in range(8):
            ch = False
            for e in s.recs:
                c = s.cls.get(e.val, "vec") if e.val[0] in ("loc", "tmp") else "vec"
                if e.loc not in s.vw and s.cls.get(e.loc, "vec") != c:
                    s.cls[e.loc] = c
                    ch = True
            for b in s.vw:
                if not s.local(b):
                    continue
                c0 = s.cls.get(b, "vec")
                c = next((c for c in ("vec", "inv", "odd") if s.vec_ok(b, c)), "none" if rnd > 2 else "vec")
                if c != c0:
                    s.cls[b] = c
                    ch = True
            bad = []
            for l in s.sw:
                if not loc(l):
                    continue
                c0 = s.cls.get(l, "inv")
                if isinstance(c0, tuple):
                    continue
                c = next((c for c in ("inv", "odd") if s.sc_ok(l, c)), None)
                if c is None:
                    bad.append(l)
                    continue
                if c != c0:
                    if c == "inv":
                        s.cls.pop(l, None)
                    else:
                        s.cls[l] = c
                    ch = True
            for i, a in enumerate(bad):
                for b in bad:
                    if a != b and not isinstance(s.cls.get(a), tuple) and not isinstance(s.cls.get(b), tuple) and s.pair_ok(a, b):
                        s.cls[a], s.cls[b] = ("px", b), ("py", a)
                        ch = True
            for a in bad:
                if not isinstance(s.cls.get(a), tuple) and s.cls.get(a) != "none" and rnd > 2:
                    s.cls[a] = "none"
                    ch = True
            if not ch and rnd > 2:
                break

    def pair_ok(s, a, b):
        ea, eb = s.sw[a], s.sw[b]
        if len(ea) != len(eb):
            return False
        oa, ob = s.cls.get(a), s.cls.get(b)
        s.cls[a], s.cls[b] = ("px", b), ("py", a)
        try:
            for x, y in zip(ea, eb):
                p, q = s.poly(x.val), s.poly(y.val)
                if s.sig(p) != q or s.sig(q) != -p:
                    return False
            return True
        except TooBig:
            return False
        finally:
            for l, o in ((a, oa), (b, ob)):
                if o is None:
                    s.cls.pop(l, None)
                else:
                    s.cls[l] = o

    def returns(s):
        f, sg = s.f, s.sg
        t = base_type(f.ret or "")
        for e in sg.events:
            if e.kind != "ret" or e.ctx != 0 or e.val is None:
                continue
            st = prestate(sg, e.n)
            if t in ("TVec", "TVec3D"):
                b = e.val if t == "TVec" else ("fld", e.val, "TVec3D::r")
                x, y = (st.get(("fld", b, "TVec::" + c)) for c in "xy")
                if x is None or y is None:
                    continue
                try:
                    x, y = s.poly(x), s.poly(y)
                    sx, sy = s.sig(x), s.sig(y)
                except TooBig:
                    continue
                if sx == y and sy == -x:
                    c = {"vec"} | ({"inv"} if not x.m and not y.m else set())
                elif sx == x and sy == y:
                    c = {"inv"}
                else:
                    cx = [k for k in x.atoms() | y.atoms() if "std::complex" in repr(k) or s.foreign(k)]
                    if cx:
                        c = {"vec"}
                        s.M.R.assume("%s: the vector returned is computed by code that is not followed here" % f.q)
                    else:
                        c = set()
                        s.bads.append(("returns", e, "return", "the vector (%s, %s) does not turn with its arguments: x turns into %s" % (short(x), short(y), short(sx))))
                s.n["returns"] += 1
                if c and s.rcls and s.rcls not in c and not (s.rcls == "vec" and c == {"vec"}):
                    s.bads.append(("returns", e, "return-mixed", "returns a vector in one place and a pair of scalars in another"))
                elif c:
                    s.rcls = s.rcls or ("vec" if "vec" in c else "inv")
            elif t in ("double", "float", "bool"):
                try:
                    p = s.poly(e.val)
                    q = s.sig(p)
                except TooBig:
                    continue
                s.n["returns"] += 1
                if p != q and not s.unknown(p) and not angle(s, p):
                    s.bads.append(("scalar", e, "return", "the result %s turns into %s" % (short(p), short(q))))

    def foreign(s, k):
        return any(x[0] == "ret" and s.ext(x) or x[0] == "f" and str(x[1]).startswith("std::complex") for x in subterms(k) if isinstance(x, tuple) and x)

    def ext(s, r):
        e = s.calls.get(r[1])
        return e is None or not (s.M.P.fns.get(e.key) and s.M.P.fns[e.key].nodes)

    def unknown(s, p):
        return any(a[0] == "out" for a in p.atoms() if isinstance(a, tuple) and a)

    # ---- report ----------------------------------------------------------
    def report(s, R):
        f = s.f
        for b in s.vw:
            if any(x[0] == "fld" and x[2] in BASES for x in subterms(b)):
                continue
            s.n["pair"] += len(s.vw[b])
            if s.local(b) and (s.cls.get(b) != "none" or root(b)[0] != "loc"):
                continue
            why = []
            if not s.vec_ok(b, "vec", why):
                e, m = why[0]
                s.bads.append(("pair", e, show(b), m))
        for l, es in s.sw.items():
            s.n["scalar"] += len(es)
            for e in es:
                # a table of components
                if e.val[0] == "f" and e.val[1] == "{}" and len(e.val) in (4, 5):
                    x, y = s.canon(e.val[2]), s.canon(e.val[3])
                    if comp(x) or comp(y):
                        s.n["pair"] += 1
                        if swap(x) != y or x == y:
                            s.bads.append(("pair", e, show(l), "the entry for y is %s, the entry for x is %s" % (show(e.val[3]), show(e.val[2]))))
            if s.local(l) or s.outparam(l):
                continue
            if l[0] == "ret" and s.calls.get(l[1]) is not None and (s.calls[l[1]].q or "").startswith("Matrix::"):
                continue
            if l[0] == "fld" and l[2].split("::")[0] in ("snode", "stree") or any(x[0] == "fld" and x[2] in BASES for x in subterms(l)):
                continue
            why = []
            if not s.sc_ok(l, "inv", why):
                e, m = why[0]
                s.bads.append(("scalar", e, show(l), m))
        for rule, e, k, m in s.bads:
            R.bad(rule, e.where(), "%s:%s:%s" % (f.q, rule, k[:60]), "%s: %s%s" % (f.q, k + ": " if k[:6] != "return" else "", m))
        for k, v in s.n.items():
            for _ in range(v):
                R.ok(k)


def angle(s, p):
    """The polar angle of a vector."""
    if len(p.m) == 1:
        (k, v), = p.m.items()
        if len(k) == 1 and k[0][1] == 1 and k[0][0][0] == "fn" and k[0][0][1] == "atan2":
            y, x = (Poly(dict(z)) for z in k[0][0][2])
            return s.sig(x) == y and s.sig(y) == -x
    return False


def short(p):
    r = repr(p)
    return r if len(r) < 200 else r[:200] + "..."


def tests(a, R):
    """Branches on components come in pairs."""
    f, sg = a.f, a.sg
    if f.q in ONEDIR:
        R.assume("%s looks along one axis by design" % f.q)
        return
    got = {}
    for e in sg.events:
        if e.kind != "br" or e.val is None:
            continue
        if any(x[0] == "fld" and x[2] in BASES for x in subterms(e.val)):
            continue
        c = a.canon(e.val)
        if comp(c):
            try:
                p = a.poly(e.val)
                if a.sig(p) == p:
                    R.ok("tests", "%s: %s" % (f.q, show(e.val)[:100]))
                    continue
            except TooBig:
                pass
            got.setdefault(c, []).append(e)
    more = set()
    for e in sg.events:
        if e.val is not None and e.kind in ("br", "ret", "write"):
            for x in subterms(e.val):
                if x[0] == "op" and len(x) == 4 and x[1] in ("==", "!=", "<", "<=", ">", ">=") and x != e.val:
                    more.add(a.canon(x))
    for c, es in got.items():
        R.check(len(got.get(swap(c), ())) == len(es) or swap(c) in more, "tests", es[0].where(), "%s:%s" % (f.q, show(es[0].val)[:60]),
                "%s tests %s, and the other component is not tested the same way" % (f.q, show(es[0].val)[:200]), "%s: %s" % (f.q, show(es[0].val)[:100]))


def cells(a):
    """{(what, slot, conditions): coefficient} of the matrix assignments of a function."""
    out, where = {}, {}
    for e in a.sg.events:
        if e.kind != "write" or e.loc is None or e.loc[0] != "ret":
            continue
        c = a.calls.get(e.loc[1])
        if c is None or c.q not in ("Matrix::getCell", "Matrix::getRightCol"):
            continue
        slot = a.ren(c.args[1]) if c.q == "Matrix::getCell" and len(c.args) > 1 else None
        own = Poly.atom(("ld", e.loc))
        p = a.poly(e.val)
        if ((("ld", e.loc), 1),) in p.m:
            p = p - own
        for x in list(p.atoms()):
            if x[0] == "phi" and x[2] == e.loc:
                p = p - Poly.atom(x)
        k = (c.q[8:], slot, a.conds(e.n))
        out[k] = out.get(k, Poly({})) + p
        where[k] = e
    return {k: v for k, v in out.items() if v.m or k[1] is None}, where


def turn(slot):
    """(slot of the other component, sign)."""
    if isinstance(slot, tuple) and slot and slot[0] == "fld" and slot[2] in VEC:
        return ("fld", slot[1], "TVec::y" if slot[2] == "TVec::x" else "TVec::x"), 1 if slot[2] == "TVec::x" else -1
    return slot, 1


def rows(P, R, M):
    fs = [f for f in P.fns.values() if f.nodes and M.row(f)]
    by = {f.name: f for f in fs}
    done = set()
    n = 0
    for f in sorted(fs, key=lambda f: f.name):
        if f.name in done:
            continue
        g = by.get(f.name.replace("XEquation", "YEquation")) if "XEquation" in f.name else None
        if "YEquation" in f.name and f.name.replace("YEquation", "XEquation") in by:
            continue
        if g is None and ("XEquation" in f.name or "YEquation" in f.name):
            R.assume("%s: no equation of the other component was found" % f.q)
            continue
        A = M.get(f)
        B = M.get(g) if g else A
        ca, wa = cells(A)
        cb, wb = cells(B)
        n += 1
        want = {}
        for (w, slot, cs), v in ca.items():
            s2, sg = turn(slot)
            p = A.sig(v)
            want[(w, s2, swap(cs))] = (p if sg == 1 else -p, (w, slot, cs))
        W = {k: fix(A, p) for k, (p, _) in want.items()}
        G = {k: fix(B, v) for k, v in cb.items()}
        neg = {k: -p for k, p in W.items()}
        for k in sorted(set(W) | set(G), key=repr):
            x, y = W.get(k), G.get(k)
            if g and neg == G:
                x = neg.get(k)
            what = "right-hand side" if k[1] is None else "coefficient of %s" % show(k[1])
            e = wb.get(k) or wa[want[k][1]]
            R.check(x == y, "rows", e.where(), "%s:%s" % (f.name, what[:70]),
                    "%s: the %s should be %s as in %s, and is %s" % (B.f.q, what, short(x) if x is not None else "absent", A.f.q, short(y) if y is not None else "absent"),
                    "%s: %s" % (B.f.name, what))
    R.need(n, 1, "equations")
    # the rows written where the equations are chosen
    for f in P.by_q.get("MConvectiveFast::fill_matrix", []):
        if not f.nodes:
            continue
        A = M.get(f)
        c, w = cells(A)
        items = {}
        for (k, slot, cs), v in c.items():
            items.setdefault((k, slot, cs, A.ren(v.key())), w[(k, slot, cs)])
        for e in A.sg.events:
            if e.kind == "call" and e.q and e.q.startswith("MConvectiveFast::fill") and "Equation" in e.q and e.inl is None:
                items.setdefault((e.q, None, frozenset(x for x in A.conds(e.n) if not picks(x)), ()), e)
            elif e.kind == "write" and e.loc and not A.local(e.loc) and e.loc[0] not in ("ret",) and comp(A.ren(e.val)):
                items.setdefault(("=", A.ren(e.loc), A.conds(e.n), A.ren(e.val)), e)
        for k in items:
            if not comp(k) and not any(z in str(k[0]) for z in ("XEq", "YEq")):
                continue
            k2 = (k[0].replace("XEq", "@").replace("YEq", "XEq").replace("@", "YEq"), swap(k[1]), swap(k[2]), swap(k[3]))
            R.check(k2 in items, "rows", items[k].where(), "fill_matrix:%s" % (k[0] if k[1] is None else show(k[1]))[:70],
                    "%s: what is done here for one component (%s) is not done for the other under the same conditions" % (f.q, k[0] if k[1] is None else k[0] + " " + show(k[1])),
                    "%s %s" % (k[0], show(k[1]) if k[1] else ""))


def picks(c):
    """A test of which equation a job stands for."""
    def go(x):
        return isinstance(x, (tuple, frozenset)) and (isinstance(x, tuple) and len(x) == 2 and x[0] == "fn" or any(go(y) for y in x))
    return go(c[0])


def fix(a, p):
    return Poly({a.ren(k): v for k, v in p.m.items()})
