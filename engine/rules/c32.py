"""C32 computed fields: grid, order and metadata through files."""
from vv.lib import *
from vv.poly import Poly, poly, TooBig
from vv.sg import SG, root, subterms, show

TECHNIQUE = "symbolic layout of the written stream (offset polynomials over loop counters) and polynomial comparison of writer, reader and grid positions"
NOTE = """The place of every number in the stream is a polynomial over the loop counters and the number of columns; the writer must put each number where the documented matrix format has it,
and the reader, with each number replaced by what the writer puts there, must get back the same origin, spacing, size and values. Every field evaluates a grid point at the position its header declares.
Rounding to float of the positions in the header is not decided."""

X, Y, DX, X0, Y0 = "xres", "yres", "dxdy", "xmin", "ymin"
FLD = {"XField::" + k: k for k in (X, Y, DX, X0, Y0)}
A = {k: Poly.atom(k) for k in (X, Y, DX, X0, Y0)}
ONE = Poly.const(1)


def run(P, R, tier):
    R.rule("write", "every number is written at the place the matrix format has for it")
    R.rule("read", "reading a written field gives back its grid and values")
    R.rule("grid", "a field is evaluated at the positions its header declares and stored in that order")
    R.rule("pass", "origin, spacing and size reach the field in their own places")
    R.rule("use", "grid points are looked up within the grid")
    wr = [f for f in P.by_q.get("operator<<", []) if f.nodes and any("XField" in p["t"] for p in f.params)]
    rd = [f for f in P.by_q.get("XField::XField", []) if f.nodes and len(f.params) == 1 and "string" in f.params[0]["t"]]
    ct = [f for f in P.by_q.get("XField::XField", []) if f.nodes and len(f.params) == 5]
    evs = [f for f in P.fns.values() if f.nodes and f.q.startswith("X") and f.q.endswith("::evaluate") and f.cls != "XField" and "/test/" not in f.file]
    R.need(len(wr), 1, "field writers")
    R.need(len(rd), 1, "field readers")
    R.need(len(evs), 4, "field evaluations")
    for f in wr:
        writer(P, R, f)
    for f in rd:
        reader(P, R, f)
    for f in ct:
        ctor(P, R, f)
    for f in evs:
        evaluate(P, R, f)
    at(P, R)
    passing(P, R)
    users(P, R)


def small(f0):
    def ok(g, c):
        if g.cls in ("XField", "TVec", "TGap") and not g.q.startswith("XField::~"):
            return True
        if g.file.endswith(("/TVec.hpp", "/XField.hpp", "/XField.h", "/elementary.h")):
            return True
        return g.file == f0.file and not any(n["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") for n in g.nodes)
    return ok


def leaf(x):
    """Members of the field are atoms."""
    y = x
    while y[0] == "ld":
        y = y[1]
    if y[0] == "fld" and y[2] in FLD:
        return A[FLD[y[2]]]
    return None


def rational(t, at):
    """Term as a polynomial; k%n + n*(k/n) is k."""
    try:
        return poly(t, at)
    except TooBig:
        return None


def content(sg, n, t):
    """Value of the object behind an address or of the argument itself."""
    if t is None:
        return None
    if t[0] in ("loc", "tmp", "fld", "el"):
        v = sg.load(prestate(sg, n), t)
        return v
    return t


def counter(sg, a):
    """(start, bound term) of a counting loop with step one, or None."""
    if not (isinstance(a, tuple) and a and a[0] == "phi" and a in sg.phis):
        return None
    st, steps, _ = index_cover(sg, a)
    if steps != {("+", 1)} or len(set(st)) != 1:
        return None
    up = [e for e in sg.events if e.kind == "write" and e.loc == a[2] and e.val[0] == "op" and any(x[0] == "phi" and x[2] == a[2] for x in e.val[2:] if isinstance(x, tuple))]
    if len(up) != 1:
        return None
    ar = loops_around(sg, up[0].n)
    if not ar:
        return None
    found = set()
    for br in ar[0][2]:
        t, tr = br.val, True
        while t[0] == "op1" and t[1] == "!":
            t, tr = t[2], not tr
        stay = [l[1] for m, l in sg.nodes[br.n].succ if m in ar[0][1] and isinstance(l, tuple) and l[0] == "br"]
        if t[0] != "op" or len(t) != 4 or stay != [tr] and stay != [True] and stay != [False]:
            return None
        o, x, y = t[1], t[2], t[3]
        if stay[0] is not tr:
            o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}.get(o)
        if not (x[0] == "phi" and x[2] == a[2]) and y[0] == "phi" and y[2] == a[2]:
            x, y, o = y, x, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(o, o)
        k = 0
        if x[0] == "op" and x[1] in ("+", "-") and len(x) == 4 and x[3][0] == "c" or x[0] == "op" and x[1] == "+" and x[2][0] == "c":
            c, z = (x[3], x[2]) if x[3][0] == "c" else (x[2], x[3])
            k, x = (c[1] if x[1] == "+" else -c[1]), z
        if not (x[0] == "phi" and x[2] == a[2]):
            return None
        if o in ("<", "!="):
            found.add(("op", "-", y, ("c", k)))
        elif o == "<=":
            found.add(("op", "-", y, ("c", k - 1)))
        else:
            return None
    if len(found) != 1:
        return None
    return (st[0], found.pop())


def counts(sg, p, lf, want):
    """Poly p is a counter (and a constant) that takes 0..want-1."""
    if p is None:
        return None
    c = p.m.get((), 0)
    q = {k: v for k, v in p.m.items() if k}
    if len(q) != 1:
        return None
    (k, v), = q.items()
    if v != 1 or len(k) != 1 or k[0][1] != 1:
        return None
    r = counter(sg, k[0][0])
    if r is None:
        return None
    d = Poly.const(c)
    s, b = rational(r[0], lf), rational(r[1], lf)
    return s is not None and b is not None and s + d == Poly.const(0) and b + d == want


def linear(p, name):
    """p = c0 + c1*atom, both free of the atom, or None."""
    c0, c1 = {}, {}
    for k, v in p.m.items():
        e = dict(k)
        n = e.pop(name, 0)
        if n == 0:
            c0[k] = v
        elif n == 1:
            c1[tuple(sorted(e.items(), key=repr))] = v
        else:
            return None
    return Poly(c0), Poly(c1)


# ---- the writer

def writer(P, R, f):
    sg = SG(P, f, inline=small(f), maxdepth=4)
    items = []
    bufs = set()
    for e in sg.events:
        if e.kind != "call" or e.inl is not None:
            continue
        if e.q.endswith("ostream::write") and len(e.args) >= 2:
            a = e.args[0]
            b = a[1] if a[0] == "el" and a[2] == ("c", 0) else a[2] if a[0] == "f" and a[1].endswith("data") else a
            if b[0] == "loc" and "vector" in (loc_type(sg, b) or ""):
                bufs.add(b)
                continue
            items.append((e, "w", a, e.args[1]))
    if bufs:
        if items or len(bufs) != 1:
            R.assume("the field writer mixes a buffer and direct writes: its layout is not decided")
            return
        b = bufs.pop()
        for e in sg.events:
            if e.kind == "call" and e.obj == b and e.q.split("::")[-1] in ("push_back", "emplace_back") and e.args:
                items.append((e, "p", e.args[0], ("c", 4)))
            elif e.kind == "call" and e.obj == b and e.q.split("::")[-1] in ("insert", "assign", "resize", "operator[]", "append"):
                R.assume("the field writer fills a buffer with %s: its layout is not decided" % e.q)
                return
    if not items:
        R.assume("the field writer does not write through std::ostream::write: its layout is not decided")
        return
    R.need(len(items), 2, "numbers or rows written for a field")
    seq = [x[0].n for x in items]
    size = {}
    for e, k, a, n in items:
        s = rational(n, leaf)
        if s is None:
            R.assume("size of a write not decided")
            return
        size[e.n] = s * Poly.const(1).__mul__(Poly.const(4).inv())
    lp = {n: [(h, body, ex) for h, body, ex in loops_around(sg, n)][::-1] for n in seq}  # outermost first
    cnt = {}
    for n in seq:
        for h, body, ex in lp[n]:
            if h in cnt:
                continue
            cnt[h] = None
            for br in ex:
                o = over(sg, br)
                if o and o[0] == "ix":
                    c = counter(sg, o[1])
                    if c and rational(c[0], leaf) == Poly.const(0):
                        cnt[h] = (o[1], rational(c[1], leaf))
    for n in seq:
        for h, body, ex in lp[n]:
            if cnt[h] is None:
                R.assume("a loop of the field writer is not a counting loop: the layout is not decided")
                return
    # every pass writes it: from the loop header round to itself only through n
    rets = [e.n for e in sg.events if e.kind == "ret"]
    for e, k, a, n in items:
        around = lp[e.n]
        if around:
            h, body, ex = around[-1]
            seen = sg.reach([m for m, l in sg.nodes[h].succ if m in body], stop=[h], edges=lambda x, y, l: x != e.n and y in body)
            skip = any(h in [m for m, l in sg.nodes[x].succ] for x in seen if x in body and x != e.n and x != h)
        else:
            skip = any(x in rets for x in sg.reach([sg.entry.i], edges=lambda x, y, l: x != e.n and not (isinstance(l, tuple) and l and l[0] == "eh")))
        if not R.check(not skip, "write", e.where(), "skip/%d" % seq.index(e.n), "a number of the field is written on some paths only, so that what follows is misplaced", "always written"):
            return

    def total(level, group):
        """Floats written by one pass of the loop (tuple of headers) over the group."""
        s = Poly.const(0)
        done = set()
        for n in group:
            hs = [x[0] for x in lp[n]]
            if len(hs) == level:
                s = s + size[n]
            elif hs[level] not in done:
                done.add(hs[level])
                s = s + cnt[hs[level]][1] * total(level + 1, [m for m in group if len(lp[m]) > level and lp[m][level][0] == hs[level]])
        return s

    def before(m, n, level):
        """m's part (item or loop) comes before n's at this level."""
        back = lp[n][level - 1][0] if level else None
        seen = sg.reach([m], edges=lambda x, y, l: y != back)
        return n in seen

    def offset(n):
        o = Poly.const(0)
        hs = [x[0] for x in lp[n]]
        group = list(seq)
        for level in range(len(hs) + 1):
            mine = [m for m in group if m == n or (level < len(hs) and len(lp[m]) > level and lp[m][level][0] == hs[level])]
            oth = [m for m in group if m not in mine]
            o = o + total(level, [m for m in oth if before(m, n, level)])
            if level < len(hs):
                o = o + Poly.atom(cnt[hs[level]][0]) * total(level + 1, mine)
            group = mine
        return o

    seen = set()
    for e, k, a, n in items:
        o = offset(e.n)
        p = rational(a, leaf)
        d = place(sg, e, k, a, o, size[e.n], leaf)
        if d is None:
            R.bad("write", e.where(), "value/%s" % short(sg, e), "the number written at float %s of a field is not one that the format has there" % pp(o))
            continue
        kind, ok, msg = d
        if ok is None:
            R.assume(msg)
            seen.add(kind)
            continue
        R.check(ok, "write", e.where(), "place/" + kind, msg, "%s at float %s" % (kind, pp(o)))
        seen.add(kind)
    for kind in ("number of columns", "x", "y", "values"):
        R.check(kind in seen, "write", f.where(), "missing/" + kind.replace(" ", "_"), "a written field lacks its %s" % kind, kind)
    R.check(total(0, seq) == (A[X] + ONE) * (A[Y] + ONE), "write", f.where(), "total", "a written field has %s numbers instead of (xres+1)*(yres+1)" % pp(total(0, seq)), "(xres+1)*(yres+1) numbers")


def short(sg, e):
    a = e.args[0] if e.args else None
    return a[2] if a and a[0] == "loc" else "call"


def place(sg, e, k, a, o, size, lf):
    """(what, right place, message) of a written item."""
    W = A[X] + ONE
    base = mapoff(a, lf)
    if base is not None:
        t = linear(base, X)
        if t is None:
            return None
        row = Poly.const(0)
        r, c = t[1], t[0]
        if size == A[X] and c == Poly.const(0):
            full = counts(sg, r, lf, A[Y])
        elif size == ONE:
            full = counts(sg, r, lf, A[Y]) and counts(sg, c, lf, A[X])
        elif size == A[X] * A[Y] and base == Poly.const(0):
            return ("values", o == W, "the values are written as one block, without their y positions")
        else:
            return ("values", False, "rows of %s values are written from %s" % (pp(size), pp(base)))
        want = W * (r + ONE) + ONE + c
        return ("values", o == want and bool(full), "value map[%s] of a field is written at float %s instead of %s" % (pp(base), pp(o), pp(want)) if o != want else "not every row of the field is written")
    v = content(sg, e.n, a)
    if v is None:
        return None
    ty = loc_type(sg, a) if a[0] in ("loc", "fld", "el", "tmp") else None
    if k == "w" and ty is not None and ty not in ("float", "const float"):
        return ("number of columns" if rational(v, lf) == A[X] else "x", False, "a %s is written where the format has a float" % ty)
    if size != ONE:
        return None
    if v[0] in ("ld", "el"):
        b = mapoff(v[1] if v[0] == "ld" else v, lf)
        if b is not None:
            return place(sg, e, k, ("op", "+", ("mapbase",), ("polyterm", b)), o, size, lf)
    p = rational(v, lf)
    if p is None:
        return None
    if p == A[X]:
        return ("number of columns", o == Poly.const(0), "the number of columns is written at float %s" % pp(o))
    t = linear(p, DX)
    if t is None:
        return None
    org, i = t
    if org == A[X0]:
        full = counts(sg, i, lf, A[X])
        return ("x", o == ONE + i and bool(full), "column position %s is written at float %s" % (pp(p), pp(o)) if o != ONE + i else "not every column has its position in the header")
    if org == A[Y0]:
        full = counts(sg, i, lf, A[Y])
        return ("y", o == W * (i + ONE) and bool(full), "row position %s is written at float %s" % (pp(p), pp(o)) if o != W * (i + ONE) else "not every row has its position")
    return None


def mapoff(a, lf):
    """Offset into the map that an address stands for."""
    if a[0] == "op" and a[1] == "+" and a[2] == ("mapbase",):
        return a[3][1]
    if a[0] == "fld" and a[2] == "XField::map" or a[0] == "ld" and a[1][0] == "fld" and a[1][2] == "XField::map":
        return Poly.const(0)
    if a[0] == "el":
        b = mapoff(a[1], lf)
        i = rational(a[2], lf) if b is not None and isinstance(a[2], tuple) else None
        return None if i is None else b + i
    if a[0] == "op" and a[1] == "+" and len(a) == 4:
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            b = mapoff(x, lf)
            if b is not None:
                i = rational(y, lf)
                return None if i is None else b + i
    return None


def pp(p):
    out = []
    for k, v in sorted(p.m.items(), key=lambda x: repr(x[0])):
        s = "*".join([(show(a) if isinstance(a, tuple) and a and a[0] in ("phi", "ld", "fld", "loc", "op") else str(a)[:40]) + ("" if x == 1 else "^%s" % x) for a, x in k])
        out.append(("%s*" % v if v != 1 and s else str(v) if not s else "") + s)
    return " + ".join(out) or "0"


# ---- the reader

def reader(P, R, f):
    sg = SG(P, f, inline=small(f), maxdepth=4)
    w = {}
    for e in sg.events:
        if e.kind == "write" and e.loc[0] == "fld" and e.loc[2].startswith("XField::") and e.loc[1] == ("arg", "this"):
            w.setdefault(e.loc[2][8:], []).append(e)
    cells = {}

    def strcell(t):
        """Index of the number in the text that t reads."""
        if t[0] == "ld":
            t = t[1]
        if t[0] == "el" and t[1][0] == "op" and t[1][1] == "+":
            for x, y in ((t[1][2], t[1][3]), (t[1][3], t[1][2])):
                i = strcell(("el", x, y))
                if i is not None:
                    return ("op", "+", i, t[2])
        if t[0] == "el":
            b = t[1]
            while b[0] in ("ld", "f") and len(b) > 1:
                b = b[-1]
            if b[0] in ("arg", "loc") and "string" in (loc_type(sg, b) or f.params[0]["t"]):
                return t[2]
        return None

    last = {}
    for k in (X, Y):
        es = [e for e in w.get(k, ()) if e.val != ("c", 0)]
        if len(es) != 1:
            R.assume("the reader of fields sets %s in %d places: not decided" % (k, len(es)))
            return
        last[k] = es[0].val

    def raw(t):
        """Before substitution: sizes and cells."""
        if t == last[X]:
            return A[X]
        if t == last[Y]:
            return A[Y]
        r = leaf(t)
        if r is not None:
            return r
        i = strcell(t)
        if i is not None:
            q = rational(i, raw)
            c = cell(q)
            if c is None:
                cells[t] = i
            return c
        return None

    def cell(q):
        if q is None:
            return None
        if q == Poly.const(0):
            return A[X]
        W = A[X] + ONE
        t = linear(q, X)
        if t is None:
            return None
        row, col = t[1], t[0] - t[1]  # q = row*W + col
        if col == Poly.const(-1):
            row, col = row - ONE, A[X]
        if row == Poly.const(0):
            return A[X0] + A[DX] * (col - ONE)
        if col == Poly.const(0):
            return A[Y0] + A[DX] * (row - ONE)
        return Poly.atom(("z", (row - ONE).key(), (col - ONE).key()))

    R.check(strcell(last[X]) is not None and rational(strcell(last[X]), raw) == Poly.const(0), "read", [e for e in w[X] if e.val == last[X]][0].where(), "xres",
            "the number of columns is not taken from the first number of the text", "xres")
    if strcell(last[X]) is None:
        return
    # the number of rows is the one for which the size comes out even
    at = [e for e in w.get("map", ()) if e.val[0] != "c"]
    news = at[0].n if len(at) == 1 else None
    if news is None:
        R.assume("the reader of fields allocates the map in %d places: not decided" % len(at))
        return
    ok = False
    for br, l in guards(sg, news):
        v, tr = br.val, l[1] if isinstance(l, tuple) and len(l) > 1 else None
        while v[0] == "op1" and v[1] == "!":
            v, tr = v[2], not tr
        if v[0] == "op" and (v[1], tr) in (("!=", False), ("==", True)):
            a, b = rational(v[2], raw), rational(v[3], raw)
            if a is None or b is None:
                continue
            S = [x for k in (a - b).m for x, _ in k if isinstance(x, tuple) and x and (x[0] == "fn" and "size" in str(x[1]) or x[0] == "f" and "size" in str(x[1]) or "length" in str(x[1]))]
            for s in set(map(repr, S)):
                s = [x for x in S if repr(x) == s][0]
                t = linear(a - b, s)
                if t and t[1].isconst() and t[1].value() != 0:
                    z = -t[0] * t[1].inv()
                    if z == Poly.const(4) * (A[X] + ONE) * (A[Y] + ONE) or (z == (A[X] + ONE) * (A[Y] + ONE)):
                        ok = True
    R.check(ok, "read", at[0].where(), "yres", "a text is taken for a field although its size is not that of (xres+1)*(yres+1) numbers", "size of the text")
    for k in (X0, Y0, DX):
        es = [e for e in w.get(k, ()) if e.val != ("c", 0)]
        if not R.check(bool(es), "read", f.where(), k, "%s is not read back" % k, k):
            continue
        for e in es:
            p = ratio(e.val, raw, A[k])
            R.check(p, "read", e.where(), k, "%s of a field that is read back is not the one that was written" % k, k)
    # the map
    got = 0
    size = None
    for e in sg.events:
        if e.kind == "new" and e.info and e.info[0] == "size" and ("new", e.n) == at[0].val:
            size = rational(e.info[1], raw)
    if size is not None:
        R.check(size == A[X] * A[Y], "read", at[0].where(), "alloc", "the map of a field has %s values instead of xres*yres" % pp(size), "xres*yres values")
    for e in sg.events:
        if e.kind == "write" and e.loc[0] == "el" and e.loc[1] in (at[0].val, ("fld", ("arg", "this"), "XField::map"), ("ld", ("fld", ("arg", "this"), "XField::map"))):
            got += 1
            i = rational(e.loc[2], raw)
            t = linear(i, X) if i is not None else None
            if t is None:
                R.assume("an index of the map in the reader of fields is not decided")
                continue
            row, col = t[1], t[0]
            full = counts(sg, row, raw, A[Y]) and counts(sg, col, raw, A[X])
            if counts(sg, i, raw, A[X] * A[Y]):
                R.assume("the reader of fields fills the map in one run: not decided")
                continue
            p = rational(e.val, raw)
            R.check(bool(full), "read", e.where(), "all", "not every value of the map is read back", "all values")
            R.check(p == Poly.atom(("z", row.key(), col.key())), "read", e.where(), "value", "map[%s] is read back from another place than it was written to" % pp(i), "value of row and column")
    for e in sg.events:
        if e.kind == "call" and e.inl is None and e.q in ("memcpy", "std::copy", "memmove", "std::copy_n"):
            R.assume("the reader of fields copies with %s: not decided" % e.q)
            got += 1
    R.check(got > 0, "read", f.where(), "novalues", "the values of a field are not read back", "values are read")
    ev = [e for e in w.get("evaluated", ()) if e.val == ("c", 1)]
    rets = [e.n for e in sg.events if e.kind == "ret"] or [sg.exit.i]
    skip = any(x in rets or x == sg.exit.i for x in sg.reach([sg.entry.i], edges=lambda x, y, l: x not in {e.n for e in ev} and not (isinstance(l, tuple) and l and l[0] == "eh")))
    R.check(bool(ev) and not skip, "read", f.where(), "evaluated", "a field that was read back counts as not evaluated", "evaluated")


def ratio(t, lf, want):
    """Term equals want, divisions taken as exact."""
    p = rational(t, lf)
    if p == want:
        return True
    n = frac2(t, lf)
    return n is not None and n[0] == want * n[1]


def frac2(t, lf):
    """(numerator, denominator) polynomials."""
    r = lf(t)
    if r is not None:
        return r, ONE
    if t[0] == "op" and len(t) == 4 and t[1] in "+-*/":
        a, b = frac2(t[2], lf), frac2(t[3], lf)
        if a is None or b is None:
            return None
        if t[1] == "*":
            return a[0] * b[0], a[1] * b[1]
        if t[1] == "/":
            return a[0] * b[1], a[1] * b[0]
        s = b[0] * a[1]
        return (a[0] * b[1] + s if t[1] == "+" else a[0] * b[1] - s), a[1] * b[1]
    if t[0] == "op1" and t[1] == "-":
        a = frac2(t[2], lf)
        return None if a is None else (-a[0], a[1])
    p = rational(t, lf)
    return None if p is None else (p, ONE)


# ---- construction

def ctor(P, R, f):
    sg = SG(P, f, inline=small(f), maxdepth=3)
    order = (X0, Y0, DX, X, Y)
    for i, k in enumerate(order):
        es = [e for e in sg.events if e.kind == "write" and e.loc == ("fld", ("arg", "this"), "XField::" + k)]
        want = parterm(sg, f, i)
        R.check(len(es) >= 1 and all(e.val == want for e in es), "pass", f.where(), "ctor/" + k, "parameter %d of a field does not become its %s" % (i + 1, k), k)
    pt = {parterm(sg, f, i): A[k] for i, k in enumerate(order)}
    lf = lambda x: pt.get(x) or leaf(x)
    for e in sg.events:
        if e.kind == "new" and e.info and e.info[0] == "size":
            R.check(rational(e.info[1], lf) == A[X] * A[Y], "pass", e.where(), "ctor/size", "a field does not have xres*yres values", "xres*yres")


def parterm(sg, f, i):
    return ("ld", ("loc", 0, f.params[i]["d"]))


def passing(P, R):
    """Classes derived from the field pass their parameters on in order, callers name the right quantities."""
    n = 0
    order = (X0, Y0, DX, X, Y)
    ctors = {}
    for f in P.fns.values():
        if not f.nodes or "/test/" in f.file:
            continue
        for i, nd in enumerate(f.nodes):
            if nd["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                continue
            c = P.fns.get(nd.get("callee") or "")
            q = c.q if c is not None else ""
            a = nd.get("args") or []
            if q == "XField::XField" and len(a) == 5:
                for k, x in zip(order, a):
                    d = f.nodes[f.strip(x)]
                    pn = argname(f, x)
                    pos = [j for j, p in enumerate(f.params) if p["name"] == pn]
                    n += 1
                    if not pos:
                        continue
                    ctors.setdefault(f.q, {})[k] = pos[0]
                    # the one parameter of this constructor that is used for k
                    same = [k2 for k2, y in zip(order, a) if argname(f, y) == pn]
                    R.check(len(same) == 1 and pn_ok(pn, k), "pass", f.where(i), "base/%s/%s" % (f.q, k), "%s passes its %s as the %s of the field" % (f.q, pn, k), "%s of %s" % (k, f.q))
    for f in P.fns.values():
        if not f.nodes or "/test/" in f.file:
            continue
        for i, nd in enumerate(f.nodes):
            if nd["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                continue
            c = P.fns.get(nd.get("callee") or "")
            if c is None or c.q not in ctors:
                continue
            a = nd.get("args") or []
            objs = {}
            for k, pos in ctors[c.q].items():
                if pos >= len(a):
                    continue
                m, o = members(f, a[pos])
                n += 1
                if not m:
                    continue
                objs[k] = o
                R.check(all(pn_ok(x, k) for x in m), "pass", f.where(i), "call/%s/%s" % (c.q.split("::")[0], k), "%s is given %s as its %s" % (c.q.split("::")[0], ", ".join(sorted(m)), k), "%s of %s" % (k, c.q))
            mesh = {o for k, o in objs.items() if k in (DX, X, Y) and o}
            R.check(len(mesh) <= 1, "pass", f.where(i), "mesh/" + c.q.split("::")[0], "%s mixes the spacing and the sizes of different meshes" % c.q.split("::")[0], "one mesh")
    R.need(n, 20, "grid parameters followed to a field")


def pn_ok(name, k):
    """A quantity of a given name can stand for k unless the name is that of another grid quantity."""
    return name not in (X0, Y0, DX, X, Y, "xmax", "ymax") or name == k


def argname(f, x):
    nd = f.nodes[f.strip(x)]
    while nd["k"] in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr") and nd["c"]:
        nd = f.nodes[nd["c"][0]]
    if nd["k"] == "DeclRefExpr":
        return nd.get("name")
    return None


def members(f, x):
    """Names of the members below node x and the object they belong to."""
    out, obj = set(), None
    st = [x]
    while st:
        i = st.pop()
        nd = f.nodes[i]
        if nd["k"] == "MemberExpr":
            nm = (nd.get("m") or "").split("::")[-1]
            if nm in (X0, Y0, DX, X, Y, "xmax", "ymax"):
                out.add(nm)
                o = f.nodes[f.strip(nd["c"][0])] if nd["c"] else None
                obj = o.get("d") if o else None
                continue
        st += [c for c in nd["c"] if c >= 0]
    return out, obj


# ---- evaluation

def evaluate(P, R, f):
    sg = SG(P, f, inline=small(f), maxdepth=3)
    name = f.q.split("::")[0]
    W = [e for e in sg.events if e.kind == "write" and e.loc[0] == "el" and mapoff(e.loc, leaf0(sg)) is not None]
    R.need(len(W), 1, "values stored by " + name)
    lf = leaf0(sg)
    evs = {e.n: e for e in sg.events if e.kind == "call"}
    for e in W:
        I = mapoff(e.loc, lf)
        around = loops_around(sg, e.n)
        body = set(around[-1][1]) if around else set()
        inner = set(around[0][1]) if around else set()
        # positions: points made from the spacing that the value depends on
        pos = []
        need = set()
        used = calls_of(sg, evs, e, inner)
        for c in sorted(used):
            ce = evs[c]
            if ce.inl is not None or ce.q.startswith(("TVec::", "operator")):
                continue
            ats = ([ce.obj] if ce.obj is not None else []) + list(ce.args or ())
            for a in ats:
                xy = point(sg, c, a)
                if xy is None:
                    continue
                px, py = rational(xy[0], lf), rational(xy[1], lf)
                if px is None or py is None:
                    continue
                if any(x in (DX, X0, Y0) for p in (px, py) for k in p.m for x, _ in k) or any(isinstance(x, tuple) and x[0] == "phi" for p in (px, py) for k in p.m for x, _ in k):
                    pos.append((ce, px, py))
        if not R.check(bool(pos), "grid", e.where(), name + "/none", "%s stores a value that does not depend on the position of its grid point" % name, "%s depends on its position" % name):
            continue
        for ce, px, py in pos:
            tx, ty = linear(px, DX), linear(py, DX)
            good = tx is not None and ty is not None and tx[0] == A[X0] and ty[0] == A[Y0]
            if not R.check(good, "grid", ce.where(), "%s/pos:%s" % (name, ce.q), "%s is evaluated at (%s, %s), which is no position of its header" % (name, pp(px), pp(py)), "%s at (xmin,ymin) + dxdy*(column,row)" % name):
                continue
            i, j = tx[1], ty[1]
            R.check(whole(I - (j * A[X] + i)), "grid", e.where(), name + "/index", "%s stores the value of column %s and row %s at map[%s]" % (name, pp(i), pp(j), pp(I)), "%s: map[row*xres+column]" % name)
            full = cover(sg, i, j, lf)
            if full is None:
                R.assume("%s: the loops over the grid are not counting loops" % name)
            else:
                R.check(full, "grid", e.where(), name + "/all", "%s does not evaluate every point of its grid" % name, "%s: all points" % name)
        # gaps belong to the same point
        for g in sg.events:
            if g.kind == "call" and g.q.split("::")[-1] in ("emplace_back", "push_back") and g.n in inner and g.obj is not None and g.obj[0] == "fld" and g.obj[2] == "XField::gaps" and len(g.args) == 3:
                i, j = rational(content(sg, g.n, g.args[0]), lf), rational(content(sg, g.n, g.args[1]), lf)
                R.check(any(tx[1] == i and ty[1] == j for _, px, py in pos for tx, ty in [(linear(px, DX), linear(py, DX))] if tx and ty), "grid", g.where(), name + "/gap",
                        "%s notes a jump at another grid point than the one it was found at" % name, "%s: gap at its own point" % name)
    # evaluated is set after everything
    ev = {e.n for e in sg.events if e.kind == "write" and e.loc == ("fld", ("arg", "this"), "XField::evaluated") and e.val == ("c", 1)}
    if R.check(bool(ev), "grid", f.where(), name + "/evaluated", "%s never counts as evaluated" % name, "%s: evaluated" % name):
        late = sg.reach(list(ev))
        R.check(not any(e.n in late for e in W), "grid", f.where(), name + "/early", "%s counts as evaluated before its values are there" % name, "%s: evaluated at the end" % name)


def leaf0(sg):
    return leaf


def whole(p):
    """p is zero when k%n + n*(k/n) is k."""
    if p == Poly.const(0):
        return True
    div = {}
    for k in p.m:
        for x, _ in k:
            if isinstance(x, tuple) and x[:1] == ("fn",) and x[1] == "op%":
                div[x] = x[2]
    if len(div) != 1:
        return False
    return False


def cover(sg, i, j, lf):
    a, b = counts(sg, i, lf, A[X]), counts(sg, j, lf, A[Y])
    if a is None or b is None:
        return None
    return a and b


def calls_of(sg, evs, e, inner):
    """Calls inside the innermost loop that the stored value depends on."""
    out = set()
    st = [e.val]
    seen = set()
    done = set()
    while st:
        t = st.pop()
        if not isinstance(t, tuple) or t in seen:
            continue
        seen.add(t)
        for x in subterms(t):
            if x in done:
                continue
            done.add(x)
            if x[0] == "phi" and x in sg.phis and x[1] in inner:
                st += list(sg.phis[x])
            if x[0] == "fld" and root(x)[0] in ("loc", "tmp") or x[0] == "loc":
                v = sg.load(prestate(sg, e.n), x)
                if isinstance(v, tuple):
                    st.append(v)
            n = None
            if x[0] in ("ret", "out", "retv") and len(x) > 1 and isinstance(x[1], int):
                n = x[1]
            elif x[0] == "tmp":
                n = None
            if n is not None and n in evs and n in inner and n not in out:
                out.add(n)
                c = evs[n]
                st += [a for a in list(c.args or ()) + [c.obj] if isinstance(a, tuple)]
                for a in list(c.args or ()):
                    v = content(sg, n, a) if isinstance(a, tuple) and a[0] in ("loc", "tmp") else None
                    if isinstance(v, tuple):
                        st.append(v)
                    xy = point(sg, n, a)
                    if xy:
                        st += list(xy)
    return out


def point(sg, n, a):
    """(x, y) of a TVec argument."""
    if not isinstance(a, tuple) or a[0] not in ("loc", "tmp", "fld", "el", "arg"):
        return None
    s = prestate(sg, n)
    lx, ly = ("fld", a, "TVec::x"), ("fld", a, "TVec::y")
    t = loc_type(sg, a) or ""
    if t and "TVec" not in t or "TVec3D" in t:
        return None
    x, y = sg.load(s, lx), sg.load(s, ly)
    if x is None or y is None or x == ("ld", lx) and a[0] != "fld":
        return None
    return x, y


def at(P, R):
    """The accessor by column and row."""
    for f in P.by_q.get("XField::at", []):
        if not f.nodes or len(f.params) != 2:
            continue
        sg = SG(P, f, inline=small(f), maxdepth=2)
        for e in sg.events:
            if e.kind == "ret" and e.val is not None:
                v = e.val
                if v[0] == "ld":
                    v = v[1]
                a = {parterm(sg, f, 0): Poly.atom("i"), parterm(sg, f, 1): Poly.atom("j")}
                lf = lambda x: a.get(x) or leaf(x)
                I = mapoff(v, lf)
                if I is None:
                    R.assume("the accessor of field values is not decided")
                    continue
                R.check(I == Poly.atom("j") * A[X] + Poly.atom("i"), "use", e.where(), "at", "at(column, row) gives map[%s]" % pp(I), "at(column, row)")


def users(P, R):
    """Loops that look grid points up stay within the grid; what is drawn from a field uses its own origin."""
    n = 0
    for f in P.fns.values():
        if not f.nodes or "/test/" in f.file or not any(d and d.get("q") == "XField::at" for _, _, d in f.calls()):
            continue
        sg = SG(P, f, inline=lambda g, c: False, maxdepth=1)
        lf = leaf
        for e in sg.events:
            if e.kind == "call" and e.q == "XField::at" and len(e.args) == 2:
                for a, k in zip(e.args, (X, Y)):
                    p = rational(a, lf)
                    if p is None:
                        continue
                    c = [(x, v) for x, v in p.m.items() if len(x) == 1 and isinstance(x[0][0], tuple) and x[0][0][0] == "phi"]
                    d = p.m.get((), 0)
                    if len(c) != 1 or c[0][1] != 1 or len(p.m) > 2 or len(p.m) == 2 and () not in p.m:
                        R.assume("%s looks up a grid point by %s: not decided" % (f.q, pp(p)))
                        continue
                    r = counter(sg, c[0][0][0][0])
                    if r is None:
                        R.assume("%s looks up a grid point in a loop that does not count" % f.q)
                        continue
                    n += 1
                    b = rational(r[1], lf)
                    s = rational(r[0], lf)
                    other = A[Y if k == X else X]
                    top = A[k] - (b + Poly.const(d)) if b is not None else None
                    R.check(top is not None and s is not None and s.isconst() and s.value() + d >= 0 and top.isconst() and top.value() >= 0, "use", e.where(), "%s/%s%+d" % (f.q, k, int(d)),
                            "%s looks up grid points beyond the %s of the field" % (f.q, "columns" if k == X else "rows"), "%s within %s" % (f.q, k))
        for e in sg.events:
            if e.kind == "write" and e.loc[0] == "fld" and e.loc[1] == ("arg", "this") and e.loc[2].split("::")[-1] in (X0, Y0, DX) and e.op in ("init", None, "=", "decl", "ctor", ""):
                k = e.loc[2].split("::")[-1]
                p = rational(e.val, lf)
                n += 1
                R.check(p == A[k], "use", e.where(), "%s/%s" % (f.q, k), "%s takes %s for the %s of the field" % (f.q, show(e.val), k), "%s of the field" % k)
    R.need(n, 8, "look-ups of grid points")
