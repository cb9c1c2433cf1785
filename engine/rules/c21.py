"""C21 simulation time: exact rational arithmetic."""
from vv.lib import *
from vv.prog import REPO
from vv.poly import Poly, poly, TooBig
from vv.sg import SG, norm, decide, subterms, show, root

TECHNIQUE = "normal forms of the arithmetic of rational times with the types it is done in, an inductive divisibility argument for the common denominator, and a flow analysis of who sets times and how events are tested"
NOTE = """Decides that sums and divisibility tests of times are exact as fractions (in integers, with the sign kept and no zero divisor), that every time which comes from a file or a script has a denominator,
that the run's time is only advanced by adding the step, and that saving and streak shedding are tested on the exact fractions. Overflow of the 32-bit parts is out of scope (N02)."""

THIS = ("arg", "this")
V, T = "TTime::value", "TTime::timescale"
TIMES = ("Space::time", "Space::dt", "Space::dt_save", "Space::dt_streak", "Space::dt_profile")
PERIODS = TIMES[2:]
WIDE = ("long", "int64_t", "long long", "__int128", "double", "long double", "std::int64_t", "ptrdiff_t")
INTS = ("uint32_t", "unsigned", "uint64_t", "std::uint32_t", "std::uint64_t", "int64_t", "std::int64_t", "long", "int", "size_t")
REL = ("<", "<=", ">", ">=", "==", "!=")


def run(P, R, tier):
    R.rule("sum", "the sum of two times is their exact sum as fractions")
    R.rule("width", "no step of the arithmetic drops the sign or the upper half of a product")
    R.rule("nonzero", "nothing is divided by zero, and no time without a denominator gets into a space")
    R.rule("common", "the common denominator is a multiple of both denominators")
    R.rule("divisible", "a period divides a time exactly when the fractions say so")
    R.rule("value", "the number and the text of a time are those of its fraction")
    R.rule("advance", "the time of a run changes by exactly one addition of the step per pass")
    R.rule("events", "each periodic event is tested on the exact fractions of the time and of its own period")
    fs = [f for f in P.fns.values() if f.cls == "TTime" and f.nodes]
    R.need(len(fs), 6, "functions of rational times")
    lc = common(P, R, fs)
    arithmetic(P, R, fs, lc)
    width(P, R, fs, lc)
    sources(P, R)
    advance(P, R)
    events(P, R)


# ---------------------------------------------------------------- the common denominator
def common(P, R, fs):
    """Keys of the functions that give a common multiple of two denominators."""
    out = set()
    for f in fs:
        if len(f.params) == 2 and all(p["t"].replace("const ", "").split()[0] in INTS for p in f.params) and f.q != "TTime::TTime" and not f.q.split("::")[-1].startswith("makeWith"):
            out.add(f.key)
            multiple(P, R, f)
    return out


def multiple(P, R, f):
    sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO) and g.key != f.key, maxdepth=3)
    writes = {}
    for e in sg.events:
        if e.kind == "write" and e.loc is not None:
            writes.setdefault(e.loc, []).append(e)
    # which locations hold the remaining factors of the two arguments
    hold = {}
    cand = sorted(({x[2] for x in sg.phis} | set(writes)), key=repr)
    cand = [l for l in cand if l[0] == "loc"]
    cand.sort(key=lambda l: not any(w.val is not None and w.val[0] == "op" and w.val[1] == "/" for w in writes.get(l, ())))
    for l in cand:
        st = [v for x in sg.phis if x[2] == l for v in sg.phis[x]] + [w.val for w in writes.get(l, ()) if w.val is not None]
        for i, p in enumerate(f.params):
            if str(l[2]).startswith("l:%s:" % p["name"]) or any(is_arg(t, f, i) for t in st):
                hold.setdefault(i, l)
    rets = [e for e in sg.events if e.kind == "ret" and e.ctx == 0 and e.val is not None]
    n = 0
    for e in rets:
        t = e.val
        n += 1
        v = verdict(P, R, sg, f, e, t, hold)
        if v is None:
            R.assume("%s: that %s is a common multiple is not decided" % (f.q, show(t)))
        else:
            R.check(v[0], "common", e.where(), "%s:%s" % (f.q, v[1]), "%s may give %s, which need not be a multiple of both denominators: %s" % (f.q, show(t), v[1]), sample=v[1])
    R.need(n, 1, "results of the common denominator")


def is_arg(t, f, i):
    if t[0] == "ld":
        t = t[1]
    return t[0] == "arg" and (t[1] == i or t[1] == f.params[i]["d"] or t[1] == f.params[i]["name"]) or t[0] == "loc" and str(t[2]).startswith("l:%s:" % f.params[i]["name"])


def facts(sg, n):
    """Comparisons that hold whenever n is reached: [(term, truth)]."""
    out = []
    for e, lab in guards(sg, n):
        if lab in (True, False) or isinstance(lab, tuple):
            out.append((e.val, bool(truth(lab))))
    return out


def truth(lab):
    return lab[-1] if isinstance(lab, tuple) else lab


def holds(fa, t, c):
    """The facts say that term t is c."""
    for v, tr in fa:
        neg = False
        while v[0] == "op1" and v[1] == "!":
            v, neg = v[2], not neg
        tr2 = tr != neg
        if v[0] == "op" and v[1] in ("==", "!=") and len(v) == 4 and (v[2], v[3]) in ((t, ("c", c)), (("c", c), t)):
            if tr2 == (v[1] == "=="):
                return True
        if v == t and c == 0 and not tr2:
            return True
    return False


def verdict(P, R, sg, f, e, t, hold):
    fa = facts(sg, e.n)
    # x if x == y
    for i in (0, 1):
        if is_arg(t, f, i):
            for v, tr in fa:
                if v[0] == "op" and v[1] in ("==", "!=") and tr == (v[1] == "==") and {i2 for x in (v[2], v[3]) for i2 in (0, 1) if is_arg(x, f, i2)} == {0, 1}:
                    return True, "the first of two equal denominators"
            for v, tr in fa:
                if v[0] == "op" and v[1] == "%":
                    return None
                w = v[2] if v[0] == "op1" and v[1] == "!" else v
                if w[0] == "op" and w[1] == "%" and is_arg(w[2], f, i) and is_arg(w[3], f, 1 - i) and tr == (v is not w):
                    return True, "one denominator, which the other divides"
            return False, "one of the denominators alone"
    if t[0] == "c":
        for v, tr in fa:
            w, neg = v, False
            while w[0] == "op1" and w[1] == "!":
                w, neg = w[2], not neg
            if any(is_arg(w, f, i) for i in (0, 1)) and tr == neg:
                return True, "any number, for a denominator that is zero"
        # one of several zero tests
        z = [x for x in sg.events if x.kind == "br" and any(is_arg(strip_not(x.val), f, i) for i in (0, 1))]
        if z and e.n not in sg.reach([sg.entry.i], edges=lambda a, b, m: not any(x.n == a and bool(truth(m)) == bool_zero(x.val) for x in z)):
            return True, "any number, for a denominator that is zero"
        return False, "a constant"
    # product over greatest common divisor
    try:
        p = poly(t, lambda x: Poly.atom(("x%d" % next(i for i in (0, 1) if is_arg(x, f, i)),)) if any(is_arg(x, f, i) for i in (0, 1)) else None)
    except TooBig:
        return None
    at = p.atoms()
    if ("x0",) in at and ("x1",) in at and len(p.m) == 1:
        (k, c), = p.m.items()
        d = dict(k)
        rest = {a: x for a, x in d.items() if a not in (("x0",), ("x1",))}
        if d.get(("x0",)) == 1 and d.get(("x1",)) == 1 and c == 1:
            if not rest:
                return True, "the product of both"
            if len(rest) == 1 and list(rest.values()) == [-1]:
                g = list(rest)[0]
                g = g[0] if g and isinstance(g[0], tuple) else g
                w = is_gcd(P, sg, g)
                if w is None:
                    return None
                return w, "the product over %s" % ("the greatest common divisor" if w else "something that is no common divisor")
        return False, "another product of the two"
    # a running product
    if t[0] == "phi":
        return running(R, sg, f, e, t, hold, fa)
    if t[0] in ("f", "ret"):
        q = t[1] if t[0] == "f" else next((x.q for x in sg.events if x.kind == "call" and x.n == t[1]), "")
        if q in ("std::lcm",):
            return True, "std::lcm"
        return None
    return None


def strip_not(t):
    while t[0] == "op1" and t[1] == "!":
        t = t[2]
    return t


def bool_zero(t):
    """Truth of t when the plain term in it is zero."""
    z = False
    while t[0] == "op1" and t[1] == "!":
        z, t = not z, t[2]
    return z


def is_gcd(P, sg, g):
    if g[0] == "f" and g[1] in ("std::gcd", "std::__gcd"):
        return True
    if g[0] == "ret":
        c = next((x for x in sg.events if x.kind == "call" and x.n == g[1]), None)
        if c is not None and c.q in ("std::gcd", "std::__gcd", "std::__detail::__gcd"):
            return True
        return None
    if g[0] == "phi":
        # (a, b) becomes (b, a % b) until b is zero
        for x in sg.phis:
            if x[1] == g[1] and x != g and x[2][0] == "loc":
                if ("op", "%", g, x) in sg.phis[x] and x in sg.phis[g]:
                    return True
        return None
    return None


def running(R, sg, f, e, t, hold, fa):
    """result *= k together with x /= k or y /= k where k divides: x0 | result*x stays true."""
    res = t[2]
    if len(hold) < 2:
        return None
    wr = [w for w in sg.events if w.kind == "write" and w.loc == res]
    mul = []
    for w in wr:
        v = w.val
        if v[0] == "c" and v[1] == 1:
            continue
        if v[0] == "op" and v[1] == "*" and len(v) == 4 and any(x[0] == "phi" and x[2] == res for x in v[2:]):
            k = next(x for x in v[2:] if not (x[0] == "phi" and x[2] == res))
            mul.append((w, k))
        else:
            return False, "the running product is set to %s" % show(v)
    if not mul:
        return None
    for i, l in hold.items():
        for w in [w for w in sg.events if w.kind == "write" and w.loc == l]:
            v = w.val
            if is_arg(v, f, i):
                continue
            if not (v[0] == "op" and v[1] == "/" and len(v) == 4 and v[2][0] == "phi" and v[2][2] == l):
                return False, "a denominator becomes %s" % show(v)
            k = v[3]
            m = [x for x, kk in mul if kk == k]
            if not m:
                return False, "a denominator is divided by %s, which is not multiplied to the result" % show(k)
            # k divides it
            rem = ("op", "%", v[2], k)
            ok = False
            for b, tr in facts(sg, w.n):
                n2, z = b, bool_zero(b)
                n2 = strip_not(b)
                if n2[0] == "op" and n2[1] in ("==", "!=") and ("c", 0) in n2[2:]:
                    o = [x for x in n2[2:] if x != ("c", 0)]
                    if o and samerem(sg, o[0], rem) and tr == ((n2[1] == "==") == (n2 is b or not z)):
                        ok = True
                if samerem(sg, n2, rem) and tr == z:
                    ok = True
            if not ok:
                return False, "a denominator is divided by a number that need not divide it"
            # in the same turn of the loop
            hdr = v[2][1]
            if w.n in sg.reach([hdr], stop=[x.n for x in m]):
                return False, "a denominator is divided in a turn in which the result is not multiplied"
            again = sg.reach([s for s, _ in sg.nodes[w.n].succ], stop=[x.n for x in m])
            if any(w2.n in again for w2 in sg.events if w2.kind == "write" and w2.loc == l):
                return False, "a denominator is divided twice for one factor of the result"
    # the end: nothing is left of both
    left = []
    for i, l in hold.items():
        one = any(holds(fa, x, 1) for x in sg.phis if x[2] == l)
        if not one:
            left.append(i)
    if left:
        over = [v for v, tr in fa if any(x[0] == "phi" and x[2] == res for x in subterms(v)) and not any(x[0] == "phi" and x[2] in hold.values() for x in subterms(v))]
        if over:
            R.assume("%s: a result that does not fit is given as it is (N02)" % f.q)
            return True, "the part that fits, when the common denominator does not (N02)"
        return False, "it is given while a factor of a denominator is still left"
    return True, "the product of all factors taken from both"


def samerem(sg, t, rem):
    if t == rem:
        return True
    if t[0] == "op" and t[1] == "%" and len(t) == 4:
        return t[2][0] == "phi" and rem[2][0] == "phi" and t[2][2] == rem[2][2] and (t[3] == rem[3] or t[3][0] == "phi" and rem[3][0] == "phi" and t[3][2] == rem[3][2])
    return False


# ---------------------------------------------------------------- arithmetic
def frac(o):
    """value/timescale of the object at location o as a polynomial."""
    return Poly.atom(("v", o)) * Poly.atom(("t", o)).inv()


def leafs(t):
    if t[0] == "ld" and t[1][0] == "fld" and t[1][2] in (V, T):
        return Poly.atom(("v" if t[1][2] == V else "t", t[1][1]))
    if t[0] == "fv" and t[-1] in (V, T):
        return Poly.atom(("v" if t[-1] == V else "t", t[1]))
    return None


def equal_leafs(fa):
    """Parts of times that are equal under the facts."""
    out = {}
    for v, tr in fa:
        if v[0] == "op" and v[1] in ("==", "!=") and len(v) == 4 and tr == (v[1] == "==") and leafs(v[2]) is not None and leafs(v[3]) is not None:
            a, b = sorted((v[2], v[3]), key=repr)
            out[b] = out.get(a, a)
        n = strip_not(v)
        if leafs(n) is not None and tr == bool_zero(v):
            out[n] = ("c", 0)
    return out


def subst(t, m):
    return m.get(t, t)


def build(P, f, lc):
    return SG(P, f, inline=lambda g, c: g.file.startswith(REPO) and g.key not in lc and (g.cls == "TTime" or c == f), maxdepth=4)


def arithmetic(P, R, fs, lc):
    n = 0
    for f in fs:
        if f.key in lc or f.q == "TTime::TTime":
            continue
        sg = build(P, f, lc)
        calls = {e.n: e for e in sg.events if e.kind == "call" and e.key in lc}

        def div_exact(t):
            """Integer divisions in t that need not come out even."""
            bad = []
            for x in subterms(t):
                if x[0] == "op" and x[1] == "/" and len(x) == 4:
                    d = x[3]
                    lcs = [y for y in subterms(x[2]) if y[0] == "ret" and y[1] in calls]
                    ok = any(d in calls[y[1]].args for y in lcs) and linear_in(x[2], lcs)
                    if not ok:
                        bad.append(x)
            return bad
        for e in sg.events:
            if e.kind != "ret" or e.ctx != 0 or e.val is None:
                continue
            name = f.q.split("::")[-1]
            if name == "add" or name in ("operator+", "operator+="):
                n += 1
                st = sg.outs[e.n]
                v, t = sg.load(st, ("fld", e.val, V)), sg.load(st, ("fld", e.val, T))
                same = equal_leafs(facts(sg, e.n))
                lf = lambda x: leafs(subst(x, same))
                try:
                    p = poly(v, lf) * poly(t, lf).inv()
                except TooBig:
                    R.assume("%s: too big" % f.q)
                    continue
                p0 = poly(v, leafs) * poly(t, leafs).inv()
                os = sorted({a[1] for a in p0.atoms() if isinstance(a, tuple) and a and a[0] in ("v", "t")}, key=repr)
                w = Poly({})
                for o in os:
                    w = w + Poly.atom(("v", o)) * lf(("ld", ("fld", o, T))).inv()
                R.check(len(os) == 2 and p == w, "sum", e.where(), "add", "the sum of two times is %s/%s, which is not the sum of the two fractions" % (show(v), show(t)), sample="%s/%s" % (show(v), show(t)))
                bad = div_exact(v) + div_exact(t)
                for x in bad:
                    R.bad("sum", e.where(), "add:" + show(x), "the integer division %s in the sum of two times need not come out even" % show(x))
            elif name == "divisibleBy" or name.startswith(("divisible", "isMultiple")):
                n += 1
                divisible(R, sg, f, e, div_exact)
            elif name == "operator double":
                n += 1
                try:
                    p = poly(e.val, leafs)
                except TooBig:
                    continue
                R.check(p == frac(THIS), "value", e.where(), "double", "the number of a time is %s" % show(e.val), sample=show(e.val))
        if f.q.split("::")[-1].startswith("makeWith"):
            for e in sg.events:
                if e.kind == "ret" and e.ctx == 0 and e.val is not None:
                    st = sg.outs[e.n]
                    v, t = sg.load(st, ("fld", e.val, V)), sg.load(st, ("fld", e.val, T))
                    try:
                        p = poly(v, leafs) * poly(t, leafs).inv()
                    except TooBig:
                        continue
                    sec = [a for a in p.atoms()]
                    n += 1
                    R.check(len(p.m) == 1 and len(sec) == 1 and p == Poly.atom(sec[0]) and sec[0] != 1, "value", e.where(), f.q, "the fraction made from a number of seconds is %s/%s" % (show(v), show(t)), sample="%s/%s" % (show(v), show(t)))
        texts(R, sg, f)
        zero(P, R, sg, f, calls)
    for f in P.fns.values():
        if f.cls != "TTime" and f.nodes and f.file.startswith(REPO) and any(x["k"] == "MemberExpr" and x.get("mc") == "TTime" and x.get("m") in ("value", "timescale") for x in f.nodes):
            texts(R, SG(P, f, inline=lambda g, c: False, maxdepth=1), f)
    R.need(n, 4, "operations on rational times")


def linear_in(t, lcs):
    """t is a product with one of lcs as a factor."""
    if t in lcs:
        return True
    if t[0] == "op" and t[1] == "*":
        return any(linear_in(x, lcs) for x in t[2:])
    return False


def divisible(R, sg, f, e, div_exact):
    t = e.val
    if t[0] == "c":
        for v, tr in facts(sg, e.n):
            w = [x for x in subterms(v) if x[0] == "op" and x[1] == "%"]
            if w and (strip_not(v) == w[0] or strip_not(v)[0] == "op" and strip_not(v)[1] in ("==", "!=") and w[0] in strip_not(v)[2:]):
                t = v if bool(t[1]) == tr else ("op1", "!", v)
                break
    if t[0] == "c":
        # a constant answer: only for a zero divisor
        if t[1] in (0, False):
            z = [x for x in sg.events if x.kind == "br" and (leaf_zero(x.val))]
            R.check(bool(z) and e.n not in sg.reach([sg.entry.i], edges=lambda a, b, m: not any(x.n == a and zero_edge(x.val, m) for x in z)), "divisible", e.where(), "false",
                    "a period is said not to divide a time without a look at the fractions", sample="no period of zero divides")
        else:
            R.bad("divisible", e.where(), "true", "a period is said to divide a time without a look at the fractions")
        return
    neg = True
    while t[0] == "op1" and t[1] == "!":
        neg, t = not neg, t[2]
    if t[0] == "op" and t[1] in ("==", "!=") and ("c", 0) in t[2:]:
        o = [x for x in t[2:] if x != ("c", 0)]
        neg = neg != (t[1] == "==")
        t = o[0] if o else t
    if not (t[0] == "op" and t[1] == "%" and len(t) == 4):
        if any(x[0] == "f" and x[1] in ("fmod", "std::fmod", "remainder", "std::remainder", "floor", "round", "std::floor", "std::round") for x in subterms(t)):
            R.bad("divisible", e.where(), "float", "whether a period divides a time is tested on rounded numbers: %s" % show(e.val))
        else:
            R.assume("%s: the test %s is not recognised" % (f.q, show(e.val)))
        return
    R.check(not neg, "divisible", e.where(), "sense", "the test whether a period divides a time is the wrong way round: %s" % show(e.val))
    try:
        p = poly(t[2], leafs) * poly(t[3], leafs).inv()
    except TooBig:
        return
    os = [a[1] for a in p.atoms() if isinstance(a, tuple) and a[0] == "v"]
    div = [o for o in os if o != THIS]
    ok = len(set(os)) == 2 and p == frac(THIS) * frac(div[0]).inv()
    R.check(ok, "divisible", e.where(), "ratio", "the numbers that are divided, %s and %s, are not in the ratio of the time and the period" % (show(t[2]), show(t[3])), sample="%s %% %s" % (show(t[2]), show(t[3])))
    for x in div_exact(t[2]) + div_exact(t[3]):
        R.bad("divisible", e.where(), "even:" + show(x), "the integer division %s in the divisibility test need not come out even" % show(x))


def leaf_zero(t):
    return leafs(strip_not(t)) is not None or strip_not(t)[0] == "op" and strip_not(t)[1] in ("==", "!=", "<", "<=") and any(leafs(x) is not None for x in strip_not(t)[2:])


def zero_edge(t, m):
    """Edge of a branch on t that is taken for a zero part."""
    d = decide(t, lambda x: 0 if leafs(x) is not None else None)
    return d is not None and bool(d) == bool(truth(m))


def texts(R, sg, f):
    """value goes with %d and timescale with %u, value first."""
    for e in sg.events:
        if e.kind != "call" or e.inl is not None or e.q.split("::")[-1] not in ("printf", "fprintf", "sprintf", "snprintf", "sscanf", "fscanf", "strfmt"):
            continue
        a = list(e.args or ())
        fm = next((i for i, x in enumerate(a) if x[0] == "s" or x[0] == "c" and isinstance(x[1], str)), None)
        if fm is None:
            continue
        part = lambda x: next((y[2] for y in ([x[1]] if x[0] == "ld" else [x]) if y[0] == "fld" and y[2] in (V, T)), None)
        ps = [(i, part(x)) for i, x in enumerate(a) if i > fm and part(x)]
        if not ps:
            continue
        import re
        conv = [m for m in re.findall(r"%[-+ #0]*[0-9*]*(?:\.[0-9*]+)?([hlqjzt]*[a-zA-Z%])", str(a[fm][1])) if m != "%"]
        for i, p in ps:
            c = conv[i - fm - 1] if i - fm - 1 < len(conv) else ""
            R.check(c == ("d" if p == V else "u") or c == ("i" if p == V else "u"), "value", e.where(), "%s:%s" % (f.q, p), "the %s of a time is formatted with %%%s: %s is lost" % (p.split("::")[1], c, "its sign" if p == V else "its upper half"), sample="%s %%%s" % (p, c))
        if len(ps) == 2:
            R.check([p for _, p in ps] == [V, T], "value", e.where(), "%s:order" % f.q, "the text of a time gives the denominator first")


def zero(P, R, sg, f, calls):
    for e in nonleaf_divs(sg):
        ev, t = e
        d = t[3]
        try:
            p = poly(d, leafs)
        except TooBig:
            continue
        if len(p.m) != 1:
            continue
        (k, c), = p.m.items()
        vs = [a for a, x in k if isinstance(a, tuple) and a[0] == "v" and x > 0]
        for a in vs:
            # needs a test of the numerator
            term = [x for x in subterms(d) if leafs(x) == Poly.atom(a)]
            z = [x for x in sg.events if x.kind == "br" and any(y in term for y in subterms(x.val))]
            tt = term[0]
            reach = sg.reach([sg.entry.i], edges=lambda s, b, m: not any(x.n == s and differs(x.val, tt, m) for x in z))
            R.check(ev.n not in reach, "nonzero", ev.where(), "%s:%s" % (f.q, show(d)), "%s divides by %s, which is zero for a period of zero" % (f.q, show(d)), sample="%s: a zero divisor is excluded" % f.q)


def differs(t, z, m):
    """The edge cannot be taken when z is zero."""
    d = decide(t, lambda x: 0 if x == z else None)
    return d is not None and bool(d) != bool(truth(m))


def nonleaf_divs(sg):
    seen = set()
    for e in sg.events:
        if e.kind in ("ret", "write", "br") and e.val is not None:
            for x in subterms(e.val):
                if x[0] == "op" and x[1] in ("/", "%") and len(x) == 4 and (e.n, x) not in seen:
                    seen.add((e.n, x))
                    yield e, x


def unsigned(t):
    return "unsigned" in t or "uint" in t


def width(P, R, fs, lc):
    n = 0
    for f in fs:
        if f.key in lc:
            continue
        par = {}
        for i, nd in enumerate(f.nodes):
            for c in nd.get("c", ()):
                par[c] = i

        def holds_value(i):
            st, seen = [i], set()
            while st:
                j = st.pop()
                if j in seen:
                    continue
                seen.add(j)
                nd = f.nodes[j]
                if nd["k"] == "MemberExpr" and nd.get("m") == "value" and nd.get("mc") == "TTime":
                    return True
                if nd["k"] == "DeclRefExpr":
                    continue
                st.extend(nd.get("c", ()))
            return False

        def exact_use(i):
            """The result of node i goes into a division, remainder or comparison."""
            j = par.get(i)
            while j is not None:
                nd = f.nodes[j]
                if nd["k"] == "BinaryOperator" and nd.get("op") in ("/", "%") + REL:
                    return True
                if nd["k"] not in ("BinaryOperator", "ImplicitCastExpr", "ParenExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "UnaryOperator"):
                    return nd["k"] == "DeclStmt"
                j = par.get(j)
            return False
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "BinaryOperator" and nd.get("op") in ("*", "/", "%") and holds_value(i):
                if nd["op"] == "*" and not exact_use(i):
                    continue
                n += 1
                R.check(nd.get("t") in WIDE, "width", f.where(i), "%s:%s" % (f.q, nd["op"]), "%s computes %s of a time's numerator in %s: %s" % (
                    f.q, {"*": "a product", "/": "a quotient", "%": "a remainder"}[nd["op"]], nd.get("t"), "a negative time becomes a large positive number" if "unsigned" in nd.get("t", "") or "uint" in nd.get("t", "") else "it does not fit"),
                    sample="%s: %s in %s" % (f.q, nd["op"], nd.get("t")))
                if f.q == "TTime::operator double":
                    R.check(nd.get("t") in ("double", "long double"), "width", f.where(i), "double", "the number of a time is computed in integers")
            if nd["k"].endswith(("CastExpr",)) and nd.get("c") and unsigned(nd.get("t", "")) and not unsigned(f.nodes[nd["c"][0]].get("t", "")) and holds_value(nd["c"][0]):
                j = par.get(i)
                while j is not None and (f.nodes[j]["k"].endswith("CastExpr") or f.nodes[j]["k"] == "ParenExpr") and f.nodes[j].get("t") not in ("double", "float", "long double"):
                    j = par.get(j)
                if j is not None and f.nodes[j].get("t") in ("double", "float", "long double"):
                    R.bad("width", f.where(i), "%s:unsigned" % f.q, "%s takes a time's numerator as an unsigned number" % f.q)
            if nd["k"] == "BinaryOperator" and nd.get("op") in REL and holds_value(i):
                for c in nd["c"]:
                    k = f.nodes[c]
                    if holds_value(c) and ("unsigned" in k.get("t", "") or "uint" in k.get("t", "")):
                        R.bad("width", f.where(i), "%s:%s" % (f.q, nd["op"]), "%s compares a time's numerator as an unsigned number" % f.q)
    R.need(n, 1, "divisions of numerators")


# ---------------------------------------------------------------- where times come from
def aliases(sg):
    """Results of reading the same script value twice are the same."""
    first, out = {}, {}
    for e in sg.events:
        if e.kind == "call" and e.q in ("lua_tointegerx", "lua_tonumberx"):
            k = (e.q, tuple((e.args or ())[:2]))
            out[("ret", e.n)] = first.setdefault(k, ("ret", e.n))
    return out


def sub(t, al):
    if t in al:
        return al[t]
    if not isinstance(t, tuple):
        return t
    return tuple(sub(x, al) if isinstance(x, tuple) else x for x in t)


def positive(sg, t, seen=()):
    """An inductive argument that the integer term t is at least one."""
    if t[0] == "c":
        return isinstance(t[1], (int, float)) and t[1] >= 1
    if t in seen:
        return True
    if t[0] == "phi":
        return t in sg.phis and bool(sg.phis[t]) and all(positive(sg, v, seen + (t,)) or shrinks(sg, v, seen + (t,)) for v in sg.phis[t])
    if t[0] == "op" and t[1] in ("*", "+") and len(t) == 4:
        return positive(sg, t[2], seen) and positive(sg, t[3], seen)
    return leafs(t) is not None and t[0] == "ld" and root(t)[0] == "arg"


def shrinks(sg, v, seen):
    """x / c under a test x > c-1."""
    if v[0] == "op" and v[1] == "/" and len(v) == 4 and v[3][0] == "c" and positive(sg, v[2], seen):
        for e in sg.events:
            if e.kind == "write" and e.val == v:
                for b, tr in facts(sg, e.n):
                    if b[0] == "op" and b[1] in ("<", "<=") and tr and b[3] == v[2] and b[2][0] == "c" and b[2][1] >= 1:
                        return True         # at least 2 before, and a power of ten
    return False


def sets_times(f):
    return any(x["k"] == "CXXOperatorCallExpr" and x.get("op") == "=" and (x.get("callee") or "").startswith("_ZN5TTimeaS") or
               x["k"] == "MemberExpr" and (x.get("mc") == "TTime" and x.get("m") == "timescale" or x.get("mc") == "Space" and "Space::" + x.get("m", "") in TIMES) for x in f.nodes)


def touching(P):
    """Keys of the functions that have to do with times, themselves or through what they call."""
    own = {f.key for f in P.fns.values() if f.nodes and (f.cls == "TTime" or any("TTime" in (x.get("t") or "") or x.get("mc") == "TTime" for x in f.nodes))}
    callers = {}
    for f in P.fns.values():
        for nd in f.nodes or ():
            if nd.get("callee"):
                callers.setdefault(nd["callee"], set()).add(f.key)
    todo = list(own)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in own:
                own.add(c)
                todo.append(c)
    return own


def sources(P, R):
    n = 0
    touch = touching(P)
    todo = [f for f in P.fns.values() if f.nodes and f.file.startswith(REPO) and "/test/" not in f.file and f.cls != "TTime" and f.q not in ("Space::operator=", "Space::Space") and sets_times(f)]
    big = {f.key for f in todo if len(f.nodes) >= 200}
    for f in todo:
        sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO) and g.key in touch and g.key not in big and g.q != "TTime::add" and len(g.nodes) < 450, maxdepth=6)
        al = aliases(sg)
        for e in sg.events:
            if e.kind == "call" and e.inl is None and e.q in ("fread", "H5Aread", "sscanf", "memcpy", "std::istream::read", "read"):
                for a in e.args or ():
                    if a[0] == "fld" and a[2] in TIMES:
                        n += 1
                        raw = ("fld", a, T)
                        tests = [x for x in sg.events if x.kind == "br" and x.n in sg.reach([e.n]) and any(y[0] in ("ld", "fv", "out") and (y[0] == "ld" and y[1] == raw or y[0] == "fv" and y[-1] == T and e.n == (y[1][1] if y[1][0] == "out" else None)) for y in subterms(x.val))]
                        R.check(bool(tests), "nonzero", e.where(), "%s:%s" % (f.q, a[2]), "%s reads %s from a file and does not test its denominator" % (f.q, a[2].split("::")[1]))
            if e.kind != "write" or e.loc is None:
                continue
            if e.loc[0] == "fld" and e.loc[2] == T:
                if not (e.loc[1][0] == "fld" and e.loc[1][2] in TIMES or e.loc[1][0] in ("ret", "arg") and e.loc[1] != THIS):
                    continue
                t = e.val
            elif e.loc[0] == "fld" and e.loc[2] in TIMES or f.file.endswith("getset.cpp") and e.loc[0] in ("ret", "arg") and e.ctx == 0:
                t = sg.load(sg.outs[e.n], ("fld", e.loc, T))
                if f.file.endswith("getset.cpp") and not hastime(sg, e):
                    continue
            else:
                continue
            if t[0] == "fv" and t[1][0] == "ret" or t[0] == "ld" and t[1][0] == "fld" and t[1][1][0] == "ret":
                c = next((x for x in sg.events if x.kind == "call" and ("ret", x.n) == (t[1] if t[0] == "fv" else t[1][1])), None)
                if c is not None and c.q == "TTime::add":
                    R.ok("nonzero", "%s: a sum of times" % f.q)
                    n += 1
                    continue
            n += 1
            truncated(R, sg, f, e, t, al)
            t = sub(t, al)
            if positive(sg, t):
                R.ok("nonzero", "%s: %s" % (f.q, show(t)))
                continue
            if t[0] == "c":
                R.bad("nonzero", e.where(), "%s" % f.q, "%s sets a time with the denominator %s" % (f.q, show(t)))
                continue
            zero_at = {t}
            while True:
                grown = False
                cut = lambda s, b, m: not (s in brs and any(impossible(x.val, zero_at, m, al) for x in brs[s]))
                brs = {}
                for x in sg.events:
                    if x.kind == "br":
                        brs.setdefault(x.n, []).append(x)
                reach = sg.reach([sg.entry.i], edges=cut)
                if e.n not in reach:
                    break
                for x in sg.events:
                    if x.kind != "br":
                        continue
                    v, neg = x.val, False
                    while v[0] == "op1" and v[1] == "!":
                        v, neg = v[2], not neg
                    if v[0] == "op" and v[1] in ("==", "!=") and len(v) == 4:
                        A, B = sub(v[2], al), sub(v[3], al)
                        o = B if A in zero_at else A if B in zero_at else None
                        if o is None or o in zero_at or o[0] == "c":
                            continue
                        eq = (v[1] == "==") != neg
                        if e.n not in sg.reach([sg.entry.i], edges=lambda s, b, m: cut(s, b, m) and not (s == x.n and bool(truth(m)) == eq)):
                            zero_at.add(o)
                            grown = True
                if not grown:
                    break
            R.check(e.n not in reach, "nonzero", e.where(), "%s:%s" % (f.q, e.loc[2] if e.loc[0] == "fld" else "set"), "%s takes a time over without a test that its denominator (%s) is not zero: the next addition divides by it" % (f.q, show(t)), sample="%s: zero is excluded for %s" % (f.q, show(t)))
    R.need(n, 8, "places where a time is set")


def truncated(R, sg, f, e, t, al):
    """Parts read from a script as 64-bit integers are only taken over when they fit."""
    loc = e.loc[1] if e.loc[0] == "fld" and e.loc[2] == T else e.loc
    parts = [("denominator", t, 1 << 32, 0)]
    v = sg.load(sg.outs[e.n], ("fld", loc, V))
    parts.append(("numerator", v, 1 << 31, -(1 << 31)))
    for what, x, wide, kept in parts:
        if x not in al or sg_call(sg, x) != "lua_tointegerx":
            continue
        others = {y for y in al if al[y] == al[x] and y != x}
        if not others and any(b.val[0] in ("c",) or any(z[0] == "op" and z[1] in ("==", "!=") and len(z) == 4 and z[2] == z[3] for z in subterms(b.val)) for b in sg.events if b.kind == "br"):
            continue
        env = (lambda y: wide if y in others else kept if y == x else None) if others else (lambda y: wide if y == x else None)
        brs = {}
        for b in sg.events:
            if b.kind == "br":
                d = decide(b.val, env)
                if d is not None:
                    brs[b.n] = bool(d)
        reach = sg.reach([sg.entry.i], edges=lambda s, b, m: not (s in brs and isinstance(m, tuple) and bool(truth(m)) != brs[s]))
        R.check(e.n not in reach, "width", e.where(), "%s:%s" % (f.q, what), "%s takes over the %s of a time without a test that it fits: %d becomes %d" % (f.q, what, wide, kept), sample="%s: the %s fits" % (f.q, what))


def sg_call(sg, x):
    return next((c.q for c in sg.events if c.kind == "call" and x[0] == "ret" and c.n == x[1]), "")


def hastime(sg, e):
    nd = e.fn.nodes[e.nid] if e.nid is not None else {}
    return "TTime" in nd.get("t", "") or "TTime" in (nd.get("callee") or "")


def impossible(t, zs, m, al):
    d = decide(sub(t, al), lambda x: 0 if x in zs else None)
    return d is not None and bool(d) != bool(truth(m))


# ---------------------------------------------------------------- the run
def advance(P, R):
    n = adv = 0
    for f in P.fns.values():
        if not f.nodes or not f.file.startswith(REPO) or "/test/" in f.file or f.cls == "TTime":
            continue
        if f.q in ("Space::Space", "Space::operator=") or f.q.startswith("Space::load"):
            continue
        if not any(x["k"] == "MemberExpr" and x.get("mc") == "Space" and "Space::" + x.get("m", "") in TIMES for x in f.nodes):
            continue
        n += 1
        sg = SG(P, f, inline=lambda g, c: len(g.nodes) < 40 and g.file.startswith(REPO) and g.cls != "TTime", maxdepth=3)
        calls = {e.n: e for e in sg.events if e.kind == "call"}
        mine = []
        for e in sg.events:
            if e.kind != "write" or e.loc is None:
                continue
            l = e.loc
            if l[0] == "fld" and l[2] in (V, T):
                l = l[1]
            if not (l[0] == "fld" and l[2] in TIMES):
                continue
            nm = l[2].split("::")[1]
            if l != e.loc:
                v = e.val
                R.bad("advance", e.where(), "%s:%s" % (f.q, nm), "%s changes a part of %s by itself" % (f.q, nm))
                continue
            c = calls.get(e.val[1]) if e.val is not None and e.val[0] == "ret" else None
            if nm != "time":
                R.bad("advance", e.where(), "%s:%s" % (f.q, nm), "%s changes %s during a run" % (f.q, nm))
                continue
            adv += 1
            mine.append(e)
            sp_ = l[1]
            want = {("fld", sp_, "Space::time"), ("fld", sp_, "Space::dt")}
            got = set()
            if c is not None and c.q == "TTime::add":
                for a in c.args or ():
                    got.add(origin(sg, c, a))
            R.check(c is not None and c.q == "TTime::add" and got == want, "advance", e.where(), f.q, "%s sets the time to %s instead of the sum of the time and the step" % (f.q, show(e.val) if c is None else "%s(%s)" % (c.q, ", ".join(show(a) for a in c.args or ()))),
                    sample="%s: time = add(time, dt)" % f.q)
        for e in mine:
            nodes = {x.n for x in mine}
            if e.n in sg.reach([s for s, _ in sg.nodes[e.n].succ]):
                loop(R, sg, f, e, mine)
    R.need(n, 5, "functions that use times")
    R.need(adv, 1, "advances of the time")


def origin(sg, c, a):
    """The object a by-value argument was copied from."""
    if a[0] == "fld":
        return a
    st = sg.outs[c.n]
    t = sg.load(st, ("fld", a, T))
    v = sg.load(st, ("fld", a, V))
    if t[0] == "ld" and v[0] == "ld" and t[1][1] == v[1][1]:
        return t[1][1]
    return a


def loop(R, sg, f, e, mine):
    """One advance on every way round the main loop, none twice."""
    body = {x for x in sg.reach([s for s, _ in sg.nodes[e.n].succ]) if e.n in sg.reach([x])}
    again = sg.reach([s for s, _ in sg.nodes[e.n].succ])
    # the loop's head: the test that leaves it
    heads = [x for x in sg.events if x.kind == "br" and x.n in body and any(s not in body for s, _ in sg.nodes[x.n].succ) and any(y[0] in ("ret", "ld") and timeish(sg, y) for y in subterms(x.val))]
    if not heads:
        R.assume("%s: the loop that the time is advanced in is not recognised" % f.q)
        return
    h = heads[0]
    inner = [s for s, _ in sg.nodes[h.n].succ if s in body]
    nm = {x.n for x in mine}
    around = sg.reach(inner, stop=nm, edges=lambda a, b, m: b in body)
    R.check(h.n not in around, "advance", e.where(), f.q + ":skipped", "there is a way round the loop of %s on which the time does not advance" % f.q, sample="%s: once on every way round the loop" % f.q)
    twice = sg.reach([s for s, _ in sg.nodes[e.n].succ], stop={h.n}, edges=lambda a, b, m: b in body)
    R.check(not (twice & nm), "advance", e.where(), f.q + ":twice", "there is a way round the loop of %s on which the time advances twice" % f.q)
    # the loop goes on exactly while time < finish + dt/2
    try:
        val = lambda tm: decide(h.val, lambda y: timeval(sg, y, tm))
        stay = {bool(truth(l)) for s, l in sg.nodes[h.n].succ if s in body}
    except Exception:
        stay = set()
    if len(stay) == 1:
        at = {k: val(k) for k in (2.0, 3.0, 4.0)}
        if all(v is not None for v in at.values()):
            st = stay.pop()
            R.check(bool(at[2.0]) == st and bool(at[3.0]) == st, "advance", h.where(), f.q + ":last", "the run ends before the step whose time is the finish", sample="runs while %s" % show(h.val))
            R.check(bool(at[4.0]) != st, "advance", h.where(), f.q + ":beyond", "the run goes on after the finish")
        else:
            R.assume("%s: when the run ends is not recognised" % f.q)


def timeish(sg, y):
    return timeval(sg, y, 1.0) is not None


def timeval(sg, y, tm):
    """Values for the run's test: time tm, step 1, finish 3."""
    if y[0] == "ret":
        c = next((x for x in sg.events if x.kind == "call" and x.n == y[1]), None)
        if c is not None and c.q == "TTime::operator double" and c.obj is not None and c.obj[0] == "fld":
            return {"Space::time": tm, "Space::dt": 1.0}.get(c.obj[2])
    if y[0] == "ld" and y[1][0] == "fld" and y[1][2] == "Space::finish":
        return 3.0
    return None


# ---------------------------------------------------------------- events
def events(P, R):
    n = 0
    for f in P.fns.values():
        if not f.nodes or not f.file.startswith(REPO) or "/test/" in f.file:
            continue
        uses = any(x["k"] == "MemberExpr" and x.get("mc") == "Space" and x.get("m") == "StreakList" for x in f.nodes)
        isrun = "MFlowmove::vortex_shed" in {calleeq(P, nd) for _, nd, d in f.calls()}
        if not isrun and not (uses and f.cls == "MFlowmove") and not any(calleeq(P, nd) == "TTime::divisibleBy" for _, nd, d in f.calls()):
            numeric(P, R, f)
            continue
        sg = SG(P, f, inline=lambda g, c: len(g.nodes) < 40 and g.file.startswith(REPO) and g.cls != "TTime", maxdepth=3)
        calls = {e.n: e for e in sg.events if e.kind == "call"}
        tests = {}
        for e in sg.events:
            if e.kind == "call" and e.q == "TTime::divisibleBy":
                a = origin(sg, e, e.args[0]) if e.args else None
                tests[("ret", e.n)] = (e.obj, a)
                ok = e.obj is not None and e.obj[0] == "fld" and e.obj[2] == "Space::time" and a is not None and a[0] == "fld" and a[2] in PERIODS
                R.check(ok, "events", e.where(), "%s:test" % f.q, "%s tests whether %s is divisible by %s, not the time by a period" % (f.q, show(e.obj), show(a) if a else "?"), sample="time divisible by %s" % (a[2] if a and a[0] == "fld" else "?"))
        ev = []
        for e in sg.events:
            if e.kind == "call" and e.inl is None and e.q == "Space::save" and isrun:
                ev.append((e, "Space::dt_save", "saving"))
            if e.kind == "call" and e.inl is None and e.obj is not None and e.q.split("::")[-1] in ("push_back", "emplace_back", "insert") and e.obj[0] == "fld" and e.obj[2] == "Space::StreakList" and f.cls == "MFlowmove":
                ev.append((e, "Space::dt_streak", "shedding streak domains"))
        for e, per, what in ev:
            n += 1
            pos = False
            for b, lab in guards(sg, e.n):
                t, neg = b.val, False
                while t[0] == "op1" and t[1] == "!":
                    t, neg = t[2], not neg
                if t in tests:
                    o, a = tests[t]
                    good = a is not None and a[0] == "fld" and a[2] == per
                    R.check(good, "events", b.where(), what + ":period", "%s is tested against %s instead of %s" % (what, show(a), per.split("::")[1]), sample="%s every %s" % (what, per.split("::")[1]))
                    R.check(bool(truth(lab)) != neg, "events", b.where(), what + ":sense", "%s happens when the period does not divide the time" % what)
                    pos = True
                    continue
                # another condition on the time: it must hold from zero on
                if any(timeish(sg, y) for y in subterms(b.val)):
                    ds = [decide(b.val, lambda y: timeval(sg, y, tm)) for tm in (0.0, 1.0, 2.0)]
                    if None in ds:
                        R.assume("%s: the condition %s of %s is not recognised" % (f.q, show(b.val), what))
                    else:
                        R.check(all(bool(d) == bool(truth(lab)) for d in ds), "events", b.where(), what + ":missed", "%s is left out at some times: only if %s is %s" % (what, show(b.val), bool(truth(lab))), sample="also %s" % show(b.val))
                    if any(x[0] == "f" and x[1].split("::")[-1] in ("fmod", "remainder", "floor", "round", "lround", "rint", "trunc") for x in subterms(b.val)):
                        R.bad("events", b.where(), what + ":rounded", "%s is decided on rounded numbers: %s" % (what, show(b.val)))
                        pos = True
            R.check(pos, "events", e.where(), what + ":untested", "%s is not tested on the exact fractions of the time and of %s" % (what, per.split("::")[1]))
        numeric(P, R, f, sg)
    R.need(n, 2, "periodic events")


def calleeq(P, nd):
    g = P.fns.get(nd.get("callee"))
    return g.q if g is not None else ""


ROUND = ("fmod", "remainder", "floor", "round", "lround", "llround", "rint", "lrint", "nearbyint", "trunc", "modf", "ceil")


def numeric(P, R, f, sg=None):
    """Decisions on a rounded quotient of times."""
    if not any(x["k"] == "MemberExpr" and x.get("mc") == "Space" and "Space::" + x.get("m", "") in TIMES for x in f.nodes):
        return
    if not any(x["k"] in ("CallExpr",) for x in f.nodes) and not any(x["k"] == "BinaryOperator" and x.get("op") == "%" for x in f.nodes):
        return
    if sg is None:
        sg = SG(P, f, inline=lambda g, c: len(g.nodes) < 40 and g.file.startswith(REPO) and g.cls != "TTime", maxdepth=3)
    tm = {("ret", e.n) for e in sg.events if e.kind == "call" and e.q == "TTime::operator double" and e.obj is not None and e.obj[0] == "fld" and e.obj[2] in ("Space::time",)}
    if not tm:
        return
    R.count("functions that use the time as a number", 1)
    for e in sg.events:
        if e.kind != "br":
            continue
        for x in subterms(e.val):
            if (x[0] == "f" and x[1].split("::")[-1] in ROUND or x[0] == "op" and x[1] == "%") and any(y in tm for y in subterms(x)):
                R.bad("events", e.where(), "%s:rounded" % f.q, "%s decides on a rounded number of the time: %s" % (f.q, show(e.val)))
                break
