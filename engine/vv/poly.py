"""Normal forms of arithmetic terms: polynomials with rational coefficients over opaque
atoms.  Sums, products, quotients and square roots are reduced to one form whatever order,
grouping or helper they were written with."""
from fractions import Fraction

LIMIT = 20000


class TooBig(Exception):
    pass


class Poly:
    """Canonical sum of monomials: {((atom, exponent), ...): coefficient}."""
    __slots__ = ("m", "_k")

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v != 0}
        self._k = None

    @staticmethod
    def const(v):
        return Poly({(): Fraction(v)})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.m.items(), key=lambda x: repr(x[0])))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.m) * len(o.m) > LIMIT:
            raise TooBig()
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                d = dict(k1)
                for a, e in k2:
                    d[a] = d.get(a, 0) + e
                k = mono(d)
                if isinstance(k, Poly):     # square of a root
                    for kk, vv in k.m.items():
                        r[kk] = r.get(kk, 0) + vv * v1 * v2
                else:
                    r[k] = r.get(k, 0) + v1 * v2
        return Poly(r)

    def inv(self):
        if len(self.m) == 1:
            (k, v), = self.m.items()
            return Poly({tuple((a, -e) for a, e in k): 1 / v})
        if not self.m:
            return Poly.atom(("inv0",))
        # make the leading coefficient 1
        k, v = self.key()[0]
        n = Poly({a: b / v for a, b in self.m.items()})
        return Poly({((("sum", n.key()), -1),): 1 / v})

    def isconst(self):
        return not self.m or set(self.m) == {()}

    def value(self):
        return self.m.get((), Fraction(0))

    def atoms(self):
        out = set()
        for k in self.m:
            for a, e in k:
                out.add(a)
        return out

    def degree(self, pred):
        """Degrees in the atoms that satisfy pred, as a set."""
        return {sum(e for a, e in k if pred(a)) for k in self.m}

    def subst(self, f):
        """Replaces atoms: f(atom) -> Poly or None."""
        r = Poly({})
        for k, v in self.m.items():
            p = Poly.const(v)
            for a, e in k:
                q = f(a)
                if q is None:
                    q = Poly.atom(a)
                if e < 0:
                    q = q.inv()
                for _ in range(abs(e)):
                    p = p * q
            r = r + p
        return r

    def split(self, pred):
        """{monomial part in atoms of pred: Poly coefficient}."""
        out = {}
        for k, v in self.m.items():
            a = tuple(x for x in k if pred(x[0]))
            b = tuple(x for x in k if not pred(x[0]))
            out.setdefault(a, {})[b] = v
        return {a: Poly(b) for a, b in out.items()}

    def __repr__(self):
        from .sg import show

        def at(a):
            if isinstance(a, tuple) and a and a[0] == "sum":
                return "(" + repr(Poly(dict(a[1]))) + ")"
            if isinstance(a, tuple) and a and a[0] == "fn":
                return "%s(%s)" % (a[1], ", ".join(repr(Poly(dict(x))) for x in a[2]))
            try:
                return show(a)
            except Exception:
                return str(a)
        o = []
        for k, v in self.key():
            s = "*".join(at(a) + ("^%d" % e if e != 1 else "") for a, e in k)
            o.append(s if v == 1 and s else ("-" + s) if v == -1 and s else (str(float(v)) if v.denominator > 10 ** 6 else str(v)) + ("*" + s if s else ""))
        return " + ".join(o) if o else "0"


def mono(d):
    """Sorted monomial; even powers of square roots are expanded."""
    ex = None
    for a in list(d):
        e = d[a]
        if isinstance(a, tuple) and a and a[0] == "fn" and a[1] == "sqrt" and abs(e) >= 2:
            q = Poly(dict(a[2][0]))
            h = abs(e) // 2
            for _ in range(h):
                p = q if e > 0 else q.inv()
                ex = p if ex is None else ex * p
            d[a] = (abs(e) % 2) * (1 if e > 0 else -1)
        elif isinstance(a, tuple) and a and a[0] == "sum" and e > 0:
            q = Poly(dict(a[1]))
            for _ in range(e):
                ex = q if ex is None else ex * q
            d[a] = 0
    k = tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))
    if ex is None:
        return k
    return Poly({k: Fraction(1)}) * ex


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(repr(v)) if v == v and v not in (float("inf"), float("-inf")) else None


ODD = {"sin", "tan", "atan", "sinh", "asin", "erf"}


def poly(t, atom=lambda t: None, d=0):
    """Normal form of term t.  atom(term) may give a Poly for a leaf."""
    if d > 400:
        raise TooBig()
    r = atom(t)
    if r is not None:
        return r
    k = t[0]
    if k == "c":
        v = frac(t[1]) if isinstance(t[1], (int, float)) else None
        return Poly.const(v) if v is not None else Poly.atom(t)
    if k == "op1" and t[1] == "-":
        return -poly(t[2], atom, d + 1)
    if k == "op1" and t[1] == "+":
        return poly(t[2], atom, d + 1)
    if k == "op" and len(t) == 4 and t[1] in "+-*/":
        a, b = poly(t[2], atom, d + 1), poly(t[3], atom, d + 1)
        if t[1] == "+":
            return a + b
        if t[1] == "-":
            return a - b
        if t[1] == "*":
            return a * b
        return a * b.inv()
    if k == "f" and isinstance(t[1], str):
        n = t[1][5:] if t[1].startswith("std::") else t[1]
        a = [poly(x, atom, d + 1) for x in t[2:]]
        if n == "sqrt" and len(a) == 1:
            return Poly.atom(("fn", "sqrt", (a[0].key(),)))
        if n == "pow" and len(a) == 2 and a[1].isconst() and a[1].value().denominator == 1 and abs(a[1].value()) <= 4:
            p = Poly.const(1)
            for _ in range(abs(int(a[1].value()))):
                p = p * a[0]
            return p if a[1].value() >= 0 else p.inv()
        if n == "hypot" and len(a) == 2:
            return Poly.atom(("fn", "sqrt", ((a[0] * a[0] + a[1] * a[1]).key(),)))
        if n in ("abs", "fabs") and len(a) == 1:
            b = -a[0]
            return Poly.atom(("fn", "abs", (min(a[0].key(), b.key(), key=repr),)))
        return Poly.atom(("fn", n, tuple(x.key() for x in a)))
    if k in ("op", "op1"):
        a = tuple(poly(x, atom, d + 1).key() for x in t[2:])
        return Poly.atom(("fn", "op" + t[1], a))
    if k == "ite":
        return Poly.atom(("fn", "ite", tuple(poly(x, atom, d + 1).key() for x in t[1:])))
    return Poly.atom(t)
