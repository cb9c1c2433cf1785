"""C17 the linear system is square: one equation and one slot per unknown."""
from vv.lib import *
from vv.sg import SG, subterms, show, root, decide
from vv.paths import paths, _resolve
from vv.poly import poly as _poly, Poly, TooBig
from vv.prog import REPO, AnalysisError

TECHNIQUE = "value flow of the numbering of columns and rows (every path of one round over bodies and segments, counters as polynomials), of the queued equations to their dispatch, matching of unknowns with equations, and must-analysis of right-hand sides and of the state of the stored matrix"
NOTE = """Decides that columns and rows are numbered without gaps or repetitions, that each unknown is registered once and has an equation that contains it, that queued equations reach the routine and
arguments they were queued with, that every row's right-hand side is set anew, that the matrix is used again only while it is intact and nothing it depends on moves, and that element addresses, look-up,
solution and sizes agree. The numerical regularity of the matrix is not decided (only its structure)."""

MF = "MConvectiveFast::"
BODYLIST = "Space::BodyList"


def poly(t):
    return _poly(t, lambda x: Poly.atom(x) if sizeof(x) else None)


def isrow(q):
    return bool(q) and q.startswith(MF + "fill") and "Equation" in q


def inl(g, c):
    if not g.file.startswith(REPO) or g.cls in ("Matrix", "TEval", "TTime", "TBody", "TVec", "TVec3D", "Space"):
        return False
    return not isrow(g.q) and g.q != MF + "fill_matrix"


def minl(g, c):
    return g.file.startswith(REPO) and g.cls != "Matrix"


def mk(P, f, i=inl):
    return SG(P, f, inline=i, maxdepth=6, maythrow=lambda k: False, itidx=True)


def run(P, R, tier):
    R.rule("columns", "every unknown of every body has a column of its own, and columns are numbered without gaps")
    R.rule("rows", "every row is filled by exactly one equation, and rows are numbered without gaps")
    R.rule("square", "there are as many rows as columns, and the matrix has that size")
    R.rule("dispatch", "a queued equation is filled by the routine and with the arguments it was queued with")
    R.rule("rhs", "the right-hand side of each row is set anew before anything is added to it")
    R.rule("slots", "equations address registered unknowns, each in its own row")
    R.rule("structure", "unknowns can be matched with equations that contain them")
    R.rule("collision", "a pending collision is taken up by the row it belongs to and left alone by all others")
    R.rule("reuse", "the stored matrix is used again only when it is intact and nothing it depends on has changed")
    R.rule("matrix", "element addresses, the look-up of columns, sizes and the solution agree with each other")
    fs = [f for f in P.by_q.get(MF + "calc_circulation", []) if f.nodes]
    fm = [f for f in P.by_q.get(MF + "fill_matrix", []) if f.nodes]
    if not fs or not fm:
        R.assume("calc_circulation or fill_matrix was not found; the system is assembled elsewhere")
        return
    kinds = columns(P, R, fs[0])
    info = rowinfo(P, R, kinds)
    rowsof(P, R, fm[0], kinds, info)
    reuse(P, R, fs[0], fm[0])
    rigid(P, R)
    matrix(P, R)
    total(P, R)


# ---------------------------------------------------------------- numbering

def counter(t):
    """(phi, offset) of a number written as a counter plus a constant."""
    try:
        p = poly(t)
    except TooBig:
        return None
    base, off = None, 0
    for m, c in p.m.items():
        if m == ():
            off = c
        elif len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0][0] == "phi" and base is None:
            base = m[0][0]
        else:
            return None
    return base, off


def nested(sg):
    """{header: (nodes, header of the enclosing loop)}"""
    L = loops(sg)
    out = {}
    for h, b in L.items():
        up = [x for x in L if x != h and h in L[x] and not (L[x] <= b)]
        out[h] = (b, min(up, key=lambda x: len(L[x])) if up else None)
    return out


def innermost(sg, n):
    a = loops_around(sg, n)
    return a[0][0] if a else None


def runs(sg, h, body):
    """What a loop runs over from its first to its last element: ('it', list) or None; exits elsewhere make it None."""
    for e in sg.events:
        if e.kind != "br" or e.n not in body:
            continue
        outs = [b for b, l in sg.nodes[e.n].succ if b not in body]
        if outs and sg.exit.i in sg.reach(outs):
            for x in subterms(e.val):
                if x[0] == "phi" and x[1] == h:
                    st, steps, bounds = index_cover(sg, x)
                    if [s for s in st if s != ("c", 0)] or steps != {("+", 1)}:
                        continue
                    for op, b in bounds:
                        if op in ("<", "!=") and sizeof(b):
                            return sizeof(b)
    return None


def sizeof(t):
    """The list whose length the term is."""
    if t[0] == "f" and len(t) == 3 and str(t[1]).endswith("size"):
        return t[2]
    if t[0] == "size" and isinstance(t[1], tuple):
        return t[1]
    return None


class Scan:
    """Numbers given in a function: uses(event) -> (number term, payload) or None."""

    def __init__(s, R, rule, sg, use, what):
        s.R, s.rule, s.sg, s.use, s.what = R, rule, sg, use, what
        s.uses = [(e, u) for e in sg.events for u in [use(e)] if u]
        s.nest = nested(sg)
        s.bad = False
        s.groups = {}       # header -> {offset group: [per path payload lists]}

    def fail(s, e, key, msg):
        s.bad = True
        s.R.check(False, s.rule, e.where(), key, "%s: %s" % (s.sg.rootfn.q, msg), "")

    def scan(s):
        sg, R = s.sg, s.R
        cs = {}
        for e, u in s.uses:
            c = counter(u[0])
            cs[e.n] = c
        locs = {c[0][2] for c in cs.values() if c and c[0]}
        if not s.uses:
            return None
        if len(locs) != 1:
            R.assume("%s: the numbers of %s are not given by one counter" % (sg.rootfn.q, s.what))
            return None
        L = s.L = next(iter(locs))
        # merges of the counter inside a round are resolved along paths
        heads = {innermost(sg, e.n) for e, _ in s.uses}
        if None in heads:
            e = next(e for e, _ in s.uses if innermost(sg, e.n) is None)
            R.assume("%s: %s are numbered outside a loop over bodies" % (sg.rootfn.q, s.what))
            return None
        cnt = {("phi", h, L) for h in s.nest if any(("phi", h, L) == x for x in sg.phis)}
        per = {}
        for h in sorted(heads | {p[1] for p in cnt}):
            per[h] = s.round(h, cnt)
            if per[h] is None:
                return None
        s.chain(per, cnt)
        return per

    def entry(s, h, cnt):
        """Values of the counter where loop h is entered."""
        sg = s.sg
        b = s.nest[h][0]
        out = set()
        for p, l in sg.nodes[h].pred:
            if p not in b and p in sg.outs:
                out.add(sg.outs[p].get(s.L))
        return out

    def round(s, h, cnt):
        """One round of the loop: [(segments)] where a segment is (base phi, {offset: [payloads]}), per path."""
        sg = s.sg
        body = s.nest[h][0]
        inner = [x for x in s.nest if x != h and x in body]
        nodes = set()
        for x in inner:
            nodes |= s.nest[x][0]
        byn = dict((e.n, u) for e, u in s.uses)
        keep = lambda e: e.kind == "br" or e.n in byn
        out = []
        for p in paths(sg, start=h, within=body, keep=keep, follow_eh=False, limit=60000, merges=True):
            if p.end != ("leave", h):
                continue
            base = ("phi", h, s.L)
            segs = [(base, {})]
            for e in p.evs:
                if e.n in nodes or e.kind == "br" or e.n not in byn:
                    continue
                u = s.use(e, p)
                if u is None:
                    s.R.assume("%s: one of the %s was not resolved" % (sg.rootfn.q, s.what))
                    return None
                c = counter(u[0])
                if c is None or c[0] is None:
                    s.R.assume("%s: the number %s of %s is not a counter plus a constant" % (sg.rootfn.q, show(u[0])[:80], s.what))
                    return None
                if c[0] in cnt and c[0][1] in inner and all(b != c[0] for b, d in segs):
                    segs.append((c[0], {}))
                for b, d in segs:
                    if b == c[0]:
                        d.setdefault(c[1], []).append((e, u))
                        break
                else:
                    s.R.assume("%s: the number %s of %s is counted elsewhere" % (sg.rootfn.q, show(u[0])[:80], s.what))
                    return None
            v = sg.outs[p.last].get(s.L)
            v = _resolve(v, p.sub, p.over, sg.outs[p.last]) if v is not None else base
            c = counter(v)
            if c is not None and c[0] in cnt and c[0][1] in inner and all(b != c[0] for b, d in segs):
                segs.append((c[0], {}))
            out.append((p, segs, c))
        return out

    def chain(s, per, cnt):
        """Numbers are given without gaps."""
        sg, R = s.sg, s.R
        for h, rs in per.items():
            where = None
            for p, segs, c in rs:
                for i, (b, d) in enumerate(segs):
                    k = len(d)
                    e0 = next((x[0][0] for x in d.values()), None)
                    where = e0 or where
                    lab = "%s:%s" % (s.what, sg.rootfn.q)
                    gap = sorted(d) != list(range(k))
                    if gap:
                        s.fail(e0, lab + ":gap", "in one round the %s are numbered %s from the counter instead of 0 to %d" % (s.what, ", ".join(map(str, sorted(d))), k - 1))
                    last = i == len(segs) - 1
                    if last:
                        if c is None or c[0] != b:
                            if c is not None and c[0] is not None and c[0][1] in s.nest and c[0][2] == s.L:
                                continue
                            R.assume("%s: the counter of %s at the end of a round was not resolved" % (sg.rootfn.q, s.what))
                        elif c[1] != k and not gap:
                            e = max((x[0] for l in d.values() for x in l), key=lambda e: e.n) if d else (where or s.uses[0][0])
                            s.fail(e, lab + ":step", "%d %s are numbered, and the counter moves on by %s" % (k, s.what, c[1]))
                    else:
                        nb = segs[i + 1][0]
                        vs = s.entry(nb[1], cnt)
                        for v in vs:
                            v = _resolve(v, p.sub, p.over) if v is not None else None
                            cc = counter(v) if v is not None else None
                            if cc is None or cc[0] != b:
                                if cc is None:
                                    R.assume("%s: the counter of %s at the start of a loop was not resolved" % (sg.rootfn.q, s.what))
                            elif cc[1] != k and not gap:
                                s.fail(s.uses[0][0], lab + ":inner", "%d %s are numbered before the loop inside, which starts at the counter plus %s" % (k, s.what, cc[1]))
        # the first number is 0
        for b in cnt:
            h = b[1]
            if s.nest[h][1] is None:
                for v in s.entry(h, cnt):
                    ok = v is not None and (v == ("c", 0) or v[0] == "phi" and v[2] == s.L)
                    if v is not None and v[0] == "c" and not ok:
                        s.fail(s.uses[0][0], "%s:start" % s.what, "the %s are numbered from %s instead of 0" % (s.what, show(v)))
        if not s.bad:
            for h, rs in per.items():
                if any(d for p, segs, c in rs for b, d in segs):
                    R.check(True, s.rule, sg.nodes[h].where() if hasattr(sg.nodes[h], "where") else "", "", "", "%s: %s numbered without gaps on %d paths of a round" % (sg.rootfn.q, s.what, len(rs)))


def tail(t):
    """(names of the fields below the body or segment, its location)."""
    names = []
    while t[0] == "fld" and t[2].split("::")[0] in ("TVec", "TVec3D", "TBody", "TObj", "TAtt"):
        names.append(t[2])
        t = t[1]
    return tuple(reversed(names)), t


def listof(t):
    """The list an element belongs to: ('bodies'|'segments', location of the owner, index)."""
    while t[0] in ("ld",) and t[1][0] == "el":
        t = t[1]
    if t[0] == "el" and t[1][0] == "fld":
        if t[1][2] == BODYLIST:
            return "bodies", t[1][1], t[2]
        if t[1][2] == "TBody::alist":
            return "segments", t[1][1], t[2]
    return None


def fixed(i):
    return i in ("front", "back") or i[0] == "c"


def driven(sg, e, t):
    """The element t is the current one of the loops around e that run over whole lists; returns 'bodies' | 'segments' | None."""
    l = listof(t)
    if l is None or l[2][0] != "phi":
        return None
    h = l[2][1]
    ar = {x[0]: x[1] for x in loops_around(sg, e.n)}
    if h not in ar:
        return None
    lst = runs(sg, h, ar[h])
    if lst is None:
        return None
    if l[0] == "bodies":
        return "bodies" if lst[0] == "fld" and lst[2] == BODYLIST else None
    o = listof(l[1])
    if o is None or driven(sg, e, l[1]) != "bodies":
        return None
    if lst[0] == "fld" and lst[2] == "TBody::alist" and lst[1] == l[1]:
        return "segments"
    return None


def columns(P, R, f):
    sg = mk(P, f)

    def use(e, p=None):
        if e.kind == "call" and e.q == "Matrix::setSolutionForCol" and len(e.args) == 2:
            return e.args[0], e.args[1]
    s = Scan(R, "columns", sg, use, "columns")
    if not s.uses:
        R.assume("no columns are registered in calc_circulation")
        return None
    per = s.scan()
    kinds = {}
    for e, u in s.uses:
        names, base = tail(u[1])
        d = driven(sg, e, base)
        if d is None:
            l = listof(base)
            if l is not None and fixed(l[2]):
                R.check(False, "columns", e.where(), "fixed:%s" % ".".join(names), "%s: a column is given to one certain element of a list (%s)" % (f.q, show(u[1])), "")
            else:
                R.assume("%s: the loops that register %s were not resolved" % (f.q, show(u[1])[:100]))
            kinds.setdefault((None, names), []).append(e)
            continue
        ar = [x[0] for x in loops_around(sg, e.n)]
        need = 1 if d == "bodies" else 2
        R.check(len(ar) == need, "columns", e.where(), "loops:%s" % ".".join(names), "%s: %s is registered in %d loops" % (f.q, show(u[1]), len(ar)), "%s for all %s" % (".".join(names), d))
        kinds.setdefault((d, names), []).append(e)
    want = {("segments", ("TObj::g",))}
    for b in ("speed_slae", "force_hydro", "force_holder"):
        for c in (("TVec3D::r", "TVec::x"), ("TVec3D::r", "TVec::y"), ("TVec3D::o",)):
            want.add(("bodies", ("TBody::" + b,) + c))
    if (None, None) not in kinds and not any(k[0] is None for k in kinds):
        for k in sorted(want):
            R.check(k in kinds, "columns", f.where(), "missing:%s" % ".".join(k[1]), "%s: the unknown %s of %s has no column" % (f.q, ".".join(k[1]), k[0]), ".".join(k[1]))
    for k, es in kinds.items():
        if len(es) > 1:
            for i in range(1, len(es)):
                if es[i].n in sg.reach(sg.after(es[0].n), stop={h for h in loops(sg)}):
                    R.check(False, "columns", es[i].where(), "twice:%s" % ".".join(k[1]), "%s: the unknown %s is given two columns" % (f.q, ".".join(k[1])), "")
    # registered in every round
    if per:
        for h, rs in per.items():
            sets = {}
            for p, segs, c in rs:
                ks = frozenset(tail(u[1])[0] for b, d in segs for l in d.values() for e, u in l)
                sets.setdefault(ks, p)
            full = frozenset().union(*sets) if sets else frozenset()
            for ks in sets:
                if ks != full:
                    e = next(e for e, u in s.uses if tail(u[1])[0] in full - ks)
                    R.check(False, "columns", e.where(), "skipped:%s" % ".".join(sorted(full - ks)[0]), "%s: on some paths of a round %s gets no column" % (f.q, ", ".join(".".join(x) for x in sorted(full - ks))), "")
            for p, segs, c in rs:
                for b, d in segs:
                    for o, l in d.items():
                        if len(l) > 1:
                            R.check(False, "columns", l[1][0].where(), "same:%s" % ".".join(tail(l[1][1][1])[0]), "%s: column %s is given to %s and to %s" % (f.q, o, show(l[0][1][1]), show(l[1][1][1])), "")
    return {k for k in kinds if k[0]} or None


# ---------------------------------------------------------------- equations

def rowinfo(P, R, kinds):
    """{key of a row function: slots of its own body or segment that it fills}"""
    from rules import c18
    M = c18.Model(P, R)
    info = {}
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.nodes or not isrow(f.q):
            continue
        sg = SG(P, f, inline=M.small(f), maxdepth=6, maythrow=lambda k: False, itidx=True)
        calls = {e.n: e for e in sg.events if e.kind == "call"}
        num = None
        for i, p in enumerate(f.params):
            if p["t"] in ("unsigned int", "int", "unsigned long", "size_t", "const unsigned int"):
                num = i
                break
        rowv = set()
        sets, adds, own, weak = set(), [], {}, []
        for e in sg.events:
            if e.kind == "call" and e.q in ("Matrix::getCell", "Matrix::getRightCol"):
                rowv.add(e.args[0])
                if num is not None:
                    ok = par(e.args[0], f, num)
                    known = e.args[0][0] in ("c",) or ok or counter(e.args[0]) is not None or e.args[0][0] == "op"
                    if known:
                        R.check(ok, "slots", e.where(), "%s:row" % f.name, "%s: %s is called for row %s instead of the row of the equation" % (f.q, e.q, show(e.args[0])), "%s: own row" % f.name)
                if e.q == "Matrix::getCell":
                    names, base = tail(e.args[1])
                    if names and kinds:
                        seg = names[-1] == "TObj::g" or base[0] == "el"
                        R.check((("segments" if names == ("TObj::g",) else "bodies"), names) in kinds or not names[0].startswith(("TBody::", "TObj::", "TAtt::")), "slots", e.where(), "%s:%s" % (f.name, ".".join(names)),
                                "%s: a coefficient is stored for %s, which is not an unknown of the system" % (f.q, show(e.args[1])), "%s: %s" % (f.name, show(e.args[1])[:80]))
            if e.kind == "write" and e.loc[0] == "ret":
                c = calls.get(e.loc[1])
                if c is None or c.q not in ("Matrix::getCell", "Matrix::getRightCol"):
                    continue
                self_ = any(x == e.loc or x == ("ld", e.loc) or x[0] == "phi" and x[2] == e.loc for x in subterms(e.val))
                if c.q == "Matrix::getRightCol":
                    (adds.append(e) if self_ else sets.add(e.n))
                else:
                    names, base = tail(c.args[1])
                    try:
                        zero = not self_ and not poly(e.val).m
                    except TooBig:
                        zero = False
                    if not zero:
                        own.setdefault((names, who(base, f, sg)), []).append(e)
        if not sets and not adds:
            R.assume("%s: the right-hand side was not found" % f.q)
        else:
            r = sg.reach([sg.entry.i], stop=sets)
            R.check(sg.exit.i not in r, "rhs", f.where(), "%s:set" % f.name, "%s: on some path the right-hand side of the row is left as it was" % f.q, "%s: right-hand side set on every path" % f.name)
            for e in adds:
                R.check(e.n not in r, "rhs", e.where(), "%s:add" % f.name, "%s: a term is added to the right-hand side before it is set" % f.q, "%s: terms added after" % f.name)
        # nothing is set anew after a term was added
        for e in adds:
            later = sg.reach(sg.after(e.n)) & sets
            R.check(not later, "rhs", e.where(), "%s:lost" % f.name, "%s: the right-hand side is set again after a term was added" % f.q, "")
        info[f.key] = {"f": f, "own": own, "sg": sg}
    if not info:
        R.assume("no routines that fill equations were found")
    else:
        R.check(len(info) >= 4, "rhs", "", "", "", "%d equations" % len(info)) if len(info) >= 4 else None
    return info


def par(t, f, i):
    return t == ("arg", i) or t == ("ld", ("loc", 0, f.params[i].get("key", ""))) or t[0] == "arg" and t[1] == i or t[0] == "ld" and t[1] == ("arg", i) or \
        t[0] == "arg" and t[1] in (f.params[i].get("name"), f.params[i].get("d")) or paramloc(t) == f.params[i].get("name")


def paramloc(t):
    if t[0] == "ld":
        t = t[1]
    if t[0] == "loc" and t[1] == 0 and str(t[2]).startswith("p:"):
        return str(t[2]).split(":")[1]
    if t[0] == "loc" and t[1] == 0 and str(t[2]).startswith("l:"):
        return str(t[2]).split(":")[1]
    return None


def who(base, f, sg):
    """Whose unknown: ('arg', parameter) | ('all bodies'|'all segments of', ...) | other."""
    for i, p in enumerate(f.params):
        if p["t"].endswith("*") and (base == ("ld", ("arg", i)) or par(base, f, i)):
            return ("arg", p["t"].replace("const ", "").rstrip(" *"))
    l = listof(base)
    if l is not None:
        if l[0] == "segments":
            w = who(l[1], f, sg)
            return ("segments", w)
        return ("bodies", None)
    return ("other", None)


# ---------------------------------------------------------------- assembly

def jobfields(P, names):
    for r in P.records.values():
        fs = [x["name"] for x in r.get("fields", ())]
        if names and names <= set(fs):
            return fs
    return None


def rowsof(P, R, f, kinds, info):
    sg = mk(P, f)
    # how queued equations are read back
    lists = {e.obj for e in sg.events if e.kind == "call" and e.q in ("std::vector::push_back", "std::vector::emplace_back") and e.obj is not None and e.obj[0] == "loc"}

    def jobof(t):
        """Field of a queued record."""
        if t[0] == "ld" and t[1][0] == "fld":
            b = t[1][1]
            while b[0] == "ld":
                b = b[1]
            if b[0] == "el" and b[1] in lists:
                return t[1][2].rsplit("::", 1)[-1], b[1], b[2]
        return None
    used = set()
    for e in sg.events:
        for t in ([e.val] if e.val is not None else []) + list(e.args or ()):
            for x in subterms(t):
                j = jobof(x)
                if j:
                    used.add(j[0])
    order = jobfields(P, used)
    qcalls = [e for e in sg.events if e.kind == "call" and isrow(e.q) and e.inl is None and any(jobof(a) for a in e.args)]

    def record(e):
        """{field: value} of the queued record."""
        a = e.args[-1] if e.args else None
        if a is None:
            return None
        if a[0] == "f" and a[1] == "{}" and order and len(a) - 2 == len(order):
            return dict(zip(order, a[2:]))
        if a[0] == "f" and order and len(a) - 2 == len(order) and "Job" in str(a[1]):
            return dict(zip(order, a[2:]))
        if e.q.endswith("emplace_back") and order and len(e.args) == len(order):
            return dict(zip(order, e.args))
        if a[0] in ("loc", "tmp"):
            st = prestate(sg, e.n)
            out = {}
            for k, v in st.items():
                if k[0] == "fld" and k[1] == a:
                    out[k[2].rsplit("::", 1)[-1]] = v
            if order and set(order) <= set(out):
                return out
        return None

    def target(rec):
        """Row functions reached for a queued record: set of call events on all paths, or None."""
        ids = {}

        def env(t):
            if t[0] == "fn":
                return ids.setdefault(t, 1000 + len(ids))
            j = jobof(t)
            if j and j[0] in rec:
                v = rec[j[0]]
                if v[0] == "fn":
                    return env(v)
                if v[0] == "c" and isinstance(v[1], (int, float)):
                    return v[1]
            return None
        h = {innermost(sg, e.n) for e in qcalls}
        if len(h) != 1 or None in h:
            return None
        h = next(iter(h))
        body = loops(sg)[h]
        qn = {e.n: e for e in qcalls}

        def edges(a, b, l):
            if not isinstance(l, tuple):
                return True
            for e in sg.ev_at.get(a, ()):
                if e.kind == "br":
                    v = decide(e.val, env)
                    if v is None:
                        return True
                    if l[0] == "br":
                        return bool(v) == l[1]
                    if l[0] == "case" and l[1] is not None:
                        return int(l[1]) == int(v)
                    if l[0] == "default":
                        return not any(isinstance(k, tuple) and k[0] == "case" and k[1] is not None and int(k[1]) == int(v) for _, k in sg.nodes[a].succ)
            return True
        first = [b for b, l in sg.nodes[h].succ if b in body]
        r = sg.reach(first, stop={h}, edges=edges)
        hit = [qn[n] for n in qn if n in r]
        if len(hit) == 1:
            r2 = sg.reach(first, stop={hit[0].n}, edges=lambda a, b, l: edges(a, b, l) and l != ("eh",))
            return hit, h in r2 and any(p in r2 for p, l in sg.nodes[h].pred if p in body)
        return hit, False
    memo = {}

    def open_(rec):
        """Which equation it is depends on the path."""
        return any(any(x[0] == "fn" for x in alts_(v)) and v[0] != "fn" for v in rec.values())

    def alts_(v, d=0):
        if v[0] == "phi" and d < 12:
            return [y for x in sg.phis.get(v, ()) for y in alts_(x, d + 1)]
        if v[0] == "ite":
            return alts_(v[2], d + 1) + alts_(v[3], d + 1)
        return [v]

    def folded(v):
        a = set(alts_(v))
        return next(iter(a)) if len(a) == 1 and next(iter(a))[0] == "fn" else v

    def eff(e, p=None):
        """(row number, row function key, arguments, how) of an event."""
        if e.kind != "call":
            return None
        if isrow(e.q) and e.inl is None and not any(jobof(a) for a in e.args):
            g = P.fns.get(e.key)
            i = numarg(g)
            return (e.args[i], "row", e.key, tuple(e.args)) if i is not None and i < len(e.args) else None
        if e.q in ("Matrix::getCell", "Matrix::getRightCol") and e.args and not any(jobof(a) for a in e.args):
            return e.args[0], e.q[8:], e.n, tuple(e.args)
        if e.q in ("std::vector::push_back", "std::vector::emplace_back") and e.obj in lists and qcalls:
            rec = record(e)
            if rec is None:
                return None
            if p is not None:
                rec = {k: _resolve(v, p.sub, p.over) for k, v in rec.items()}
            rec = {k: folded(v) for k, v in rec.items()}
            if open_(rec):
                if p is not None:
                    return None
                nums = {j[0] for c in qcalls for g in [P.fns.get(c.key)] for i in [numarg(g)] if i is not None for j in [jobof(c.args[i])] if j}
                return (rec[next(iter(nums))], "open", None, ()) if len(nums) == 1 else None
            key = tuple(sorted((k, v) for k, v in rec.items() if v[0] in ("fn", "c")))
            if key not in memo:
                memo[key] = target({k: v for k, v in key})
            t = memo[key]
            kind = ", ".join(fname(P, v) for k, v in key if v[0] == "fn") or str(key)
            if t is None:
                return None
            hit, skip = t
            if len(hit) != 1 or skip:
                return ("c", None), "lost", (kind, len(hit)), ()
            c = hit[0]

            def sub(a):
                j = jobof(a)
                return rec.get(j[0], a) if j else a
            g = P.fns.get(c.key)
            i = numarg(g)
            return sub(c.args[i]), "job", c.key, tuple(sub(a) for a in c.args)
        return None

    def use(e, p=None):
        u = eff(e, p)
        if u is None or u[1] == "lost":
            return None
        return u
    # queued equations
    nq = 0
    for e in sg.events:
        if e.kind == "call" and e.q in ("std::vector::push_back", "std::vector::emplace_back") and e.obj in lists and qcalls:
            u = eff(e)
            if u is None:
                R.assume("%s: a queued equation was not resolved" % f.q)
                continue
            nq += 1
            if u[1] == "open":
                for v in {x for v in record(e).values() for x in alts_(v) if x[0] == "fn"}:
                    t = target({k: v for k, w in record(e).items() if any(x[0] == "fn" for x in alts_(w))})
                    if t is not None:
                        R.check(len(t[0]) == 1 and not t[1], "dispatch", e.where(), fname(P, v), "%s: an equation queued as %s reaches %d routines when the queue is worked off" % (f.q, fname(P, v), len(t[0])), "%s: queued" % fname(P, v))
                        if len(t[0]) == 1:
                            R.check(P.fns[t[0][0].key].name == fname(P, v), "dispatch", e.where(), "kind:%s" % fname(P, v), "%s: an equation queued as %s is filled by %s" % (f.q, fname(P, v), t[0][0].q), "")
                continue
            if u[1] == "lost":
                R.check(False, "dispatch", e.where(), "%s" % u[2][0], "%s: an equation queued as %s reaches %d routines when the queue is worked off" % (f.q, u[2][0], u[2][1]), "")
                continue
            g = P.fns[u[2]]
            rec = record(e)
            ptr = [fname(P, v) for v in rec.values() if v[0] == "fn"]
            R.check(not ptr or g.name in ptr, "dispatch", e.where(), "kind:%s" % g.name, "%s: an equation queued as %s is filled by %s" % (f.q, ", ".join(ptr), g.q), "%s: queued and filled" % g.name)
    if qcalls:
        h = innermost(sg, qcalls[0].n)
        if h is not None:
            lst = runs(sg, h, loops(sg)[h])
            if lst is None:
                late = [st for e in sg.events if e.kind == "br" and e.n in loops(sg)[h] for x in subterms(e.val) if x[0] == "phi" and x[1] == h
                        for st in index_cover(sg, x)[0] if st[0] == "c" and isinstance(st[1], int) and st[1] > 0]
                if late:
                    R.check(False, "dispatch", qcalls[0].where(), "all", "%s: the queued equations are filled from number %s on" % (f.q, show(late[0])), "")
                else:
                    R.assume("%s: the loop over the queued equations was not resolved" % f.q)
            else:
                R.check(lst in lists, "dispatch", qcalls[0].where(), "all", "%s: not all queued equations are filled" % f.q, "all %d kinds of queued equations" % nq)
                # the queue is complete before it is worked off
                for e in sg.events:
                    if e.kind == "call" and e.obj in lists and e.q.startswith("std::vector::") and e.q.rsplit("::", 1)[1] in ("push_back", "emplace_back", "clear", "pop_back", "erase", "resize"):
                        R.check(not any(e.n in sg.reach(sg.after(q.n)) for q in qcalls) and (e.q.endswith("_back") and "pop" not in e.q), "dispatch", e.where(), "late:%d" % (e.n % 7),
                                "%s: the queue is changed while or before it is worked off" % f.q, "")
    s = Scan(R, "rows", sg, use, "rows")
    per = s.scan()
    # arguments of the equations
    for e, u in s.uses:
        if u[1] not in ("row", "job"):
            continue
        g = P.fns[u[2]]
        for i, p in enumerate(g.params):
            if i >= len(u[3]):
                break
            a = u[3][i]
            t = p["t"].replace("const ", "")
            l = deref(a)
            if t in ("TBody *", "TAtt *", "TBody &", "TAtt &"):
                d = driven(sg, e, l)
                want = "bodies" if t.startswith("TBody") else "segments"
                if d is None:
                    if a == ("c", 0):
                        R.check(False, "dispatch", e.where(), "%s:null" % g.name, "%s: %s gets no %s" % (f.q, g.q, "body" if want == "bodies" else "segment"), "")
                    elif ty(l):
                        x = listof(l)
                        if x and fixed(x[2]):
                            R.check(False, "dispatch", e.where(), "%s:fixed" % g.name, "%s: %s is always called for %s" % (f.q, g.q, show(a)), "")
                        else:
                            R.assume("%s: the argument %s of %s was not resolved" % (f.q, show(a)[:80], g.q))
                    continue
                R.check(d == want, "dispatch", e.where(), "%s:%s" % (g.name, want), "%s: %s gets %s" % (f.q, g.q, show(a)), "%s: the current %s" % (g.name, want))
            elif t in ("bool",):
                R.check(a[0] != "c", "dispatch", e.where(), "%s:flag" % g.name, "%s: %s is always called with rightColOnly=%s" % (f.q, g.q, show(a)), "%s: flag passed on" % g.name)
    if per is None:
        return
    structure(P, R, sg, f, per, info, kinds, s)
    families(P, R, info)
    single(P, R, sg, f, per, info, s)
    collision(P, R, sg, f)
    # the matrix is cleared before and marked after
    clear = {e.n for e in sg.events if e.kind == "call" and e.q == "Matrix::fillWithZeros"}
    marks = {e.n for e in sg.events if e.kind == "call" and e.q == "Matrix::markBodyMatrixAsFilled"}
    flag = None
    for i, p in enumerate(f.params):
        if p["t"].replace("const ", "") == "bool":
            flag = p["name"]

    def env(v):
        def g(t):
            return v if paramloc(t) == flag and t[0] == "ld" or t == ("arg", flag) else None
        return g
    isflag = lambda t: any(t == x for x in flagterms)
    flagterms = [x for e in sg.events if e.kind == "br" for x in subterms(e.val) if x[0] in ("ld", "arg") and show(x) == flag]
    full = lambda a, b, l: l != ("eh",) and not contra(sg, a, l, lambda t: 0 if t in flagterms else None)
    part = lambda a, b, l: l != ("eh",) and not contra(sg, a, l, lambda t: 1 if t in flagterms else None)
    fills = {e.n for e in sg.events if e.kind == "call" and (isrow(e.q) or e.q == "Matrix::getCell")}
    if clear:
        r = sg.reach([sg.entry.i], stop=clear, edges=full)
        R.check(not (r & fills), "reuse", f.where(), "cleared", "%s: equations are filled in without the matrix having been cleared" % f.q, "matrix cleared first")
        for c in clear:
            r = sg.reach(sg.after(c), edges=lambda a, b, l: l != ("eh",))
            early = sg.reach([sg.entry.i], edges=full)
            R.check(not any(c in sg.reach(sg.after(x), edges=full) for x in fills), "reuse", sg.nodes[c].where(), "cleared-late", "%s: the matrix is cleared after equations were filled in" % f.q, "")
        r = sg.reach([sg.entry.i], edges=part)
        R.check(not (r & clear), "reuse", f.where(), "kept", "%s: the matrix is cleared although only right-hand sides are filled in" % f.q, "matrix kept when only right-hand sides are filled")
    elif any(e.kind == "call" and e.q == "memset" for e in sg.events):
        R.assume("%s: the matrix is cleared in another way" % f.q)
    else:
        R.check(False, "reuse", f.where(), "cleared", "%s: the matrix is not cleared" % f.q, "")
    if marks:
        R.check(sg.exit.i not in sg.reach([sg.entry.i], stop=marks, edges=full), "reuse", f.where(), "marked", "%s: the matrix is filled in and not marked as such" % f.q, "marked as filled")
        for m in marks:
            R.check(not (sg.reach(sg.after(m)) & fills), "reuse", sg.nodes[m].where(), "marked-early", "%s: the matrix is marked as filled before all equations are" % f.q, "")


def deref(a):
    if a[0] in ("el", "fld"):
        return a
    return a


def ty(l):
    return listof(l) is not None


def fname(P, v):
    g = P.fns.get(v[1])
    return g.name if g else str(v[1])


def numarg(g):
    if g is None:
        return None
    for i, p in enumerate(g.params):
        if p["t"].replace("const ", "") in ("unsigned int", "int", "unsigned long", "size_t", "long"):
            return i
    return None


def structure(P, R, sg, f, per, info, kinds, s):
    nrow = {}
    alts = {}       # (header, group index, offset) -> set of writers
    raw = {}
    for h, rs in per.items():
        seen = set()
        for p, segs, c in rs:
            n = 0
            for i, (b, d) in enumerate(segs):
                for o, l in sorted(d.items()):
                    n += 1
                    rows = [(e, u) for e, u in l if u[1] in ("row", "job")]
                    cells = [(e, u) for e, u in l if u[1] not in ("row", "job")]
                    key = (h, i if b[1] == h and len(segs) == 1 else ("@", b[1]), o)
                    if len(rows) > 1:
                        k = tuple(sorted(P.fns[u[2]].name for e, u in rows))
                        if (key, k) not in seen:
                            seen.add((key, k))
                            R.check(False, "rows", rows[1][0].where(), "two:%s" % k[1], "%s: one row is filled by %s and by %s" % (f.q, P.fns[rows[0][1][2]].q, P.fns[rows[1][1][2]].q), "")
                    if rows:
                        e, u = rows[0]
                        w = ("fn", u[2])
                        for e2, u2 in cells:
                            wr = [x for x in p.evs if x.kind == "write"]
                            after = order(p, e, e2)
                            k = (key, u[2], e2.n)
                            if k not in seen:
                                seen.add(k)
                                R.check(u[1] == "row" and after, "rhs", e2.where(), "before:%s" % P.fns[u[2]].name, "%s: what is stored in the row here is replaced when %s fills the row" % (f.q, P.fns[u[2]].q), "row completed after %s" % P.fns[u[2]].name)
                    else:
                        w = ("raw", frozenset(e.n for e, u in cells))
                        raw[w] = (cells, p)
                    alts.setdefault(key, set()).add(w)
            nrow.setdefault(h, set()).add(n)
    # rows are the same number in each round
    for h, ns in nrow.items():
        if ns != {0}:
            e = next(e for e, u in s.uses if innermost(sg, e.n) == h) if any(innermost(sg, e.n) == h for e, u in s.uses) else s.uses[0][0]
            inner = any(listof(x) and False for x in ())
            lst = runs(sg, h, loops(sg)[h])
            k = 1 if lst is not None and lst[0] == "fld" and lst[2] == "TBody::alist" else 9 if lst is not None and lst[0] == "fld" and lst[2] == BODYLIST else None
            if k is None:
                R.assume("%s: the loop that numbers rows was not resolved" % f.q)
                continue
            nu = sum(1 for x in kinds or () if x[0] == ("segments" if k == 1 else "bodies")) or k
            R.check(ns == {nu}, "square", e.where(), "rows:%d" % nu, "%s: %s rows for %d unknowns of each %s" % (f.q, "/".join(map(str, sorted(ns))), nu, "segment" if k == 1 else "body"),
                    "%d rows for %d unknowns of each %s" % (max(ns), nu, "segment" if k == 1 else "body"))
    # own unknowns of the equations
    own = {}
    calls = {e.n: e for e in sg.events if e.kind == "call"}
    rw = {}
    for e in sg.events:
        if e.kind == "write" and e.loc[0] == "ret" and e.loc[1] in calls and calls[e.loc[1]].q in ("Matrix::getCell", "Matrix::getRightCol"):
            rw.setdefault(e.loc[1], []).append(e)

    def ownof(w):
        if w[0] == "fn":
            i = info.get(w[1])
            return {k[0] for k in i["own"] if k[1][0] == "arg" or k[1][0] == "segments"} if i else None
        out = set()
        for n in w[1]:
            c = calls[n]
            if c.q == "Matrix::getCell":
                for x in rw.get(n, ()):
                    try:
                        if poly(x.val).m:
                            out.add(tail(c.args[1])[0])
                    except TooBig:
                        out.add(tail(c.args[1])[0])
        return out
    for w in {w for ws in alts.values() for w in ws}:
        own[w] = ownof(w)
        if w[0] == "raw":
            cells, p = raw[w]
            e = cells[0][0]
            rs = [x for e2, u in cells if u[1] == "getRightCol" for x in rw.get(e2.n, ())]
            isset = [x for x in rs if not any(t == x.loc or t == ("ld", x.loc) for t in subterms(x.val))]
            R.check(bool(isset), "rhs", e.where(), "raw:%s" % ".".join(sorted(own[w])[0] if own[w] else ()), "%s: the right-hand side of the row filled here is not set" % f.q, "right-hand side of a row filled in place")
    heads = {}
    for key, ws in alts.items():
        heads.setdefault(key[0], []).append((key, ws))
    for h, ks in heads.items():
        lst = runs(sg, h, loops(sg)[h])
        if lst is None:
            continue
        if lst[2] == "TBody::alist":
            for key, ws in ks:
                for w in ws:
                    if own[w] is not None:
                        g = info[w[1]]["f"] if w[0] == "fn" else f
                        R.check(("TObj::g",) in own[w], "structure", g.where(), g.name, "%s: the equation of a segment does not contain its circulation" % g.q, "%s contains the circulation" % g.name)
            continue
        cols = sorted(x[1] for x in kinds or () if x[0] == "bodies")
        if not cols or any(o is None for k, ws in ks for o in [own[w] for w in ws]):
            continue
        ks.sort(key=lambda x: repr(x[0]))
        names = lambda w: info[w[1]]["f"].name if w[0] == "fn" else "the row filled in place"
        combos = [[]]
        for key, ws in ks:
            combos = [c + [w] for c in combos for w in sorted(ws, key=repr)]
            if len(combos) > 5000:
                break
        nok = 0
        for c in combos:
            m = match([own[w] for w in c], cols)
            if m is None:
                nok += 1
            else:
                w = c[m[0]] if m[0] is not None else c[0]
                at = info[w[1]]["f"].where() if w[0] == "fn" else f.where()
                R.check(False, "structure", at, "match:%s" % names(w), "with the equations %s there is no equation for the unknown %s" % (", ".join(names(x) for x in c), ".".join(m[1])), "")
                break
        R.check(True, "structure", f.where(), "", "", "%d combinations of equations of a body matched with %d unknowns" % (nok, len(cols)))


COMP = {"X": ("TVec3D::r", "TVec::x"), "Y": ("TVec3D::r", "TVec::y"), "O": ("TVec3D::o",)}


def families(P, R, info):
    """The equations of the three directions contain the same kinds of unknowns, each that of its own direction."""
    fam = {}
    for i in info.values():
        n = i["f"].name
        for c in COMP:
            if n.endswith(c + "Equation"):
                fam.setdefault(n[:-len(c + "Equation")], {})[c] = i
    for n, m in sorted(fam.items()):
        if len(m) < 3:
            continue
        sets = {c: {(w, names[0]) for (names, w) in i["own"] if names[1:] == COMP[c]} for c, i in m.items()}
        for c in sorted(m):
            o = [d for d in m if d != c]
            for x in sorted((sets[o[0]] & sets[o[1]]) - sets[c], key=repr):
                R.check(False, "structure", m[c]["f"].where(), "kind:%s%s:%s" % (n, c, x[1]), "%s: contains no %s of its own direction, which %s and %s do" % (m[c]["f"].q, x[1].rsplit("::", 1)[-1], m[o[0]]["f"].name, m[o[1]]["f"].name), "")
            for x in sorted(sets[c] - sets[o[0]] - sets[o[1]], key=repr):
                R.check(False, "structure", m[c]["f"].where(), "extra:%s%s:%s" % (n, c, x[1]), "%s: contains the %s of its own direction, which %s and %s do not" % (m[c]["f"].q, x[1].rsplit("::", 1)[-1], m[o[0]]["f"].name, m[o[1]]["f"].name), "")
        R.check(True, "structure", "", "", "", "%s: same kinds of unknowns in all directions" % n)


def single(P, R, sg, f, per, info, s):
    """An equation that is the same for all bodies is used once."""
    for k, i in sorted(info.items()):
        g = i["f"]
        ptr = [j for j, p in enumerate(g.params) if p["t"].endswith("*")]
        if not ptr or any(par(x, g, j) for e in i["sg"].events for t in [y for y in (e.val, e.loc) if y is not None] + list(e.args or ()) for x in subterms(t) for j in ptr):
            continue
        if not i["own"] or any(w[0] == "arg" for n, w in i["own"]):
            continue
        for e, u in s.uses:
            if u[1] not in ("job", "row") or u[2] != k:
                continue
            h = innermost(sg, e.n)
            if h not in per:
                continue
            once(R, sg, f, g, e, [p for p, segs, c in per[h]], h, s)


def once(R, sg, f, g, e, ps, h, s):
    state = {x for x in sg.phis if x[1] == h and x[2] != s.L and x[2][0] == "loc"}
    mine = [p for p in ps if any(x.n == e.n for x in p.evs)]
    used = {y for p in mine for x in p.evs if x.kind == "br" for y in subterms(x.val) if y in state}
    # loop counters are not states
    used = {x for x in used if not any(st == ("+", 1) for st in index_cover(sg, x)[1]) or not any(sizeof(b) for o, b in index_cover(sg, x)[2])}

    def start(loc, h):
        vs = set()
        for p, l in sg.nodes[h].pred:
            if p not in s.nest[h][0] and p in sg.outs:
                vs.add(sg.outs[p].get(loc))
        if len(vs) != 1:
            return None
        v = next(iter(vs))
        if v is not None and v[0] == "phi" and v[2] == loc and v[1] in s.nest and v[1] != h:
            return start(loc, v[1])
        return v
    if not used:
        for p in mine:
            for x in p.evs:
                if x.kind == "br":
                    for y in subterms(x.val):
                        if y[0] == "phi" and y[1] == h and y[2] != s.L or y[0] in ("it",):
                            pass
        other = [x for p in mine for x in p.evs if x.kind == "br" and x.n != h and any(y[0] == "ret" for y in subterms(x.val))]
        if other:
            R.assume("%s: how often %s is used was not resolved" % (f.q, g.name))
        else:
            R.check(False, "structure", e.where(), "once:%s" % g.name, "%s: %s, which is the same for all bodies, is used for more than one body" % (f.q, g.name), "")
        return
    st0 = {}
    for x in used:
        v = start(x[2], h)
        v = decide(v, lambda t: None) if v is not None else None
        if v is None:
            R.assume("%s: how often %s is used was not resolved" % (f.q, g.name))
            return
        st0[x] = v
    seen, work = set(), [(tuple(sorted(st0.items(), key=repr)), 0)]
    rounds = 0
    bad = unk = False
    while work and rounds < 400:
        st, n = work.pop()
        if (st, n) in seen:
            continue
        seen.add((st, n))
        rounds += 1
        d = dict(st)
        if any(abs(v) > 4 for v in d.values()):
            continue
        env = lambda t: d.get(t)
        for p in ps:
            ok = True
            for x in p.evs:
                if x.kind == "br" and isinstance(x.label, tuple) and x.label[0] == "br":
                    v = decide(x.val, env)
                    if v is not None and bool(v) != x.label[1]:
                        ok = False
                        break
            if not ok:
                continue
            m = n + any(x.n == e.n for x in p.evs)
            if m > 1:
                bad = True
                break
            nd = {}
            for x in used:
                v = sg.outs[p.last].get(x[2])
                v = _resolve(v, p.sub, p.over, sg.outs[p.last]) if v is not None else x
                nv = decide(v, env)
                if nv is None:
                    unk = True
                    break
                nd[x] = nv
            else:
                work.append((tuple(sorted(nd.items(), key=repr)), m))
    if unk:
        R.assume("%s: how often %s is used was not resolved" % (f.q, g.name))
    else:
        R.check(not bad, "structure", e.where(), "once:%s" % g.name, "%s: %s, which is the same for all bodies, is used for more than one body" % (f.q, g.name), "%s used once at most" % g.name)


def collision(P, R, sg, f):
    """A pending collision is changed only by the row it belongs to."""
    i = next((i for i, p in enumerate(f.params) if p["t"].replace(" ", "").endswith("**")), None)
    if i is None:
        R.assume("%s: the pending collision was not found" % f.q)
        return
    nm = f.params[i]["name"]
    isc = lambda t: t[0] == "ld" and paramloc(t[1]) == nm and t[1][0] == "ld" or t == ("ld", ("arg", nm)) or t[0] == "ld" and show(t[1]) == nm and t[1][0] in ("ld", "arg")
    ws = [e for e in sg.events if e.kind == "write" and (e.loc[0] == "ld" and paramloc(e.loc) == nm or show(e.loc) == nm and e.loc[0] in ("ld", "arg"))]
    if not ws:
        R.assume("%s: no change of the pending collision was found" % f.q)
        return
    slots = {}
    cmp_ = {}

    def side(t):
        """(collision compared with, address) of a comparison."""
        if t[0] == "op" and t[1] in ("==", "!=") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if iscoll(a):
                    n, base = tail(b)
                    if n and n[0] in ("TBody::kspring", "TBody::force_holder"):
                        return n
        return None

    def iscoll(a, d=0):
        if isc(a) or a == ("c", 0) and False:
            return True
        if a[0] == "phi" and d < 20:
            return a[2][0] in ("ld", "arg") and show(a[2]) == nm
        return False
    for e in sg.events:
        if e.kind == "br":
            for x in subterms(e.val):
                n = side(x)
                if n:
                    cmp_.setdefault(n, []).append(e)
    if not cmp_:
        R.assume("%s: how a pending collision is found was not resolved" % f.q)
        return

    def envof(hit):
        def env(t):
            n = side(t)
            if n:
                return int((n == hit) == (t[1] == "=="))
            if t[0] == "op" and t[1] in ("==", "!="):
                return None
            return None
        return env
    heads = {innermost(sg, e.n) for e in ws}
    if len(heads) != 1 or None in heads:
        R.assume("%s: the loop in which collisions are looked at was not resolved" % f.q)
        return
    h = next(iter(heads))
    wn = {e.n for e in ws}
    cond = lambda env: lambda a, b, l: l != ("eh",) and not contra(sg, a, l, env)
    first = [b for b, l in sg.nodes[h].succ if b in loops(sg)[h]]
    r = sg.reach(first, stop={h}, edges=cond(envof(None)))
    for e in ws:
        R.check(e.n not in r, "collision", e.where(), "other:%s" % show(e.val)[-24:], "%s: a pending collision is %s by a row that it does not belong to" % (f.q, "forgotten" if e.val == ("c", 0) else "changed"),
                "changed by its own row only")
    for n in sorted(cmp_):
        k = ".".join(x.rsplit("::", 1)[1] for x in n)
        at = cmp_[n][0]
        env = envof(n)
        hit = sg.reach(first, stop={h}, edges=cond(env))
        mine = [e for e in ws if e.n in hit]
        vals = {tail(e.val)[0] if e.val != ("c", 0) else () for e in mine}
        want = ("TBody::force_holder",) + n[1:] if n[0] == "TBody::kspring" else ()
        R.check(vals == {want}, "collision", at.where(), "next:%s" % k, "%s: a collision pending as %s becomes %s" % (f.q, k, " or ".join(sorted(".".join(x.rsplit("::", 1)[1] for x in v) or "nothing" for v in vals)) or "nothing new"),
                "%s: next state" % k)
    if cmp_:
        comps = {}
        for n in cmp_:
            comps.setdefault(n[0], set()).add(n[1:])
        R.check(comps.get("TBody::kspring") == set(COMP.values()) == comps.get("TBody::force_holder"), "collision", f.where(), "all", "%s: a pending collision is not looked for in all directions" % f.q, "all directions")


def order(p, a, b):
    """a comes before b on the path."""
    for x in p.evs:
        if x is a:
            return True
        if x is b:
            return False
    return True


def match(rows, cols):
    """None when rows and columns can be matched, or (row index, column) without a partner."""
    got = {}

    def go(r, seen):
        for c in cols:
            if c in rows[r] and c not in seen:
                seen.add(c)
                if c not in got or go(got[c], seen):
                    got[c] = r
                    return True
        return False
    for r in range(len(rows)):
        if not go(r, set()):
            free = [c for c in cols if c not in got]
            return r, free[0] if free else ("?",)
    return None if len(got) == len(cols) else (None, [c for c in cols if c not in got][0])


# ---------------------------------------------------------------- reuse of the matrix

def reuse(P, R, f, fm):
    sg = SG(P, f, inline=lambda g, c: inl(g, c) and g.q != MF + "can_use_inverse", maxdepth=6, maythrow=lambda k: False, itidx=True)
    calls = {e.n: e for e in sg.events if e.kind == "call"}
    fills = [e for e in calls.values() if e.q == MF + "fill_matrix"]
    solves = [e for e in calls.values() if e.q == "Matrix::solveUsingInverseMatrix"]
    sizes = [e for e in calls.values() if e.q == "Matrix::resize"]
    regs = [e for e in calls.values() if e.q == "Matrix::setSolutionForCol"]
    noeh = lambda a, b, l: l != ("eh",)
    for name, l in (("fill_matrix", fills), ("solveUsingInverseMatrix", solves), ("resize", sizes)):
        if not l:
            R.assume("%s: no call of %s" % (f.q, name))
            return
    R.check(sg.exit.i not in sg.reach([sg.entry.i], stop={e.n for e in solves}, edges=noeh), "reuse", solves[0].where(), "solved", "%s: on some path the system is not solved" % f.q, "solved on every path")
    for e in fills + regs:
        R.check(e.n not in sg.reach([sg.entry.i], stop={x.n for x in sizes}, edges=noeh), "square", e.where(), "sized:%s" % e.q.rsplit("::", 1)[1], "%s: %s comes before the size of the matrix is set" % (f.q, e.q), "size set before %s" % e.q)
    # size
    for e in sizes:
        try:
            p = poly(e.args[0])
        except TooBig:
            R.assume("%s: the size was not resolved" % f.q)
            continue
        got = {}
        for m, c in p.m.items():
            if m == ():
                got["constant"] = got.get("constant", 0) + c
            elif len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a[0] == "ret" and a[1] in calls and calls[a[1]].q == "Space::total_segment_count":
                    got["segments"] = c
                elif sizeof(a) and sizeof(a)[0] == "fld" and sizeof(a)[2] == BODYLIST:
                    got["bodies"] = c
                else:
                    got[show(a)] = c
            else:
                got["?"] = c
        if set(got) <= {"constant", "segments", "bodies"}:
            R.check(got == {"segments": 1, "bodies": 9}, "square", e.where(), "size", "%s: the size of the matrix is set to %s" % (f.q, show(e.args[0])), "size: one for each segment and nine for each body")
        else:
            R.assume("%s: the size %s was not resolved" % (f.q, show(e.args[0])[:120]))
    # the short way
    col = [x for e in sg.events if e.kind in ("br", "write") for t in (e.val,) if t is not None for x in subterms(t) if x[0] == "ld" and x[1][0] == "ld" and show(x[1]) in ("collision",)]
    for e in sg.events:
        if e.kind == "br" or e.kind == "write":
            for x in subterms(e.val):
                if x[0] == "ld" and show(x) == "collision" and x[1][0] != "arg":
                    col.append(x)

    def envof(ok, can, coll, time=None):
        def env(t):
            if t[0] == "ret" and t[1] in calls:
                q = calls[t[1]].q
                if q == "TTime::operator double":
                    return time
                if q == "Matrix::bodyMatrixIsOk":
                    return ok
                if q == MF + "can_use_inverse":
                    return can
            if t[0] == "ld" and t[1][0] == "ld" and paramloc(t[1]) == f.params[0]["name"]:
                return coll
            if t[0] == "ld" and t[1] == ("ld", ("arg", f.params[0]["name"])):
                return coll
            return None
        return pathenv(sg, env)
    for e in solves:
        bad = any(e.n in sg.reach([sg.entry.i], stop={x.n for x in fills}, edges=lambda x, y, l: l != ("eh",) and not contra(sg, x, l, ev))
                  for ev in [envof(a, b, c, t) for a in (0, 1) for b in (0, 1) for c in (0, 1) for t in (0., 1.)])
        R.check(not bad, "reuse", e.where(), "filled", "%s: the system is solved without having been filled in" % f.q, "filled before it is solved")
    heads = {innermost(sg, e.n) for e in regs}
    outer = {h for e in regs for h in [loops_around(sg, e.n)[-1][0]] if loops_around(sg, e.n)}
    for why, a in (("the stored matrix is not intact", (0, 1, 0)), ("bodies move or are elastic", (1, 0, 0)), ("a body collides", (1, 1, 1))):
        env = envof(*a)
        edges = lambda x, y, l, env=env: l != ("eh",) and not contra(sg, x, l, env)
        r = sg.reach([sg.entry.i], edges=edges)
        for e in fills:
            if e.n not in r:
                continue
            v = decide(e.args[0], env)
            if v is None and collisionless(sg, a):
                R.assume("%s: the argument of fill_matrix was not resolved" % f.q)
            else:
                R.check(v == 0, "reuse", e.where(), "partial:%s" % why[:20], "%s: only right-hand sides are filled in although %s" % (f.q, why), "matrix filled in when %s" % why)
        if a[0] == 0:
            r2 = sg.reach([sg.entry.i], edges=edges, stop=outer)
            for e in fills:
                R.check(not regs or e.n not in r2, "columns", e.where(), "registered", "%s: the matrix is filled in without the columns having been registered" % f.q, "columns registered before the matrix is filled")
        else:
            for e in solves:
                if e.n in r and e.args:
                    v = decide(e.args[0], env)
                    if v is None:
                        v = decide(e.args[0], envof(*a, time=1.))
                    if v is None:
                        R.assume("%s: the argument of solveUsingInverseMatrix was not resolved" % f.q)
                    else:
                        R.check(v == 0, "reuse", e.where(), "inverse:%s" % why[:20], "%s: the stored inverse is used although %s" % (f.q, why), "inverse not used when %s" % why)


def collisionless(sg, a):
    return True


def rigid(P, R):
    fs = [f for f in P.by_q.get(MF + "can_use_inverse", []) if f.nodes]
    if not fs:
        R.assume("can_use_inverse was not found")
        return
    f = fs[0]
    sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO) and g.cls not in ("Matrix", "TEval", "TTime"), maxdepth=6, maythrow=lambda k: False, itidx=True)
    calls = {e.n: e for e in sg.events if e.kind == "call"}
    L = loops(sg)
    over_ = [h for h in L if (lambda l: l is not None and l[0] == "fld" and l[2] == BODYLIST)(runs(sg, h, L[h]))]
    if not over_:
        one = [e for e in sg.events for t in ([e.val] if e.val is not None else []) + list(e.args or ()) for x in subterms(t)
               for l in [listof(x)] if l and l[0] == "bodies" and fixed(l[2])]
        if not L and one and not any(e.kind == "call" and e.q.startswith("std::") and e.q.endswith("_of") for e in sg.events):
            R.check(False, "reuse", one[0].where(), "rigid:all", "%s: looks at one certain body only" % f.q, "")
        else:
            R.assume("%s: the loop over bodies was not resolved" % f.q)
        return
    body = set()
    for h in over_:
        for e in sg.events:
            if e.kind == "br" and e.n in L[h] and any(b not in L[h] for b, l in sg.nodes[e.n].succ) and any(x[0] == "phi" and x[1] == h for x in subterms(e.val)):
                for b, l in sg.nodes[e.n].succ:
                    if b in L[h]:
                        body |= {n for n in sg.nodes if dominates(sg, b, n)} if isinstance(sg.nodes, dict) else {n for n in range(len(sg.nodes)) if dominates(sg, b, n)}
    COMP = ("x", "y", "o")

    def envof(sp, ks):
        def env(t):
            if t[0] == "ret" and t[1] in calls and calls[t[1]].q == "TEval::eval":
                o = calls[t[1]].obj
                if o is not None and o[0] == "fld" and o[2] in ("TBody::speed_x", "TBody::speed_y", "TBody::speed_o"):
                    return sp.get(o[2][-1], 0.)
            if t[0] == "ret" and t[1] in calls and calls[t[1]].q == "TTime::operator double":
                return 1.
            if t[0] == "ld":
                names, base = tail(t[1])
                if names and names[0] == "TBody::kspring":
                    return ks.get(names[-1][-1], float("inf"))
            return None
        return env
    cases = [("moves along x", {"x": 1.}, {}), ("moves along y", {"y": 1.}, {}), ("turns", {"o": 1.}, {}), ("is elastic along x", {}, {"x": 1.}), ("is elastic along y", {}, {"y": 1.}),
             ("is elastic in rotation", {}, {"o": 1.}), ("moves slowly backwards along x", {"x": -.01}, {}), ("moves against y", {"y": -.01, "x": .01}, {}), ("is free along x", {}, {"x": 0.}), ("is free along y", {}, {"y": 0.}),
             ("is free in rotation", {}, {"o": 0.})]
    for name, sp, ks in cases:
        env = envof(sp, ks)
        bad = unk = None
        n = 0
        for p in paths(sg, env=env, follow_eh=False):
            if p.end[0] != "ret" or not any(e.n in body for e in p.evs):
                continue
            n += 1
            v = decide(p.end[1], env) if p.end[1] is not None else None
            if v is None:
                unk = p
            elif v:
                bad = p
        at = next((e for e in (bad or unk).evs[::-1] if e.kind == "br"), None) if bad or unk else None
        if unk and not bad:
            R.assume("%s: the result when a body %s was not resolved" % (f.q, name))
        else:
            R.check(not bad, "reuse", at.where() if at else f.where(), "rigid:%s" % name, "%s: says that the stored inverse can be used when a body %s" % (f.q, name), "no stored inverse when a body %s (%d paths)" % (name, n))


def total(P, R):
    fs = [f for f in P.by_q.get("Space::total_segment_count", []) if f.nodes]
    if not fs:
        R.assume("total_segment_count was not found")
        return
    f = fs[0]
    sg = SG(P, f, inline=minl, maxdepth=4, maythrow=lambda k: False, itidx=True)
    rets = [e for e in sg.events if e.kind == "ret" and e.ctx == 0]
    if len(rets) != 1 or rets[0].val is None or rets[0].val[0] != "phi":
        R.assume("%s: the sum was not resolved" % f.q)
        return
    ph = rets[0].val
    h = ph[1]
    L = loops(sg)
    if h not in L:
        R.assume("%s: the sum was not resolved" % f.q)
        return
    lst = runs(sg, h, L[h])
    ok = lst is not None and lst[0] == "fld" and lst[2] == BODYLIST
    n = 0
    for p in paths(sg, start=h, within=L[h]):
        if p.end != ("leave", h):
            continue
        v = sg.outs[p.last].get(ph[2])
        v = _resolve(v, p.sub, p.over, sg.outs[p.last]) if v is not None else ph
        try:
            d = poly(v) - Poly.atom(ph)
        except TooBig:
            d = None
        atoms = list(d.m.items()) if d is not None else []
        good = len(atoms) == 1 and atoms[0][1] == 1 and len(atoms[0][0]) == 1 and atoms[0][0][0][1] == 1 and (sizeof(atoms[0][0][0][0]) or ("",) * 3)[2] == "TBody::alist"
        n += 1
        R.check(good, "square", f.where(), "total", "%s: a body adds %s to the number of segments" % (f.q, d), "every body adds its number of segments")
    if lst is not None:
        R.check(ok, "square", f.where(), "total-over", "%s: the sum does not run over the bodies" % f.q, "sum over all bodies")
    if sg.phis.get(ph):
        st = [v for v in sg.phis[ph] if v[0] == "c"]
        R.check(st == [("c", 0)] or not st, "square", f.where(), "total-start", "%s: the sum starts at %s" % (f.q, show(st[0]) if st else ""), "sum starts at 0")


# ---------------------------------------------------------------- class Matrix

def fldname(t, name):
    """The term is the member called name."""
    while t[0] == "ld":
        t = t[1]
    return t[0] == "fld" and t[2] == "Matrix::" + name


def mfn(P, R, name, i=None):
    fs = [f for f in P.by_q.get("Matrix::" + name, []) if f.nodes]
    if not fs:
        R.assume("Matrix::%s was not found" % name)
        return None, None
    return fs[0], SG(P, fs[0], inline=i or minl, maxdepth=5, maythrow=lambda k: False, itidx=True)


def norm_n(p, n0=None):
    return p


def pol(t):
    try:
        return poly(t)
    except TooBig:
        return None


def A(sg, name):
    for e in sg.events:
        for t in [x for x in (e.val, e.loc) if x is not None] + list(e.args or ()):
            for x in subterms(t):
                if x[0] == "ld" and fldname(x, name) and x[1][0] == "fld":
                    return x
    return None


def argof(sg, f, i):
    nm = f.params[i]["name"]
    for e in sg.events:
        for t in [x for x in (e.val, e.loc) if x is not None] + list(e.args or ()):
            for x in subterms(t):
                if (x[0] in ("ld", "arg")) and show(x) == nm:
                    return x
    return None


def matrix(P, R):
    address(P, R)
    lookup(P, R)
    sizes(P, R)
    solve(P, R)
    inverse(P, R)


def address(P, R):
    for name, arr in (("getCell", "BodyMatrix"), ("getRightCol", "RightCol")):
        f, sg = mfn(P, R, name)
        if f is None:
            continue
        N, row, ld_ = A(sg, "N"), argof(sg, f, 0), A(sg, arr)
        calls = {e.n: e for e in sg.events if e.kind == "call"}
        rets = [e for e in sg.events if e.kind == "ret" and e.ctx == 0]
        col = [("ret", e.n) for e in calls.values() if e.q == "Matrix::getColForSolution"]
        if None in (N, row, ld_) or not rets or name == "getCell" and len(col) != 1:
            R.assume("Matrix::%s was not resolved" % name)
            continue
        want = Poly.atom(ld_) + (Poly.atom(row) * Poly.atom(N) + Poly.atom(col[0]) if name == "getCell" else Poly.atom(row))
        for e in rets:
            p = pol(addr(e.val))
            if p is None or not (p.atoms() <= want.atoms() | {x for x in p.atoms() if x[0] in ("ld", "ret", "arg")}):
                R.assume("Matrix::%s: the address %s was not resolved" % (name, show(e.val)[:100]))
                continue
            R.check(p == want, "matrix", e.where(), name, "Matrix::%s: the address is %s" % (name, show(e.val)), "Matrix::%s: address" % name)
        if name == "getCell":
            c = calls[col[0][1]]
            R.check(show(c.args[0]) == f.params[1]["name"], "matrix", c.where(), "getCell:col", "Matrix::getCell: the column is looked up for %s" % show(c.args[0]), "column of the unknown asked for")
        # limits
        for what, v in (("row", {"row": 4, "col": 0}), ("col", {"row": 0, "col": 4}), ("both", {"row": 3, "col": 3})):
            if name == "getRightCol" and what == "col":
                continue
            env = lambda t: 4 if t == N else v["row"] if t == row else v["col"] if t in col else None
            ps = [p for p in paths(sg, env=env, follow_eh=False) if p.end[0] == "ret"]
            ps = [p for p in ps if not any(e.kind == "call" and e.q in ("exit", "abort", "std::abort", "std::exit") for e in p.evs)]
            if what == "both":
                R.check(bool(ps), "matrix", f.where(), name + ":last", "Matrix::%s: the last element cannot be reached" % name, "Matrix::%s: last element" % name)
            else:
                R.check(not ps, "matrix", f.where(), name + ":" + what, "Matrix::%s: a %s beyond the last one gives an address" % (name, "row" if what == "row" else "column"), "Matrix::%s: %s checked" % (name, what))


def addr(t):
    """Address of an element as base + index."""
    if t[0] == "el":
        return ("op", "+", t[1], t[2])
    return t


def lookup(P, R):
    f, sg = mfn(P, R, "setSolutionForCol")
    if f is not None:
        col, ptr = f.params[0]["name"], f.params[1]["name"]
        a, b, other = set(), set(), False
        for e in sg.events:
            if e.kind == "write" and e.loc[0] in ("el", "fld"):
                l = e.loc
                if l[0] == "el" and l[1][0] == "fld" and l[1][2] == "Matrix::solution_ptr":
                    if show(l[2]) == col and show(e.val) == ptr:
                        a.add(e.n)
                    elif show(l[2]) == col or show(e.val) == ptr:
                        R.check(False, "matrix", e.where(), "set:ptr", "Matrix::setSolutionForCol: stores %s for column %s" % (show(e.val), show(l[2])), "")
                elif l[0] == "el" and l[1][0] == "fld" and l[1][2] == "Matrix::solution_idx":
                    if show(l[2]) == ptr and show(e.val) == col:
                        b.add(e.n)
                    else:
                        R.check(False, "matrix", e.where(), "set:idx", "Matrix::setSolutionForCol: stores %s as the column of %s" % (show(e.val), show(l[2])), "")
                else:
                    other = True
            elif e.kind == "call" and e.obj is not None and e.obj[0] == "fld" and e.obj[2] in ("Matrix::solution_idx", "Matrix::solution_ptr") and e.q.rsplit("::", 1)[1] in ("insert", "emplace", "assign", "swap", "insert_or_assign"):
                other = True
        for s_, what in ((a, "ptr"), (b, "idx")):
            if not s_ and other:
                R.assume("Matrix::setSolutionForCol: an assignment was not resolved")
                continue
            R.check(bool(s_) and sg.exit.i not in sg.reach([sg.entry.i], stop=s_, edges=lambda x, y, l: l != ("eh",)), "matrix", f.where(), "set:%s:all" % what,
                    "Matrix::setSolutionForCol: on some path the %s is not noted" % ("unknown of the column" if what == "ptr" else "column of the unknown"), "both directions noted")
        for e in sg.events:
            if e.kind == "call" and e.obj is not None and e.obj[0] == "fld" and e.obj[2] == "Matrix::solution_idx" and e.q.endswith("::erase"):
                R.check(not (sg.reach([sg.after(x)] if isinstance(sg.after(x), int) else sg.after(x)) & {e.n} for x in b) if False else not any(e.n in sg.reach(sg.after(x)) for x in b), "matrix", e.where(), "set:erase",
                        "Matrix::setSolutionForCol: the column is forgotten after it was noted", "nothing forgotten after it was noted")
    f, sg = mfn(P, R, "getColForSolution")
    if f is not None:
        rets = [e for e in sg.events if e.kind == "ret" and e.ctx == 0]
        finds = [e for e in sg.events if e.kind == "call" and e.q == "std::map::find"]
        if not finds or not rets:
            R.assume("Matrix::getColForSolution was not resolved")
        for e in finds:
            R.check(show(e.args[0]) == f.params[0]["name"], "matrix", e.where(), "find", "Matrix::getColForSolution: looks for %s" % show(e.args[0]), "looks for the unknown asked for")

        def env(found):
            def g(t):
                if t[0] == "op" and t[1] in ("==", "!=") and len(t) == 4 and all(x[0] == "it" for x in t[2:]):
                    return int(found == (t[1] == "!="))
                return None
            return g
        for found in (1, 0):
            for p in paths(sg, env=env(found), follow_eh=False):
                if p.end[0] != "ret" or p.end[1] is None:
                    continue
                v = p.end[1]
                while v[0] == "ite":
                    c = decide(v[1], env(found))
                    if c is None:
                        break
                    v = v[2] if c else v[3]
                if v[0] == "ite" or not finds:
                    R.assume("Matrix::getColForSolution: the result was not resolved")
                elif found:
                    R.check(show(v).endswith(".second") and v[0] == "ld", "matrix", rets[0].where(), "found", "Matrix::getColForSolution: the result for a known unknown is %s" % show(v), "column of a known unknown")
                else:
                    c = decide(v, lambda t: None)
                    R.check(c is not None and (c < 0 or c >= 2**31 - 1), "matrix", rets[0].where(), "unknown", "Matrix::getColForSolution: the result for something that is not an unknown is %s" % show(v), "no column for something else")


def sizes(P, R):
    f, sg = mfn(P, R, "resize")
    if f is None:
        return
    new = None
    for e in sg.events:
        if e.kind == "write" and fldname(e.loc, "N"):
            new = e
    if new is None:
        R.assume("Matrix::resize was not resolved")
        return
    n = Poly.atom(new.val)
    R.check(show(new.val) == f.params[0]["name"], "matrix", new.where(), "resize:N", "Matrix::resize: the size becomes %s" % show(new.val), "size noted")
    need = {"BodyMatrix": n * n * Poly.const(8), "InverseMatrix": n * n * Poly.const(8), "RightCol": n * Poly.const(8)}
    wr = {}
    calls = {e.n: e for e in sg.events if e.kind == "call"}
    for e in sg.events:
        if e.kind == "write" and e.loc[0] == "fld" and e.loc[2].startswith("Matrix::"):
            wr.setdefault(e.loc[2][8:], []).append(e)
    for k, w in need.items():
        for e in wr.get(k, []):
            c = calls.get(e.val[1]) if e.val[0] == "ret" else None
            if c is None or c.q not in ("realloc", "malloc", "calloc"):
                continue
            p = pol(c.args[-1]) if c.q != "calloc" else None
            if p is None:
                R.assume("Matrix::resize: the size of %s was not resolved" % k)
                continue
            R.check(p == w, "matrix", e.where(), "resize:" + k, "Matrix::resize: %s gets %s bytes" % (k, show(c.args[-1])), "size of %s" % k)
    for e in sg.events:
        if e.kind == "call" and e.q == "std::vector::resize" and e.obj is not None and fldname(e.obj, "solution_ptr"):
            R.check(pol(e.args[0]) == n, "matrix", e.where(), "resize:ptr", "Matrix::resize: solution_ptr gets %s elements" % show(e.args[0]), "size of solution_ptr")
    ok = {e.n for e in wr.get("bodyMatrixIsOk_", []) if e.val in (("c", 0), ("c", False))}
    r = sg.reach(sg.after(new.n), stop=ok)
    before = any(new.n in sg.reach(sg.after(x)) for x in ok)
    R.check(before or sg.exit.i not in r, "reuse", f.where(), "resize:flag", "Matrix::resize: a matrix of another size still counts as filled", "matrix of another size does not count as filled")
    N0 = A(sg, "N")
    env = lambda t: 3 if t == N0 else 5 if t == new.val else None
    ps = [p for p in paths(sg, env=env, follow_eh=False) if p.end[0] == "ret"]
    R.check(all(any(e.n == new.n for e in p.evs) for p in ps), "matrix", f.where(), "resize:always", "Matrix::resize: another size is not taken over", "another size is taken over")
    f, sg = mfn(P, R, "fillWithZeros")
    if f is None:
        return
    n = A(sg, "N")
    ms = [e for e in sg.events if e.kind == "call" and e.q == "memset" and fldname(e.args[0], "BodyMatrix")]
    if not ms or n is None:
        R.assume("Matrix::fillWithZeros was not resolved")
    for e in ms:
        w = Poly.atom(n) * Poly.atom(n) * Poly.const(8)
        R.check(pol(e.args[2]) == w and e.args[1] == ("c", 0), "matrix", e.where(), "zeros", "Matrix::fillWithZeros: sets %s bytes to %s" % (show(e.args[2]), show(e.args[1])), "whole matrix cleared")


def indexed(sg, e):
    """(array term, index) of a value read from an array."""
    v = e.val
    if v[0] == "fv" and len(v) == 3:
        return v[1], v[2]
    if v[0] == "ld" and v[1][0] == "el":
        return v[1][1], v[1][2]
    return None


def solve(P, R):
    f, sg = mfn(P, R, "solveUsingInverseMatrix", lambda g, c: minl(g, c) and g.q not in ("Matrix::FillInverseMatrix", "Matrix::transpose"))
    if f is None:
        return
    calls = {e.n: e for e in sg.events if e.kind == "call"}
    gemv = [e for e in calls.values() if e.q == "cblas_dgemv"]
    gesv = [e for e in calls.values() if e.q == "dgesv_"]
    N = A(sg, "N")
    noeh = lambda a, b, l: l != ("eh",)
    back = []
    for e in sg.events:
        if e.kind != "write":
            continue
        l = e.loc
        while l[0] == "ld":
            l = l[1]
        if l[0] == "el" and l[1][0] == "fld" and l[1][2] == "Matrix::solution_ptr":
            back.append((e, l[2]))
    if not back or not (gemv or gesv):
        R.assume("Matrix::solveUsingInverseMatrix was not resolved")
        return
    src = set()
    for e, i in back:
        x = indexed(sg, e)
        if x is None or i[0] != "phi":
            R.assume("Matrix::solveUsingInverseMatrix: %s was not resolved" % show(e.val)[:80])
            continue
        R.check(x[1] == i, "matrix", e.where(), "back:index", "Matrix::solveUsingInverseMatrix: the unknown of column %s gets element %s of the solution" % (show(i), show(x[1])), "element of the own column read back")
        st, steps, bounds = index_cover(sg, i)
        R.check(set(st) <= {("c", 0)} and steps == {("+", 1)} and any(op in ("<", "!=") and b == N for op, b in bounds), "matrix", e.where(), "back:all",
                "Matrix::solveUsingInverseMatrix: the loop that reads the solution back does not run over all columns", "all columns read back")
        a = x[0]
        if a[0] == "out" and a[1] in calls:
            c = calls[a[1]]
            ok = c.q == "cblas_dgemv" and a[2] == 10 or c.q == "dgesv_" and a[2] == 5
            R.check(ok, "matrix", e.where(), "back:from", "Matrix::solveUsingInverseMatrix: what is read back is not the solution of %s" % c.q, "the solution of %s is read back" % c.q)
            src.add(a[1])
        elif fldname(a, "RightCol") or a[0] == "new":
            R.check(False, "matrix", e.where(), "back:from", "Matrix::solveUsingInverseMatrix: what is read back (%s) is not the solution" % show(a), "")
        else:
            R.assume("Matrix::solveUsingInverseMatrix: %s was not resolved" % show(a)[:80])
    heads = {h for e, i in back for h in [i[1]] if i[0] == "phi"}
    if all(i[0] == "phi" for e, i in back):
        R.check(sg.exit.i not in sg.reach([sg.entry.i], stop=heads, edges=noeh), "matrix", f.where(), "back:paths", "Matrix::solveUsingInverseMatrix: on some path the solution is not read back", "solution read back on every path")
    for e in gemv:
        a = e.args
        n = lambda i: a[i] == N
        good = a[0] == ("c", 101) and a[1] == ("c", 111) and n(2) and n(3) and a[4] in (("c", 1), ("c", 1.0)) and fldname(a[5], "InverseMatrix") and n(6) and fldname(a[7], "RightCol") and \
            a[8] == ("c", 1) and a[9] in (("c", 0), ("c", 0.0)) and a[11] == ("c", 1)
        R.check(good, "matrix", e.where(), "gemv", "Matrix::solveUsingInverseMatrix: the solution is not the product of the stored inverse (by rows) with the right-hand sides", "product of the inverse with the right-hand sides")
        fi = {x.n for x in calls.values() if x.q == "Matrix::FillInverseMatrix"}
        R.check(e.n not in sg.reach([sg.entry.i], stop=fi, edges=noeh), "reuse", e.where(), "inverse", "Matrix::solveUsingInverseMatrix: the inverse is used without having been brought up to date", "inverse brought up to date")
    tr = {x.n for x in calls.values() if x.q == "Matrix::transpose"}
    for e in gesv:
        a = e.args
        st = prestate(sg, e.n)
        val = lambda t: st.get(t, t)
        good = val(a[0]) == N and val(a[1]) == ("c", 1) and fldname(a[2], "BodyMatrix") and val(a[3]) == N and fldname(a[5], "RightCol") and val(a[6]) == N
        R.check(good, "matrix", e.where(), "gesv", "Matrix::solveUsingInverseMatrix: dgesv_ is not called with the matrix, one right-hand side and their sizes", "matrix and right-hand sides solved")
        t = [x for x in calls.values() if x.q == "Matrix::transpose"]
        if t:
            R.check(e.n not in sg.reach([sg.entry.i], stop=tr, edges=noeh) and len([x for x in t if e.n in sg.reach(sg.after(x.n))]) == 1, "matrix", e.where(), "transposed", "Matrix::solveUsingInverseMatrix: the matrix is not turned from rows to columns once", "matrix transposed once")
        elif not any(x.kind == "write" and any(fldname(y, "BodyMatrix") for y in subterms(x.loc)) for x in sg.events) and \
                not any(x is not e and x.n != e.n and any(fldname(y, "BodyMatrix") for b in x.args or () for y in subterms(b)) for x in calls.values() if e.n in sg.reach(sg.after(x.n))):
            R.check(False, "matrix", e.where(), "transposed", "Matrix::solveUsingInverseMatrix: the matrix is not turned from rows to columns", "")
        else:
            R.assume("Matrix::solveUsingInverseMatrix: the order of the elements for dgesv_ was not resolved")
    destroyed(R, f, sg, calls)
    # only a filled matrix is solved
    flag = A(sg, "bodyMatrixIsOk_")
    if flag is not None and gesv:
        env = lambda t: 0 if t == flag else None
        r = sg.reach([sg.entry.i], edges=lambda a, b, l: not contra(sg, a, l, env))
        R.check(not any(e.n in r for e in gesv), "reuse", gesv[0].where(), "solve:flag", "Matrix::solveUsingInverseMatrix: a matrix that is not filled in is solved", "only a filled matrix is solved")
    elif gesv:
        R.check(False, "reuse", gesv[0].where(), "solve:flag", "Matrix::solveUsingInverseMatrix: a matrix that is not filled in is solved", "")
    g, sg = mfn(P, R, "transpose")
    if g is not None:
        ws = [e for e in sg.events if e.kind == "write" and e.loc[0] == "el" or e.kind == "write" and e.loc[0] == "op"]
        got = []
        for e in ws:
            x = indexed(sg, e)
            lo = pol(addr(e.loc))
            got.append((lo, e.val))
        pos = [p for p, v in got]
        if len(pos) == 2 and None not in pos:
            at = {x for p in pos for x in p.atoms() if x[0] == "phi"}
            i, j = (sorted(at, key=repr) + [None, None])[:2]
            if j is not None:
                sw = lambda p: p.subst(lambda a: Poly.atom(j) if a == i else Poly.atom(i) if a == j else None)
                R.check(sw(pos[0]) == pos[1], "matrix", ws[0].where(), "transpose", "Matrix::transpose: exchanges %s with %s" % (pos[0], pos[1]), "elements exchanged across the diagonal")
                span(R, sg, g, i, j, ws[0])


def span(R, sg, g, i, j, at):
    """Every pair of different indices is visited exactly once."""
    cov = {x: index_cover(sg, x) for x in (i, j)}
    out, in_ = (i, j) if not any(y == j for s in list(cov[i][0]) + [b for o, b in cov[i][2]] for y in subterms(s)) else (j, i)
    n = next((x for x in [b for o, b in cov[out][2]] if show(x) == g.params[-1]["name"]), None)

    def rng(x, vals):
        st, steps, bounds = cov[x]
        st = [s for s in st if s != x]
        if len(st) != 1 or steps != {("+", 1)}:
            return None
        env = lambda t: vals.get(t)
        a = decide(st[0], env)
        if a is None:
            return None
        r, seen = [], False
        for op, b in bounds:
            v = decide(b, env)
            if v is None:
                # the counter may stand on the left with something added
                return None
            if op not in ("<", "!=", "<="):
                return None
            seen = True
            m = int(v) + (op == "<=")
            r = [k for k in range(int(a), m)] if not r else [k for k in r if k < m]
        return r if seen else None
    if n is None:
        bs = [b for o, b in cov[out][2]]
        n = bs[0] if len(bs) == 1 and bs[0][0] in ("ld", "arg") else None
    if n is None:
        R.assume("Matrix::transpose: the loops were not resolved")
        return
    got = []
    for N in (1, 2, 5):
        ra = rng(out, {n: N})
        if ra is None:
            R.assume("Matrix::transpose: the loops were not resolved")
            return
        pairs = []
        for a in ra:
            rb = rng(in_, {n: N, out: a})
            if rb is None:
                R.assume("Matrix::transpose: the loops were not resolved")
                return
            pairs += [frozenset((a, b)) for b in rb if a != b]
        want = {frozenset((a, b)) for a in range(N) for b in range(a)}
        got.append(len(pairs) == len(set(pairs)) and set(pairs) == want)
    R.check(all(got), "matrix", at.where(), "transpose:all", "Matrix::transpose: not every element is exchanged with its counterpart exactly once", "all pairs exchanged once")


def destroyed(R, f, sg, calls):
    """The matrix does not count as filled after it was overwritten."""
    bad = []
    for c in calls.values():
        for i, a in enumerate(c.args or ()):
            if fldname(a, "BodyMatrix") and c.inl is None and (c.q, i) in (("dgesv_", 2), ("dgetri_", 4), ("dgetri_", 1), ("dgetrf_", 2), ("Matrix::transpose", 0), ("memset", 0), ("memcpy", 0)):
                bad.append(c)
    ok = {e.n for e in sg.events if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == "Matrix::bodyMatrixIsOk_" and e.val == ("c", 0)}
    on = {e.n for e in sg.events if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == "Matrix::bodyMatrixIsOk_" and e.val != ("c", 0)}
    for c in bad:
        late = sg.exit.i in sg.reach(sg.after(c.n), stop=ok, edges=lambda a, b, l: l != ("eh",))
        early = sg.entry.i is not None and c.n not in sg.reach([sg.entry.i], stop=ok)
        R.check(not late or early, "reuse", c.where(), "destroyed:%s" % c.q, "%s: %s overwrites the matrix, which still counts as filled" % (f.q, c.q), "%s: not filled after %s" % (f.q, c.q))


def inverse(P, R):
    f, sg = mfn(P, R, "FillInverseMatrix")
    if f is None:
        return
    calls = {e.n: e for e in sg.events if e.kind == "call"}
    N = A(sg, "N")
    trf = [e for e in calls.values() if e.q == "dgetrf_"]
    tri = [e for e in calls.values() if e.q == "dgetri_"]
    cp = [e for e in calls.values() if e.q == "memcpy" and fldname(e.args[0], "InverseMatrix")]
    if not trf or not tri or not cp or N is None:
        R.assume("Matrix::FillInverseMatrix was not resolved")
        return
    noeh = lambda a, b, l: l != ("eh",)
    w = Poly.atom(N) * Poly.atom(N) * Poly.const(8)
    for e in cp:
        R.check(fldname(e.args[1], "BodyMatrix") and pol(e.args[2]) == w, "matrix", e.where(), "inverse:copy", "Matrix::FillInverseMatrix: %s bytes of %s are copied" % (show(e.args[2]), show(e.args[1])), "whole matrix copied")
    for e in trf:
        R.check(fldname(e.args[2], "InverseMatrix"), "matrix", e.where(), "inverse:trf", "Matrix::FillInverseMatrix: dgetrf_ works on %s" % show(e.args[2]), "copy decomposed")
        R.check(e.n not in sg.reach([sg.entry.i], stop={x.n for x in cp}, edges=noeh), "matrix", e.where(), "inverse:order1", "Matrix::FillInverseMatrix: decomposes before the matrix is copied", "copied before")
    for e in tri:
        R.check(fldname(e.args[1], "InverseMatrix"), "matrix", e.where(), "inverse:tri", "Matrix::FillInverseMatrix: dgetri_ works on %s" % show(e.args[1]), "copy inverted")
        R.check(e.n not in sg.reach([sg.entry.i], stop={x.n for x in trf}, edges=noeh), "matrix", e.where(), "inverse:order2", "Matrix::FillInverseMatrix: inverts before the decomposition", "decomposed before")
    destroyed(R, f, sg, calls)
    # left early only for the same matrix
    hs = [e for e in calls.values() if e.q == "Matrix::SuperFastHash"]
    old = [x for e in sg.events if e.kind == "br" for x in subterms(e.val) if x[0] == "ld" and fldname(x, "bodyMatrixHash_")]
    if len(hs) != 1 or not old:
        R.assume("Matrix::FillInverseMatrix: the comparison with the stored inverse was not resolved")
        return
    h = hs[0]
    R.check(fldname(h.args[0], "BodyMatrix") and pol(h.args[1]) == w, "reuse", h.where(), "hash:all", "Matrix::FillInverseMatrix: %s bytes of %s are compared" % (show(h.args[1]), show(h.args[0])), "whole matrix compared")
    flag = A(sg, "bodyMatrixIsOk_")
    env = lambda t: 7 if t == ("ret", h.n) else 8 if t in old else 1 if t == flag else None
    r = sg.reach([sg.entry.i], stop={e.n for e in tri}, edges=lambda a, b, l: l != ("eh",) and not contra(sg, a, l, env))
    R.check(sg.exit.i not in r, "reuse", h.where(), "hash:differs", "Matrix::FillInverseMatrix: the stored inverse is kept although the matrix is another one", "inverse computed for another matrix")
    ws = [e for e in sg.events if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == "Matrix::bodyMatrixHash_"]
    R.check(bool(ws) and all(e.val == ("ret", h.n) for e in ws), "reuse", ws[0].where() if ws else f.where(), "hash:noted", "Matrix::FillInverseMatrix: what is noted for the stored inverse is %s" % (show(ws[0].val) if ws else "nothing"), "noted for which matrix the inverse is")
    for e in tri + trf:
        R.check(not (h.n in sg.reach(sg.after(e.n))), "reuse", h.where(), "hash:late", "Matrix::FillInverseMatrix: the matrix is compared after it was overwritten", "")
    env0 = lambda t: 0 if t == flag else None
    if flag is not None:
        r = sg.reach([sg.entry.i], edges=lambda a, b, l: not contra(sg, a, l, env0))
        R.check(not any(e.n in r for e in cp + trf), "reuse", f.where(), "inverse:flag", "Matrix::FillInverseMatrix: a matrix that is not filled in is inverted", "only a filled matrix is inverted")
