"""Path-sensitive value flow over a supergraph.

Every acyclic way through the graph (each edge at most once, so loop bodies are
seen once with their induction values left as merges) is followed with the
merges resolved to the value that comes along the edge walked; branches whose
condition the known values decide are followed one way only."""
from .sg import decide, subterms, is_term_loc, show, root
from .lib import under, loops
from .prog import AnalysisError


class PEv:
    __slots__ = ("e", "kind", "q", "args", "obj", "loc", "val", "n", "info", "inl", "label", "key", "op")

    def __init__(self, e, R):
        self.e = e
        self.kind, self.q, self.n, self.info, self.inl, self.key, self.op = e.kind, e.q, e.n, e.info, e.inl, e.key, e.op
        self.args = [R(a) for a in e.args] if e.args else []
        self.obj = R(e.obj) if e.obj is not None else None
        self.loc = R(e.loc) if e.loc is not None else None
        self.val = R(e.val) if e.val is not None else None
        self.label = None

    def where(self):
        return self.e.where()

    def __repr__(self):
        if self.kind == "call":
            return "call %s(%s%s)" % (self.q, ("obj=%s; " % show(self.obj)) if self.obj else "", ", ".join(show(a) for a in self.args))
        if self.kind == "write":
            return "write %s = %s" % (show(self.loc), show(self.val))
        return "%s %s %s" % (self.kind, show(self.val) if self.val else "", self.label or "")


class Path:
    def __init__(self, evs, end, sub, over, last):
        self.evs, self.end, self.sub, self.over, self.last = evs, end, sub, over, last

    def resolve(self, t, state=None):
        return _resolve(t, self.sub, self.over, state)

    def final(self, sg, loc):
        """{sub-path: value} of what is known below loc where the path returns."""
        st = sg.outs[self.last]
        out = {}
        for k, v in st.items():
            p = under(loc, k)
            if p is None and k[0] in ("fld", "el"):
                p = under(loc, self.resolve(k, st))
            if p is not None:
                out[p] = self.resolve(v, st)
        for k, v in self.over.items():
            p = under(loc, k)
            if p is not None:
                out[p] = v
        if len(out) > 1:
            for p in list(out):
                if any(q != p and q[:len(p)] == p for q in out):
                    del out[p]
        return out

    def calls(self, *qs):
        return [e for e in self.evs if e.kind == "call" and e.q in qs]

    def writes(self):
        return [e for e in self.evs if e.kind == "write"]


def _resolve(t, sub, over, st=None, d=0):
    if d > 60 or not isinstance(t, tuple) or not t:
        return t
    v = sub.get(t)
    if v is not None:
        return v
    k = t[0]
    if k in ("c", "s", "fn", "loc", "tmp", "g", "arg", "ret", "out", "new", "undef", "zero", "e"):
        return t
    if k == "phi":
        return t
    if k == "ld":
        l = _resolve(t[1], sub, over, st, d + 1)
        v = over.get(l)
        if v is None and st is not None and l != t[1] and root(l)[0] in ("loc", "tmp"):
            v = st.get(l)
            if v is not None:
                v = _resolve(v, sub, over, st, d + 1)
        return v if v is not None else ("ld", l)
    r = tuple(_resolve(x, sub, over, st, d + 1) if isinstance(x, tuple) else x for x in t)
    if r[0] == "ite":
        c = decide(r[1], lambda x: None)
        if c is not None:
            return r[2] if c else r[3]
    return r


def inductive(sg, p):
    """The merge depends on itself (a value carried round a loop)."""
    c = sg.__dict__.setdefault("_induct", {})
    if p in c:
        return c[p]
    seen, st = set(), list(sg.phis.get(p, ()))
    r = False
    while st:
        x = st.pop()
        for y in subterms(x):
            if y == p:
                r = True
                st = []
                break
            if y[0] == "phi" and y in sg.phis and y not in seen:
                seen.add(y)
                st.extend(sg.phis[y])
    c[p] = r
    return r


def paths(sg, env=None, start=None, limit=20000, keep=None, follow_eh=True, within=None, merges=False):
    """All paths as Path objects.  env(resolved term) -> number or None.  within: a set of nodes; a path ends ("leave", node) where it
    leaves the set or comes back to start (one round of a loop).  merges: merges inside a round are resolved too, also of values carried
    from round to round (only those at the heads of loops stay)."""
    heads_ = set(loops(sg)) if merges else ()
    env0 = env or (lambda t: None)

    def env(t):
        v = env0(t)
        if v is None and t[0] in ("loc", "tmp"):
            return 1        # the address of an object
        return v
    phiat, indat = {}, {}
    for p in sg.phis:
        if not inductive(sg, p) or merges and p[1] not in heads_:
            phiat.setdefault(p[1], []).append(p)
        else:
            indat.setdefault(p[1], []).append(p)
    leaves = {}

    def leaves_loop(s, head):
        """The edge target s cannot come back to the loop head."""
        if (s, head) not in leaves:
            leaves[(s, head)] = head not in sg.reach([s])
        return leaves[(s, head)]
    out = []
    s0 = sg.entry.i if start is None else start
    work = [(s0, {}, {}, (), frozenset(), {})]
    steps = 0
    while work:
        x, sub, over, trail, used, first = work.pop()
        while True:
            steps += 1
            if steps > 400 * limit:
                raise AnalysisError("too many paths through " + sg.rootfn.q)
            R = lambda t: _resolve(t, sub, over, sg.outs.get(x))
            nd = sg.nodes[x]
            res = None
            brev = None
            for e in sg.ev_at.get(x, ()):
                if keep is not None and not keep(e):
                    continue
                pe = PEv(e, R)
                trail = (trail, pe)
                if e.kind == "write" and pe.loc != e.loc:
                    over = dict(over)
                    over[pe.loc] = pe.val
                elif e.kind == "write" and pe.loc in over:
                    over = dict(over)
                    over[pe.loc] = pe.val
                if e.kind == "br":
                    res = decide(pe.val, env)
                    brev = pe
            # a loop's test holds the first time when it holds for the start value
            firstv, heads = None, ()
            if brev is not None and res is None and first:
                heads = [y[1] for y in subterms(brev.val) if y in first]
                if heads:
                    firstv = decide(brev.val, lambda t: first[t] if t in first else env(t))
            succ = []
            for s, l in nd.succ:
                if (x, s) in used:
                    continue
                if firstv is not None and isinstance(l, tuple) and l[0] == "br" and bool(firstv) != l[1] and all(leaves_loop(s, h) for h in heads):
                    continue
                if l == ("eh",) and not follow_eh:
                    continue
                if res is not None and isinstance(l, tuple):
                    if l[0] == "br" and bool(res) != l[1]:
                        continue
                    if l[0] == "case" and l[1] is not None and int(l[1]) != int(res):
                        continue
                    if l[0] == "default" and any(k[0] == "case" and k[1] is not None and int(k[1]) == int(res)
                                                 for _, k in nd.succ if isinstance(k, tuple)):
                        continue
                succ.append((s, l))
            if not succ:
                if x in (sg.exit.i, sg.xexit.i):
                    evs = []
                    t = trail
                    while t:
                        evs.append(t[1])
                        t = t[0]
                    evs.reverse()
                    rets = [e for e in evs if e.kind == "ret" and e.e.ctx == 0]
                    if x == sg.exit.i:
                        end = ("ret", rets[-1].val if rets else None)
                    else:
                        end = ("raise",)
                    out.append(Path(evs, end, sub, over, rets[-1].n if rets else x))
                    if len(out) > limit:
                        raise AnalysisError("too many paths through " + sg.rootfn.q)
                break
            nxt = []
            for s, l in succ:
                sub2 = sub
                first2 = first
                for p in indat.get(s, ()):
                    v = sg.outs.get(x, {}).get(p[2])
                    v = _resolve(v, sub, over, sg.outs.get(x)) if v is not None else None
                    if v is not None and v[0] == "c" and p not in first:
                        first2 = dict(first2)
                        first2[p] = v[1]
                    elif p in first2:
                        first2 = dict(first2)
                        del first2[p]
                ph = phiat.get(s)
                if ph:
                    o = sg.outs.get(x, {})
                    sub2 = dict(sub)
                    for p in ph:
                        v = o.get(p[2])
                        if v is None:
                            v = ("undef",) if p[2][0] in ("loc", "tmp") else ("ld", p[2])
                        sub2[p] = _resolve(v, sub, over, o)
                tr = trail
                if brev is not None and l is not None:
                    b2 = PEv.__new__(PEv)
                    for a in PEv.__slots__:
                        setattr(b2, a, getattr(brev, a))
                    b2.label = l
                    # replace the branch event (last of the node)
                    tr = (_drop(trail, brev), b2)
                if l == ("eh",) and s != sg.xexit.i:
                    m = PEv.__new__(PEv)
                    for a in PEv.__slots__:
                        setattr(m, a, None)
                    m.kind, m.n = "eh", x
                    tr = (tr, m)
                nxt.append((s, sub2, over, tr, used | {(x, s)} if len(succ) > 1 or len(sg.nodes[s].pred) > 1 else used, first2))
            if within is not None:
                for c in [c for c in nxt if c[0] == s0 or c[0] not in within]:
                    evs, t = [], c[3]
                    while t:
                        evs.append(t[1])
                        t = t[0]
                    evs.reverse()
                    out.append(Path(evs, ("leave", c[0]), c[1], c[2], x))
                nxt = [c for c in nxt if c[0] != s0 and c[0] in within]
                if len(out) > limit:
                    raise AnalysisError("too many paths through " + sg.rootfn.q)
                if not nxt:
                    break
            work.extend(nxt[1:])
            x, sub, over, trail, used, first = nxt[0]
    return out


def _drop(trail, ev):
    if trail and trail[1] is ev:
        return trail[0]
    return trail
