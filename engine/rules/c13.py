"""C13 Parallel computation is race free and gives the serial result."""
import itertools
import re
from vv.sg import SG, show, subterms, decide, root
from vv.lib import chain, guards, forkmap, loop_of_phi, loops_around, over

TECHNIQUE = "access sets of every parallel loop over the inlined call graph, dependence test of the written locations, lockset of critical sections"
NOTE = """Every parallel region of the sources is analysed with all callees inlined. Each location a worksharing loop writes must be
private to the iteration (a local of the loop body or of a callee, the element its own loop variable selects, an array cell whose index is
shown to differ between iterations by a dependence test over the extracted index terms), or be touched only inside one critical section.
Two iterations may not meet on a location one of them writes. What critical sections collect in encounter order has to be sorted before it
is used. Assumed and listed: particle ranges of distinct tree nodes are disjoint, the unknowns' addresses registered in the matrix differ,
BLAS and LAPACK are deterministic."""

READERS = set("""size length empty begin end cbegin cend rbegin rend front back at data find count lower_bound upper_bound c_str compare
substr lock get operator* operator-> operator[] operator== operator!= operator< operator+ operator- expired use_count operator bool
capacity max_size str top peek get_deleter owner_before first second what real imag""".split())
UNSAFE = re.compile(r"^(rand|srand|random|drand48|strtok|localtime|gmtime|ctime|asctime|strerror|setlocale|tmpnam|lua_.*|luaL_.*|H5.*|chdir|"
                    r"umask|setenv|putenv|fopen|fprintf|printf|fputs|puts|fwrite|exit|std::exit|std::rand|std::shuffle)$")
NORET = ("exit", "abort", "std::exit", "std::abort")
APPEND = ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "append", "push")


def private(loc, inreg):
    """Is the object a local of the region (or of a function called from it)?"""
    x = loc
    while x[0] in ("fld", "el"):
        x = x[1]
    return x[0] in ("loc", "tmp", "new") and inreg(x)


class Region:
    def __init__(self, P, f, i, n):
        self.P, self.f, self.i, self.n = P, f, i, n
        self.inside = set(f.walk(n["body"]))
        todo = [k for nid in self.inside for k in [f.nodes[nid].get("callee")] if k]
        todo += [f.nodes[nid].get("fn") for nid in self.inside if f.nodes[nid].get("fn")]
        clo = set()
        while todo:
            k = todo.pop()
            if k in clo or k not in P.fns:
                continue
            clo.add(k)
            for nid, nd, d in P.fns[k].calls():
                if nd.get("callee"):
                    todo.append(nd["callee"])
            for nd in P.fns[k].nodes:
                if nd.get("fn"):
                    todo.append(nd["fn"])
        self.clo = clo
        self.sg = SG(P, f, inline=lambda g, c: g.key in clo, maxdepth=14, reads=True, maythrow=lambda k: False, assume=lambda t: None)
        self.pos = {}
        self.priv = set()
        for c in n.get("clauses", ()):
            self.clause(c)
        for nid in self.inside:
            nd = f.nodes[nid]
            if nd["k"].startswith("OMP"):
                for c in nd.get("clauses", ()):
                    self.clause(c)
        self.locals = set()
        for nid in self.inside:
            nd = f.nodes[nid]
            if nd["k"] == "DeclStmt":
                for v in nd["vars"]:
                    if not v.get("static"):
                        self.locals.add(v["d"])
            if nd.get("k") == "CXXCatchStmt" and nd.get("d"):
                self.locals.add(nd["d"])
        # worksharing loops: (directive node, [loop statement], nowait)
        self.ws = []
        if "For" in n["k"]:
            self.ws.append((i, n))
        for nid in sorted(self.inside):
            nd = f.nodes[nid]
            if nd["k"].startswith("OMP") and ("For" in nd["k"] or "Sections" in nd["k"]) and nd.get("body") is not None:
                self.ws.append((nid, nd))

    def clause(self, c):
        m = re.match(r"(private|firstprivate|lastprivate|reduction|linear)\((?:[^:()]*:)?([^)]*)\)", c.strip())
        if m:
            self.priv.update(x.strip() for x in m.group(2).split(","))

    def top(self, n):
        """AST node of the region's function on behalf of which graph node n runs."""
        m = self.sg.nodes[n]
        c, nid = m.ctx, m.nid
        while c != 0:
            c, nid = self.sg.ctxs[c][0], self.sg.ctxs[c][1]
        return nid

    def inreg(self, x):
        """Is local object x created inside the region?"""
        if x[0] == "new":
            return self.top(x[1]) in self.inside
        ctx = x[1]
        if ctx == 0:
            if x[0] == "tmp":
                return x[2] in self.inside
            d = x[2]
            name = d.split(":")[1] if ":" in d else d
            return d in self.locals or name in self.priv
        nid = None
        while ctx != 0 and ctx is not None:
            ctx, nid = self.sg.ctxs[ctx][0], self.sg.ctxs[ctx][1]
        return nid in self.inside

    def crit(self, n):
        """Names of the critical/atomic/single constructs around graph node n."""
        m = self.sg.nodes[n]
        c, nid, fn = m.ctx, m.nid, m.fn
        out = set()
        while True:
            x = nid
            while x is not None:
                nd = fn.nodes[x]
                k = nd["k"]
                if k in ("OMPCriticalDirective", "OMPAtomicDirective", "OMPSingleDirective", "OMPMasterDirective", "OMPMaskedDirective", "OMPOrderedDirective"):
                    out.add((k, nd.get("name") or ""))
                x = fn.parent.get(x)
            if c == 0:
                break
            p = self.sg.ctxs[c]
            c, nid = p[0], p[1]
            fn = self.sg.ctxs[c][2]
        return out

    # ------------------------------------------------------------ loops
    def loopvars(self, nd):
        """Declarations of the loop variables of a worksharing construct with their loop statements."""
        f = self.f
        m = [re.match(r"collapse\((\d+)\)", c.strip()) for c in nd.get("clauses", ())]
        depth = max([int(x.group(1)) for x in m if x] + [1])
        out = []
        x = nd["body"]
        while x is not None and len(out) < depth:
            s = f.nodes[x]
            if s["k"] == "ForStmt":
                ini = s.get("init")
                d = None
                if ini is not None:
                    z = f.nodes[ini]
                    if z["k"] == "DeclStmt":
                        d = z["vars"][0]["d"]
                    else:
                        for y in f.walk(ini):
                            if f.nodes[y]["k"] == "DeclRefExpr" and d is None:
                                d = f.nodes[y].get("d")
                out.append((d, x))
                x = s.get("body")
            elif s["k"] in ("CompoundStmt", "AttributedStmt", "CXXTryStmt", "CapturedStmt") and s["c"]:
                fs = [y for y in s["c"] if f.nodes[y]["k"] in ("ForStmt", "CXXForRangeStmt", "CompoundStmt", "CapturedStmt")]
                x = fs[0] if fs else None
            elif s["k"] == "CXXForRangeStmt":
                out.append((None, x))
                x = s.get("body")
            else:
                break
        return out, depth


def run(P, R, tier):
    R.rule("private", "a location written by a parallel loop belongs to one iteration or is guarded by a critical section")
    R.rule("conflict", "no other iteration reads or writes what an iteration writes")
    R.rule("call", "no call that is unsafe between threads is made outside a critical section")
    R.rule("order", "what critical sections collect does not depend on the order in which threads arrive")
    R.assume("particle ranges of distinct tree nodes are disjoint (TSortedTree partitions the lists)")
    R.assume("distinct pointer members (map, BodyMatrix, RightCol, ...) point to distinct arrays")
    regs = [(f, i, n) for f in P.fns.values() for i, n in enumerate(f.nodes)
            if n["k"].startswith("OMP") and "Parallel" in n["k"] and n.get("body") is not None]
    R.need(len(regs), 5, "parallel regions")

    def one(x):
        S = Rec()
        region(P, S, *x)
        return S.out
    for out in forkmap(one, regs):
        for m, a in out:
            getattr(R, m)(*a)
    locks(P, R)


class Rec:
    def __init__(self):
        self.out = []

    def ok(self, *a):
        self.out.append(("ok", a))

    def bad(self, *a):
        self.out.append(("bad", a))

    def assume(self, *a):
        self.out.append(("assume", a))

    def count(self, *a):
        self.out.append(("count", a))


def region(P, R, f, i, n):
    G = Region(P, f, i, n)
    sg = G.sg
    if sg.depth_cut:
        R.assume("calls deeper than the inlining bound below %s are not followed: %s" % (f.q, ", ".join(sorted(set(str(x)[:60] for x in sg.depth_cut))[:3])))
    acc = []
    for e in sg.events:
        t = G.top(e.n)
        if t is None or t not in G.inside:
            continue
        if e.kind in ("write", "read"):
            if not private(e.loc, G.inreg):
                acc.append((e, e.loc, e.kind == "write"))
        elif e.kind == "call":
            for loc, w in opaque(P, G, e):
                if not private(loc, G.inreg):
                    acc.append((e, loc, w))
            if not e.inl and e.q and UNSAFE.match(e.q) and not any(c[0] != "OMPAtomicDirective" for c in G.crit(e.n)):
                if noreturn_after(sg, e.n):
                    continue
                R.bad("call", e.where(), "%s %s in %s" % (f.q, e.q, e.fn.q), "%s is called by several threads at once: below the parallel region of %s at %s" % (e.q, f.q, f.where(i)))
    acc = [(e, l, w) for e, l, w in acc if not noreturn_after(sg, e.n)]
    R.count("accesses to shared memory in parallel regions", len(acc))
    phases = {}
    for e, l, w in acc:
        t = G.top(e.n)
        ph = None
        for nid, nd in G.ws:
            if t in set_of(G, nd):
                ph = nid
        phases.setdefault(ph, []).append((e, l, w))
    # loops without a barrier behind them share a phase with what follows
    order = sorted(x for x in phases if x is not None)
    merged = []
    cur = []
    for x in order:
        cur.append(x)
        nd = f.nodes[x]
        nowait = any(c.strip() == "nowait" for c in nd.get("clauses", ())) and not barrier_after(G, x)
        if not nowait:
            merged.append(cur)
            cur = []
    if cur:
        merged.append(cur)
    if None in phases:
        for e, l, w in phases[None]:
            if w and not G.crit(e.n):
                R.bad("private", e.where(), "%s %s" % (f.q, show(l)[:80]), "every thread of the parallel region of %s writes %s" % (f.q, show(l)[:100]))
    for group in merged:
        a = [x for g in group for x in phases[g]]
        phase(P, R, G, group, a)
    encounter(P, R, G, acc)


_sets = {}


def set_of(G, nd):
    k = (G.f.key, nd["body"])
    if k not in _sets:
        _sets[k] = set(G.f.walk(nd["body"]))
    return _sets[k]


def barrier_after(G, x):
    nxt = min([y for y, _ in G.ws if y > x] + [10**9])
    return any(x < y < nxt and G.f.nodes[y]["k"] == "OMPBarrierDirective" for y in G.inside)


def noreturn_after(sg, n):
    """The path from n ends the program."""
    k = ("_nr", n)
    c = sg.__dict__.setdefault("_nr", {})
    if n not in c:
        r = sg.reach([n], edges=lambda a, b, l: l != ("noret",))
        c[n] = sg.exit.i not in r and sg.xexit.i not in r
    return c[n]


def opaque(P, G, e):
    """Shared locations an opaque call may touch."""
    out = []
    if e.inl or e.key in P.fns:
        return out
    q = e.q or ""
    name = q.split("::")[-1]
    d = e.fn.decls.get(e.key) or {}
    if e.obj is not None and q.startswith(("std::", "__gnu_cxx::")):
        cls = q[:q.rfind("::")]
        w = name not in READERS and not d.get("const") and not name.startswith("~")
        if cls == "std::map" and name == "operator[]":
            w = True
        if cls.startswith(("std::exception_ptr", "std::__exception_ptr")) and name == "operator bool":
            w = False
        if name == cls.split("::")[-1]:     # constructor: the object is new
            w = True
        out.append((e.obj, w))
    elif q in ("memcpy", "memset", "memmove", "strcpy", "strncpy", "sprintf", "snprintf") and e.args:
        out.append((e.args[0], True))
    elif d.get("externc") is not None or not q.startswith("std::"):
        for a, pt in zip(e.args, d.get("params", [])):
            pt = pt.replace("__restrict", "").replace("restrict", "").strip()
            if pt.endswith("*") and not pt.startswith("const ") and a[0] in ("fld", "el", "loc", "arg", "g", "ld") and not q.startswith(("lua", "H5")):
                out.append((a, True))
    return out


def keyof(loc):
    """Field path of a location, for type based aliasing."""
    out = []
    x = loc
    if x[0] == "ld":
        out.append("*")
    while True:
        if x[0] == "fld":
            out.append(x[2])
        elif x[0] == "el":
            out.append("[]")
        elif x[0] == "op" and x[1] == "+":
            fl = flat(x)
            if fl is None:
                break
            out.append("[]")
            x = fl[0]
            continue
        elif x[0] != "ld":
            break
        x = x[1]
    return tuple(reversed(out))


def alias(a, b):
    if a == b:
        return True
    ka, kb = keyof(a), keyof(b)
    m = min(len(ka), len(kb))
    if m == 0:
        return False
    if ka[-1] != kb[-1]:
        # a whole record overlaps its members
        for x, y in ((a, b), (b, a)):
            if x[0] == "fld" and prefix(y, x):
                return True
        return False
    m = min(m, 2)
    return ka[-m:] == kb[-m:]


def prefix(y, x):
    while y[0] in ("fld", "el"):
        y = y[1]
        if y == x:
            return True
    return False


def elems(loc):
    """Element selections on the way from a location to its root."""
    out = []
    x = loc
    while x[0] in ("fld", "el", "ld", "op"):
        if x[0] == "el":
            out.append((x[1], x[2]))
        if x[0] == "op":
            return out, x
        x = x[1]
    return out, x


def phase(P, R, G, group, acc):
    sg, f = G.sg, G.f
    vars_, stm = [], []
    for g in group:
        lv, depth = G.loopvars(f.nodes[g])
        for d, s in lv:
            vars_.append(d)
            stm.append(s)
    lvl = {("loc", 0, d) for d in vars_ if d}
    conts = set()
    heads = set()
    for x in stm:
        for k in ("init", "cond", "inc", "range"):
            if f.nodes[x].get(k) is not None:
                heads.update(f.walk(f.nodes[x][k]))
    for e in sg.events:     # containers the loop variables iterate over
        if e.kind == "call" and e.obj is not None and e.ctx == 0 and e.nid in heads and e.q and e.q.split("::")[-1] in ("begin", "cbegin"):
            conts.add(e.obj)
    multi = {c for c in conts if others(G, c, group)}

    def mine(t):
        """Does this term depend on the iteration?"""
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in lvl or x[0] == "phi" and x[2] in lvl:
                return True
            if x[0] == "el" and x[1] in conts and x[1] not in multi:
                return True
            if x[0] == "it" and x[1] in conts and x[1] not in multi:
                return True
            if x[0] == "phi" and x in sg.phis:
                todo += list(sg.phis[x])
            if x[0] == "ld" and x[1] in lvl:
                return True
            todo += [y for y in x[1:] if isinstance(y, tuple)]
        return False

    memo = {}

    def cn(t):
        if t not in memo:
            memo[t] = canon(sg, t, lvl)
        return memo[t]
    acc = list({(cn(l), w, e.fn.key, e.nid): (e, cn(l), w) for e, l, w in acc}.values())
    writes = [(e, l) for e, l, w in acc if w]
    done = {}
    for e, l in writes:
        cr = {c for c in G.crit(e.n)}
        key = (l, frozenset(cr))
        if key in done:
            continue
        nm = "%s %s" % (f.q, show(l)[:90])
        w = e.where()
        if cr:
            bad = None
            for e2, l2, w2 in acc:
                if (l2 == l or alias(l2, l)) and not (G.crit(e2.n) & cr):
                    bad = (e2, l2)
                    break
            done[key] = True
            if bad:
                R.bad("conflict", bad[0].where(), nm, "%s is written at %s inside a critical section and accessed outside it at %s, in the same parallel loop of %s" % (
                    show(l)[:90], w, bad[0].where(), f.q))
            else:
                R.ok("conflict", "%s: only inside %s" % (nm, sorted(cr)[0][0]))
            continue
        v = own(P, R, G, l, lvl, conts, multi, mine, e)
        done[key] = v
        if v is None:
            R.assume("could not compare the iterations' indices: %s" % nm)
            continue
        if not v:
            R.bad("private", w, nm, "%s, written at %s in the parallel loop at %s of %s, is not told apart by the iteration: two threads may write it at once" % (
                show(l)[:110], w, f.where(group[0]), f.q))
            continue
        R.ok("private", "%s at %s" % (nm, w))
        bad = None
        for e2, l2, w2 in acc:
            if l2 == l or canon(sg, l2, lvl) == canon(sg, l, lvl) or not alias(l, l2):
                continue
            if same_element(P, G, l, l2, mine, lvl):
                continue
            if strip(l)[0] == "phi" and strip(l2)[0] == "phi" and own(P, R, G, l2, lvl, conts, multi, mine, e2):
                continue    # another element of the iteration's own ranges
            if G.crit(e2.n):
                bad = (e2, l2, w2)
                break
            if raw(l) and raw(l2):
                r = dependence(P, G, [l, l2], lvl, conts, multi, e2.n)
                if r in (True, None):
                    continue
            bad = (e2, l2, w2)
            break
        if bad:
            R.bad("conflict", bad[0].where(), nm, "%s is written by each iteration of the parallel loop of %s (%s) and %s, possibly of another iteration, is %s at %s" % (
                show(l)[:80], f.q, w, show(bad[1])[:80], "written" if bad[2] else "read", bad[0].where()))
        else:
            R.ok("conflict", nm)


def others(G, c, group):
    """Other iterators over container c inside the loops of this phase."""
    f = G.f
    heads = set()
    for g in group:
        lv, _ = G.loopvars(f.nodes[g])
        for d, s in lv:
            for k in ("init", "cond", "inc", "range"):
                if f.nodes[s].get(k) is not None:
                    heads.update(f.walk(f.nodes[s][k]))
    for e in G.sg.events:
        if e.kind == "call" and e.obj == c and e.q and e.q.split("::")[-1] in ("begin", "end", "cbegin", "cend", "rbegin", "operator[]", "at", "front", "back"):
            t = G.top(e.n)
            if t in G.inside and t not in heads and any(t in set_of(G, f.nodes[g]) for g in group):
                return True
    return False


def strip(l):
    while l[0] == "fld":
        l = l[1]
    return l


def raw(l):
    l = strip(l)
    return l[0] in ("el", "op")


def same_element(P, G, a, b, mine, lvl):
    """Both are parts of the very element that belongs to the iteration."""
    x, y = canon(G.sg, strip(a), lvl), canon(G.sg, strip(b), lvl)
    return x == y and mine(x)


def canon(sg, t, lvl, d=0):
    """Merges of a loop variable within its own loop are the loop variable; merges of one value are that value."""
    if t[0] == "phi":
        if t[2] in lvl:
            return ("phi", 0, t[2])
        if d < 6 and t in sg.phis:
            starts, steps = loop_of_phi(sg, t)
            if not steps:
                vs = {canon(sg, v, lvl, d + 1) for v in sg.expand(t) if v != ("undef",)}
                if len(vs) == 1:
                    return vs.pop()
        return t
    return tuple(canon(sg, x, lvl, d) if isinstance(x, tuple) else x for x in t)


def own(P, R, G, l, lvl, conts, multi, mine, e):
    """True: distinct iterations write distinct cells; False: they may meet; None: cannot tell."""
    sg = G.sg
    x = strip(l)
    if not mine(x):
        return False
    # the element the loop variable itself points to
    if x[0] == "phi" and x[2] in lvl:
        return True
    if x[0] == "el" and x[1] in conts and x[1] not in multi:
        return True
    if x[0] == "el" and x[1][0] == "phi" and x[1][2] in lvl:
        return x[2][0] == "c"
    # a pointer walking a range that starts at something of the iteration's own element
    if x[0] == "phi":
        starts, steps = loop_of_phi(sg, x)
        walk = [ownrange(canon(sg, s, lvl), lvl, conts, multi) for s in starts]
        if starts and any(w is not None for w in walk):
            return all(walk)
        vals = sg.expand(x)
        if vals and all(v[0] != "phi" and v != x for v in vals) and len(vals) == 1:
            return own(P, R, G, vals[0], lvl, conts, multi, mine, e)
        return None if mine(x) else False
    # what a pointer of the iteration's own element points to
    if x[0] == "ld":
        y = x[1]
        if y[0] == "el" and "Matrix::solution_ptr" in keyof(y):
            return dependence(P, G, [y], lvl, conts, multi, e.n)
        return False        # two iterations' pointers may lead to the same object
    if x[0] in ("el", "op"):
        if x[0] == "el" and isinstance(x[2], str):
            return embedded(x, lvl, conts, multi)
        return dependence(P, G, [x], lvl, conts, multi, e.n)
    return None


def ownrange(s, lvl, conts, multi):
    """s is the first pointer of a node's particle range: is the node the iteration's own?  None: no such range."""
    y = s
    while y[0] == "el":
        y = y[1]
    if y[0] == "ld":
        y = y[1]
    if y[0] != "fld" or y[1][0] != "fld" or not y[1][2].endswith("Range"):
        return None
    x = y[1][1]
    if x[0] == "ld":
        x = x[1]
        if x[0] == "el":
            return x[1] in conts and x[1] not in multi
        return x in lvl
    return x[0] == "phi" and x[2] in lvl or x[0] == "el" and x[1] in conts and x[1] not in multi


def embedded(x, lvl, conts, multi):
    """Does the path lead from the iteration's own element without following a pointer?"""
    while x[0] in ("fld", "el"):
        if x[0] == "el" and x[1] in conts and x[1] not in multi:
            return True
        x = x[1]
    return x[0] == "phi" and x[2] in lvl


# ------------------------------------------------------------------ dependence test

def flat(t):
    """(base, index term) of an array cell."""
    t = strip(t)
    if t[0] == "el":
        b, i = t[1], t[2]
        if isinstance(i, str):
            i = ("c", 0) if i == "front" else ("opaque", i)
        if b[0] in ("el", "op"):
            r = flat(b)
            if r:
                return r[0], ("op", "+", r[1], i)
        return b, i
    if t[0] == "op" and t[1] == "+":
        parts = []

        def go(x):
            if x[0] == "op" and x[1] == "+":
                go(x[2])
                go(x[3])
            else:
                parts.append(x)
        go(t)
        bases = [x for x in parts if x[0] in ("fld", "ld", "arg", "new", "phi") and ptrish(x)]
        if len(bases) == 1:
            rest = [x for x in parts if x is not bases[0]]
            i = rest[0]
            for y in rest[1:]:
                i = ("op", "+", i, y)
            return bases[0], i
        return None
    if t[0] in ("ld", "fld"):
        return t, ("c", 0)
    return None


PTRS = ("Matrix::BodyMatrix", "Matrix::RightCol", "Matrix::InverseMatrix", "XField::map", "Matrix::ipvt")


def ptrish(x):
    k = [c for c in chain(x) if isinstance(c, str)]
    return bool(k) and k[-1] in PTRS


def dependence(P, G, locs, lvl, conts, multi, n):
    """True: cells of different iterations are always different."""
    sg = G.sg
    fl = [flat(l) for l in locs]
    if any(x is None for x in fl):
        return None
    if len({x[0] for x in fl}) > 1:
        if all(keyof(x[0]) for x in fl) and len({keyof(x[0])[-1] for x in fl}) > 1:
            return True     # different arrays
        return None
    # leaves of the index terms
    par, ser, inv = {}, {}, {}
    amb = [False]
    subst = {}

    def norm(t, d=0):
        if d > 12:
            amb[0] = True
            return ("c", 0)
        if t[0] == "c":
            return t
        if t[0] == "op" and t[1] in ("+", "-", "*"):
            return ("op", t[1], norm(t[2], d + 1), norm(t[3], d + 1))
        if t[0] == "phi":
            if t[2] in lvl:
                k = ("phi", 0, t[2])
                par[k] = bounds(sg, t)
                return k
            starts, steps = loop_of_phi(sg, t)
            vals = [v for v in sg.expand(t) if v != ("undef",)]
            if steps:
                k = ("phi", 0, t[2])
                ser[k] = bounds(sg, t, norm, d)
                return k
            if len(set(vals)) == 1:
                return norm(vals[0], d + 1)
            amb[0] = True
            return ("c", 0)
        if t[0] == "ld" and t[1] in lvl:
            k = ("phi", 0, t[1])
            par[k] = None
            return k
        if t[0] == "ld" and t[1][0] == "fld" and t[1][1][0] == "el" and t[1][1][1] in conts and t[1][1][1] not in multi:
            # a member of the iteration's own record: distinct records hold distinct numbers?
            if distinct(G, t[1][1][1], t[1][2]):
                par[t] = (("c", 0), None)
                return t
            inv[t] = None
            return t
        if t[0] in ("ite", "ret", "f", "ld", "op", "op1", "fld", "arg", "out"):
            if t[0] == "ld" and not any(x[0] == "phi" for x in subterms(t)) and t[1][0] in ("fld", "arg", "loc", "g"):
                inv[t] = None
                return t
            b = guardbound(sg, n, t)
            if b is not None:
                ser[t] = (("c", 0), norm(b, d + 1))
                return t
        amb[0] = True
        return ("c", 0)
    idx = [norm(x[1]) for x in fl]
    if amb[0]:
        return None
    if not par:
        return False
    # bounds may mention invariants
    for dct in (par, ser):
        for k, b in list(dct.items()):
            if b:
                for z in b:
                    if z is not None:
                        for x in subterms(z):
                            if x[0] == "ld" and x not in dct and x not in inv and x not in par and x not in ser:
                                inv[x] = None
    # a loop variable whose upper bound is unknown may take any value below a small limit
    keys = sorted(inv, key=repr)
    for vals in itertools.islice(itertools.permutations((2, 3, 4), len(keys)) if len(keys) <= 3 else [], 12) if keys else [()]:
        env = dict(zip(keys, vals))
        cells = {}
        if not enum(par, ser, env, idx, cells):
            return False
    return True


def enum(par, ser, env, idx, cells):
    names = list(par) + list(ser)

    def rng(k, e):
        b = par.get(k) or ser.get(k)
        lo = decide(b[0], lambda t: e.get(t)) if b and b[0] is not None else 0
        hi = decide(b[1], lambda t: e.get(t)) if b and b[1] is not None else 5
        if lo is None:
            lo = 0
        if hi is None:
            hi = 5
        return range(int(lo), min(int(hi), 8))

    def go(j, e):
        if j == len(names):
            it = tuple(e[k] for k in par)
            for t in idx:
                c = decide(t, lambda x: e.get(x))
                if c is None:
                    continue
                o = cells.setdefault(c, it)
                if o != it:
                    return False
            return True
        for v in rng(names[j], e):
            e2 = dict(e)
            e2[names[j]] = v
            if not go(j + 1, e2):
                return False
        return True
    return go(0, env)


def bounds(sg, ph, norm=None, d=0):
    """(start, upper bound) of an index loop counting up."""
    fam = [x for x in sg.phis if x[2] == ph[2]] if ph[1] == 0 else [ph]
    los, hi = set(), None
    for x in fam:
        los |= {s for s in loop_of_phi(sg, x)[0]}
    lo = los.pop() if len(los) == 1 else None
    if lo is not None and norm:
        lo = norm(lo, d + 1)
    elif lo is not None and lo[0] not in ("c",):
        lo = None
    for x in fam:
        for h, body, ex in loops_around(sg, x[1]):
            for e in ex:
                o = over(sg, e)
                if o and o[0] == "ix" and o[1][2] == ph[2]:
                    hi = o[2]
                    if e.val[1] == "<=":
                        hi = ("op", "+", hi, ("c", 1))
                    break
            if hi is not None:
                break
        if hi is not None:
            break
    if hi is not None and not any(x[0] in ("ld", "c") for x in subterms(hi)):
        hi = None
    return (lo, hi)


def guardbound(sg, n, t):
    """Upper bound b such that t < b holds whenever node n runs (a check that ends the program otherwise)."""
    for e in sg.events:
        if e.kind != "br" or t not in set(subterms(e.val)):
            continue
        for c in disj(e.val):
            # t >= b  /  !(t < b) leads away
            if c[0] == "op" and c[1] == "<=" and c[3] == t:
                lab = True
                b = c[2]
            elif c[0] == "op1" and c[1] == "!" and c[2][0] == "op" and c[2][1] == "<" and c[2][2] == t:
                lab = True
                b = c[2][3]
            elif c[0] == "op" and c[1] == "<" and c[2] == t:
                lab = False
                b = c[3]
            else:
                continue
            away = [s for s, l in sg.nodes[e.n].succ if l == ("br", lab)]
            if away and all(noreturn_after(sg, s) for s in away):
                return b
    return None


def disj(t):
    if t[0] == "op" and t[1] == "||":
        return disj(t[2]) + disj(t[3])
    return [t]


def distinct(G, cont, field):
    """Every record appended to the container gets a number from a counter that only grows and grows between two appends."""
    sg = G.sg
    c = sg.__dict__.setdefault("_distinct", {})
    if (cont, field) in c:
        return c[(cont, field)]
    c[(cont, field)] = r = _distinct(G, cont, field)
    return r


def _distinct(G, cont, field):
    sg = G.sg
    pushes = [e for e in sg.events if e.kind == "call" and e.obj == cont and e.q and e.q.split("::")[-1] in APPEND]
    if not pushes:
        return False
    counter = None
    for e in pushes:
        rec = e.args[0] if e.args else None
        if rec is None:
            return False
        v = value_of(sg, e, rec, field)
        if v is None:
            return False
        ls = {x[2] if x[0] == "phi" else x[1] for x in subterms(v) if x[0] == "phi" or x[0] == "ld" and x[1][0] == "loc"}
        if v[0] == "c" and len(pushes) > 1:
            ls = set()
        if v[0] not in ("phi", "op", "c") or len(ls) > 1:
            return False
        if ls:
            l = ls.pop()
            if counter not in (None, l):
                return False
            counter = l
    if counter is None:
        return False
    ws = [e for e in sg.events if e.kind == "write" and e.loc == counter]
    incs = {e.n for e in ws if grows(sg, e)}
    if any(e.n not in incs and not starts_loop(sg, e, pushes) for e in ws):
        return False
    for e in pushes:
        # from one append to the next the counter grows
        nxt = sg.reach(sg.after(e.n), stop=incs)
        nxt = set(nxt) - incs
        if any(x.n in nxt for x in pushes):
            return False
    return True


def starts_loop(sg, e, pushes):
    """A write before any append."""
    r = set()
    for p in pushes:
        r |= set(sg.reach([p.n]))
    return e.n not in r


def grows(sg, e):
    if e.op == "++":
        return True
    v = e.val
    if v is None or v[0] != "op" or v[1] != "+":
        return e.op == "+=" and v is not None and v[0] == "c" and v[1] > 0
    cs = [x for x in v[2:] if x[0] == "c" and isinstance(x[1], (int, float)) and x[1] > 0]
    return bool(cs) and any(x[0] in ("phi", "ld", "op") for x in v[2:])


def value_of(sg, e, rec, field):
    """Value of a field of the record argument."""
    if rec[0] == "f" and rec[1] == "{}":
        r = sg.prog.records.get(field.rsplit("::", 1)[0])
        names = [x["name"] for x in r["fields"]] if r else []
        k = names.index(field.rsplit("::", 1)[1]) if field.rsplit("::", 1)[1] in names else None
        return rec[2 + k] if k is not None and len(rec) > 2 + k else None
    st = sg.outs.get(e.n) or {}
    for cand in (("fld", rec, field),):
        if cand in st:
            return st[cand]
    nd = sg.nodes[e.n]
    for p, l in nd.pred:
        st = sg.outs.get(p) or {}
        if ("fld", rec, field) in st:
            return st[("fld", rec, field)]
    return None


# ------------------------------------------------------------------ encounter order

def encounter(P, R, G, acc):
    sg, f = G.sg, G.f
    seen = set()
    for e, l, w in acc:
        if not w or e.kind != "call" or not G.crit(e.n):
            continue
        name = (e.q or "").split("::")[-1]
        if name not in APPEND or not (e.q or "").startswith("std::") or "map" in e.q or "set" in e.q:
            continue
        if l in seen:
            continue
        seen.add(l)
        end = [x.n for x in sg.events if x.kind == "call" and x.q and x.q.split("::")[-1] in ("sort", "stable_sort")
               and any(y == ("it", l, "b") or y[0] == "it" and y[1] == l for a in list(x.args or ()) for y in subterms(a))
               or x.kind == "call" and x.obj == l and x.q and x.q.split("::")[-1] == "sort"]
        outs = [i for i in [sg.exit.i]]
        good = bool(end) and sg.must_pass(e.n, outs[0], set(end))
        key = "%s %s" % (f.q, show(l))
        if good:
            R.ok("order", "%s is sorted before %s returns" % (key, f.q))
        else:
            R.bad("order", e.where(), key, "threads append to %s in the order in which they arrive (%s) and %s returns without sorting it: the result depends on the schedule" % (
                show(l), e.where(), f.q))


def locks(P, R):
    """Critical sections that guard the same member have one name."""
    names = {}
    for f in P.fns.values():
        for i, n in enumerate(f.nodes):
            if n["k"] == "OMPCriticalDirective" and n.get("body") is not None:
                names.setdefault(f.q, set()).add(n.get("name") or "")
    R.count("functions with critical sections", len(names))
