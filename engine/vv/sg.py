"""Supergraph: the CFGs of a function and of the callees inlined into it
(call-site cloning, resolved callees only), and a value-numbering dataflow over
it.  Joins merge values into opaque phi terms, so one pass over the graph gives
every expression one value number; nothing is executed and no path is
enumerated.

Terms (hashable tuples)
  ('c', v) ('s', text) ('fn', key)      constants
  ('arg', name)                         root parameter / pointee of it / 'this'
  ('loc', ctx, dkey) ('tmp', ctx, nid) ('g', key)   objects
  ('fld', loc, 'Rec::f') ('el', loc, idx)           sub-objects
  ('ld', loc)                           value in memory at loc on entry / unknown
  ('op', o, a, b) ('op1', o, a) ('f', q, args...) ('ite', c, a, b)
  ('ret', n) ('out', n, i) ('new', n)   results of opaque call site n
  ('it', loc, p)                        iterator into container loc
  ('phi', n, loc)                       merge at graph node n
"""
import math
import re
from .prog import AnalysisError, rel

PURE = set("""sqrt sin cos tan atan atan2 asin acos exp log log10 fabs abs pow floor ceil round fmod hypot isnan isinf
isfinite std::sqrt std::sin std::cos std::tan std::atan std::atan2 std::exp std::log std::fabs std::abs std::pow
std::floor std::ceil std::round std::fmod std::hypot std::isnan std::isinf std::isfinite std::signbit std::min
std::max std::conj std::real std::imag std::norm std::arg lround llround rint
std::string::size std::basic_string::size std::basic_string::length std::basic_string::empty
strcmp strlen strncmp strchr strrchr strstr strcasecmp isdigit isspace
std::vector::size std::vector::empty std::list::size std::list::empty std::map::size std::map::empty
std::abs std::less std::operator+ std::operator- std::operator* std::operator/
std::basic_string::find std::basic_string::substr std::basic_string::compare
std::numeric_limits::infinity std::numeric_limits::quiet_NaN std::numeric_limits::max std::numeric_limits::min
std::numeric_limits::lowest std::numeric_limits::epsilon nan""".split())
NORETURN = {"exit", "_exit", "abort", "luaL_error", "lua_error", "luaL_argerror", "luaL_typerror", "std::terminate",
            "__assert_fail", "__builtin_unreachable", "std::exit", "std::abort", "longjmp"}
CONT = ("std::vector", "std::list", "std::map", "std::deque", "std::set", "std::array", "std::basic_string", "std::unordered_map",
        "std::multimap", "std::queue", "std::stack", "std::forward_list")
SMART = ("std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::weak_ptr", "std::__weak_ptr",
         "std::unique_ptr", "std::__uniq_ptr_impl")
ITER = ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::_Rb_tree_iterator",
        "std::_Rb_tree_const_iterator", "std::reverse_iterator", "std::_Bit_iterator", "std::_Deque_iterator")

_bt = {}


def base_type(t):
    r = _bt.get(t)
    if r is None:
        r = t.replace("const ", "").replace("volatile ", "").strip()
        r = re.sub(r"[&\s]+$", "", r)
        r = re.sub(r"\s*const$", "", r)
        _bt[t] = r
    return r


def pointee(t):
    t = base_type(t)
    return base_type(t[:-1]) if t.endswith("*") else t


def is_term_loc(t):
    return t[0] in ("arg", "loc", "tmp", "g", "fld", "el", "ld", "new", "ret", "phi", "out")


def root(t):
    while t[0] in ("fld", "el", "ld", "it"):
        t = t[1]
    return t


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        yield x
        for y in x[1:]:
            if isinstance(y, tuple):
                st.append(y)


def norm(t):
    """Access path with non-constant indices replaced by '*', phi of element
    pointers left alone."""
    if not isinstance(t, tuple):
        return t
    if t[0] == "el":
        i = t[2]
        return ("el", norm(t[1]), i if isinstance(i, str) else i if i[0] in ("c", "s") else "*")
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "s":
        return repr(t[1])
    if k == "arg":
        return str(t[1])
    if k == "loc":
        return t[2].split(":")[1] if ":" in t[2] else t[2]
    if k == "tmp":
        return "tmp%s" % t[2]
    if k == "g":
        return t[1][2:].split("@")[0]
    if k == "fld":
        b = t[1]
        if b[0] == "ld":
            return "%s->%s" % (show(b[1]), t[2].split("::")[-1])
        return "%s.%s" % (show(b), t[2].split("::")[-1])
    if k == "el":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "ld":
        return show(t[1])
    if k == "op":
        return "(%s%s%s)" % (show(t[2]), t[1], show(t[3]))
    if k == "op1":
        return "%s(%s)" % (t[1], show(t[2]))
    if k == "f":
        return "%s(%s)" % (t[1], ",".join(show(x) for x in t[2:]))
    if k == "ite":
        return "(%s?%s:%s)" % (show(t[1]), show(t[2]), show(t[3]))
    if k == "phi":
        return "phi(%s)" % show(t[2])
    if k == "fn":
        return "&" + t[1]
    return "%s(%s)" % (k, ",".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def decide(t, env):
    """Numeric value of term t where env maps leaf terms to numbers, or None."""
    v = env(t)
    if v is not None:
        return v
    k = t[0]
    if k == "c":
        return t[1] if isinstance(t[1], (int, float)) else None
    if k == "op1" and t[1] in ("!", "-", "~"):
        x = decide(t[2], env)
        return None if x is None else int(not x) if t[1] == "!" else -x if t[1] == "-" else None
    if k == "op" and len(t) == 4:
        x, y = decide(t[2], env), decide(t[3], env)
        o = t[1]
        if o in ("&&", "||"):
            for z in (x, y):
                if z is not None and bool(z) == (o == "||"):
                    return int(o == "||")
            return None if x is None or y is None else int(o == "&&")
        if o == "|" and -1 in (x, y):
            return -1
        if o in ("&", "*") and 0 in (x, y):
            return 0
        if x is None or y is None:
            return None
        f = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
             "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
             "&": lambda: int(x) & int(y), "|": lambda: int(x) | int(y),
             ">": lambda: x > y, ">=": lambda: x >= y, "/": lambda: x / y if y else None, "%": lambda: math.fmod(x, y) if y else None}.get(o)
        return None if f is None else int(f()) if o in ("==", "!=", "<", "<=") else f()
    if k == "ite":
        c = decide(t[1], env)
        return None if c is None else decide(t[2] if c else t[3], env)
    if k == "ld" and t[1][0] == "f" and t[1][1] in ("std::max", "std::min"):
        return decide(t[1], env)
    if k == "f" and t[1] in ("std::max", "std::min") and len(t) == 4:
        x, y = decide(t[2], env), decide(t[3], env)
        return None if x is None or y is None else max(x, y) if t[1] == "std::max" else min(x, y)
    if k == "f" and len(t) in (3, 4) and isinstance(t[1], str):
        f = MATH.get(t[1][5:] if t[1].startswith("std::") else t[1])
        if f is not None and f[0] == len(t) - 2:
            a = [decide(x, env) for x in t[2:]]
            if None in a:
                return None
            try:
                return f[1](*a)
            except (ValueError, OverflowError, ZeroDivisionError):
                return None
    return None


MATH = {"sqrt": (1, math.sqrt), "fabs": (1, abs), "abs": (1, abs), "sin": (1, math.sin), "cos": (1, math.cos), "tan": (1, math.tan), "exp": (1, math.exp),
        "log": (1, math.log), "atan": (1, math.atan), "atan2": (2, math.atan2), "pow": (2, math.pow), "hypot": (2, math.hypot), "floor": (1, math.floor),
        "ceil": (1, math.ceil), "fmod": (2, math.fmod), "acos": (1, math.acos), "asin": (1, math.asin), "isinf": (1, lambda x: int(math.isinf(x))),
        "isnan": (1, lambda x: int(math.isnan(x))), "isfinite": (1, lambda x: int(math.isfinite(x))), "signbit": (1, lambda x: int(math.copysign(1, x) < 0)),
        "copysign": (2, math.copysign)}


class Ev:
    __slots__ = ("kind", "n", "q", "key", "obj", "args", "loc", "val", "op", "nid", "ctx", "fn", "info", "t", "inl")

    def __init__(self, kind, n, **kw):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        self.n = n
        for k, v in kw.items():
            setattr(self, k, v)

    def where(self):
        return self.fn.where(self.nid)

    def __repr__(self):
        if self.kind == "call":
            return "call %s(%s%s) @%s" % (self.q, ("obj=%s; " % show(self.obj)) if self.obj else "",
                                          ", ".join(show(a) for a in self.args), self.where())
        if self.kind == "write":
            return "write %s %s %s @%s" % (show(self.loc), self.op, show(self.val), self.where())
        if self.kind == "br":
            return "branch %s @%s" % (show(self.val), self.where())
        return "%s %s @%s" % (self.kind, show(self.val) if self.val else "", self.where())


class SNode:
    __slots__ = ("i", "kind", "ctx", "fn", "nid", "x", "succ", "pred", "blk")

    def __init__(self, i, kind, ctx, fn, nid=None, x=None, blk=None):
        self.i = i
        self.kind = kind
        self.ctx = ctx
        self.fn = fn
        self.nid = nid
        self.x = x
        self.succ = []   # (node index, label)
        self.pred = []
        self.blk = blk

    def where(self):
        return self.fn.where(self.nid)


class SG:
    def __init__(self, prog, fn, inline=None, maxdepth=10, maxnodes=150000, reads=False, run=True, maythrow=None, assume=None, itidx=False):
        self.prog = prog
        self.rootfn = fn
        self.inline = inline or (lambda f, caller: False)
        self.maxdepth = maxdepth
        self.maxnodes = maxnodes
        self.reads = reads
        self.nodes = []
        self.ctxs = []      # ctx id -> (parent ctx, call nid, fn)
        self.call_ctx = {}  # (ctx, nid) -> child ctx
        self.maythrow = maythrow or (lambda key: False)
        self.itidx = itidx      # iterators carry their index as a term
        self.assume = assume    # leaf term -> number or None: specialises branches
        self.dead = set()
        self.inlined_fns = set()
        self.depth_cut = []
        ctx = self.newctx(None, None, fn)
        self.entry, self.exit, self.xexit = self.build(fn, ctx, 0, (fn.key,))
        for nd in self.nodes:
            for s, l in nd.succ:
                self.nodes[s].pred.append((nd.i, l))
        self._prune()
        self.val = {}
        self.thisv = {}
        self.events = []
        self.ev_at = {}
        self.phis = {}
        if run:
            self.run()

    # ---- construction -------------------------------------------------
    def newctx(self, p, nid, fn):
        self.ctxs.append((p, nid, fn))
        self.inlined_fns.add(fn.key)
        return len(self.ctxs) - 1

    def mk(self, *a, **k):
        if len(self.nodes) > self.maxnodes:
            raise AnalysisError("supergraph of %s exceeds %d nodes" % (self.rootfn.q, self.maxnodes))
        n = SNode(len(self.nodes), *a, **k)
        self.nodes.append(n)
        return n

    def edge(self, a, b, label=None):
        a.succ.append((b.i, label))

    @staticmethod
    def try_of(fn, nid):
        """Innermost enclosing try statement (nid inside its try block)."""
        p = fn.parent
        x = nid
        while x in p:
            y = p[x]
            if fn.nodes[y]["k"] == "CXXTryStmt" and fn.nodes[y]["c"] and fn.nodes[y]["c"][0] == x:
                return y
            x = y
        return None

    def build(self, fn, ctx, depth, stack):
        if not fn.blocks:
            raise AnalysisError("no CFG for " + fn.q)
        entry = self.mk("entry", ctx, fn)
        exit_ = self.mk("exit", ctx, fn)
        xexit = self.mk("xexit", ctx, fn)
        heads = {}
        for b in fn.blocks.values():
            heads[b["id"]] = self.mk("head", ctx, fn, nid=b.get("label"), blk=b["id"])
        tryblk = {}
        for b in fn.blocks.values():
            if b.get("term") is not None and fn.nodes[b["term"]]["k"] == "CXXTryStmt":
                tryblk[b["term"]] = b["id"]
        self.edge(entry, heads[fn.entry])
        self.edge(heads[fn.exit], exit_)

        def eh_target(nid):
            t = self.try_of(fn, nid) if nid is not None and nid >= 0 else None
            if t is not None and t in tryblk:
                return heads[tryblk[t]]
            return xexit

        for b in fn.blocks.values():
            if b["id"] == fn.exit:
                continue
            cur = heads[b["id"]]
            dead = False
            istry = b.get("term") is not None and fn.nodes[b["term"]]["k"] == "CXXTryStmt"
            for e in b["e"]:
                if dead:
                    break
                k = e[0]
                if k == "s":
                    nid = e[1]
                    nd = fn.nodes[nid]
                    callee = nd.get("callee")
                    if nd["k"] == "CXXThrowExpr":
                        x = self.mk("el", ctx, fn, nid)
                        self.edge(cur, x)
                        self.edge(x, eh_target(nid), ("eh",))
                        dead = True
                        break
                    if callee is not None:
                        tgt = self.prog.fns.get(callee)
                        info = fn.decls.get(callee) or {}
                        if tgt is not None and tgt.blocks and callee not in stack and self.inline(tgt, fn):
                            if depth < self.maxdepth:
                                c2 = self.newctx(ctx, nid, tgt)
                                self.call_ctx[(ctx, nid)] = c2
                                x = self.mk("enter", ctx, fn, nid, x=c2)
                                self.edge(cur, x)
                                en, ex, xx = self.build(tgt, c2, depth + 1, stack + (callee,))
                                self.edge(x, en)
                                y = self.mk("leave", ctx, fn, nid, x=c2)
                                self.edge(ex, y)
                                self.edge(xx, eh_target(nid), ("eh",))
                                cur = y
                                continue
                            self.depth_cut.append((fn.q, tgt.q))
                        x = self.mk("el", ctx, fn, nid)
                        self.edge(cur, x)
                        if info.get("q") in NORETURN or info.get("noreturn"):
                            self.edge(x, xexit, ("noret",))
                            dead = True
                            break
                        if tgt is not None and self.prog.never_returns(callee):
                            self.edge(x, eh_target(nid), ("eh",))
                            dead = True
                            break
                        if self.maythrow(callee):
                            self.edge(x, eh_target(nid), ("eh",))
                        elif not info.get("nothrow") and not info.get("externc") and self.try_of(fn, nid) is not None:
                            self.edge(x, eh_target(nid), ("eh",))
                        cur = x
                        continue
                    x = self.mk("el", ctx, fn, nid)
                    self.edge(cur, x)
                    cur = x
                elif k == "i":
                    x = self.mk("init", ctx, fn, e[1], x=e[2])
                    self.edge(cur, x)
                    cur = x
                elif k in ("ad", "td"):
                    x = self.mk("dtor", ctx, fn, None, x=e)
                    self.edge(cur, x)
                    cur = x
            if dead:
                continue
            succs = [s for s in b["s"]]
            if istry:
                for s in succs:
                    if s >= 0:
                        tgt = heads[s]
                        self.edge(cur, xexit if s == fn.exit else tgt, ("eh",) if s == fn.exit else None)
                continue
            if b.get("noret"):
                self.edge(cur, xexit, ("noret",))
                continue
            if b.get("term") is not None and len(succs) >= 2 and not b.get("tdb"):
                tk = fn.nodes[b["term"]]["k"]
                t = self.mk("br", ctx, fn, b.get("lastcond", b.get("cond", b["term"])), x=b["term"], blk=b["id"])
                self.edge(cur, t)
                if tk == "SwitchStmt":
                    for s in succs:
                        if s < 0:
                            continue
                        lb = fn.blocks[s].get("label")
                        lab = ("case", fn.nodes[lb].get("cv")) if lb is not None and fn.nodes[lb]["k"] == "CaseStmt" else ("default",)
                        self.edge(t, heads[s], lab)
                else:
                    for s, lab in zip(succs, (("br", True), ("br", False))):
                        if s >= 0:
                            self.edge(t, heads[s], lab)
            else:
                for s in succs:
                    if s >= 0:
                        self.edge(cur, heads[s], None)
        return entry, exit_, xexit

    def _prune(self):
        seen = {self.entry.i}
        st = [self.entry.i]
        while st:
            x = st.pop()
            for s, _ in self.nodes[x].succ:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        self.live = seen
        for n in self.nodes:
            if n.i in seen:
                n.pred = [(p, l) for p, l in n.pred if p in seen]
            else:
                n.pred, n.succ = [], []
        # reverse postorder
        order, state = [], {}
        st = [(self.entry.i, iter(self.nodes[self.entry.i].succ))]
        state[self.entry.i] = 1
        while st:
            x, it = st[-1]
            for s, _ in it:
                if s not in state:
                    state[s] = 1
                    st.append((s, iter(self.nodes[s].succ)))
                    break
            else:
                order.append(x)
                st.pop()
        self.rpo = order[::-1]
        self.rpoi = {n: i for i, n in enumerate(self.rpo)}

    # ---- dataflow -----------------------------------------------------
    def run(self):
        import heapq
        work = [(0, self.entry.i)]
        inq = {self.entry.i}
        self.rec = False
        outs = {}
        steps = 0
        limit = 60 * len(self.nodes) + 10000

        def instate(n):
            if n.i == self.entry.i:
                return {}
            ps = [p for p, l in n.pred if p in outs and (p, n.i, l) not in self.dead]
            if not ps:
                return None
            if len(n.pred) == 1 or len(ps) == 1 and self.assume:
                return outs[ps[0]]
            return self.join(n, [outs[p] for p in ps])

        while work:
            _, i = heapq.heappop(work)
            inq.discard(i)
            steps += 1
            if steps > limit:
                raise AnalysisError("no fixpoint for " + self.rootfn.q)
            n = self.nodes[i]
            st = instate(n)
            if st is None:
                continue
            st2 = self.step(n, st)
            ch = False
            if self.assume and n.kind == "br":
                ch = self.specialise(n)
            if outs.get(i) is not st2 and outs.get(i) != st2 or i not in outs:
                outs[i] = st2
                ch = True
            else:
                outs[i] = st2
            if ch:
                for s, l in n.succ:
                    if (i, s, l) not in self.dead and s not in inq:
                        inq.add(s)
                        heapq.heappush(work, (self.rpoi[s], s))
        if self.dead:
            for n in self.nodes:
                n.succ = [(s, l) for s, l in n.succ if (n.i, s, l) not in self.dead]
                n.pred = [(p, l) for p, l in n.pred if (p, n.i, l) not in self.dead]
            self._prune()
        self.rec = True
        self.phis = {}      # keep only the merges of the fixpoint itself
        for i in self.rpo:
            n = self.nodes[i]
            st = instate(n)
            if st is None:
                continue
            self.step(n, st)
        self.outs = outs

    def specialise(self, n):
        c = self.v({}, n, n.nid)
        r = decide(c, self.assume)
        ch = False
        for s, l in n.succ:
            if not isinstance(l, tuple):
                continue
            e = (n.i, s, l)
            d = False
            if r is not None:
                if l[0] == "br":
                    d = bool(r) != l[1]
                elif l[0] == "case":
                    d = l[1] is not None and int(l[1]) != int(r)
                elif l[0] == "default":
                    d = any(k[0] == "case" and k[1] is not None and int(k[1]) == int(r) for _, k in n.succ if isinstance(k, tuple))
            if d and e not in self.dead:
                self.dead.add(e)
                ch = True
            elif not d and e in self.dead:
                self.dead.discard(e)
                ch = True
        return ch

    def join(self, n, sts):
        if not sts:
            return {}
        first = sts[0]
        if all(s is first for s in sts[1:]):
            return first
        keys = set()
        for s in sts:
            keys.update(s)
        res = {}
        for k in keys:
            vals = []
            for s in sts:
                v = s.get(k)
                if v is None:
                    v = ("undef",) if root(k)[0] in ("loc", "tmp") else ("ld", k)
                if v not in vals:
                    vals.append(v)
            if len(vals) == 1:
                res[k] = vals[0]
                continue
            ph = ("phi", n.i, k)
            vs = [v for v in vals if v != ph and v != ("undef",)]
            its = {v[1] for v in vs if v[0] == "it"}
            if vs and all(v[0] == "it" for v in vs) and len(its) == 1:
                if self.itidx and not any(isinstance(v[2], str) for v in vs):
                    xs = {v[2] for v in vs if v[2] != ph}
                    self.phis.setdefault(ph, set()).update(xs)
                    res[k] = ("it", vs[0][1], ph)
                else:
                    res[k] = ("it", vs[0][1], "*")
            elif len(vs) == 1 and ("undef",) in vals and k[0] == "loc":
                # uninitialised on one side: keep the initialised value's identity out of it
                self.phis.setdefault(ph, set()).update(vs)
                res[k] = ph
            elif len(vs) == 1 and ph in vals:
                # loop phi with one other source stays a phi (monotone)
                self.phis.setdefault(ph, set()).update(vs)
                res[k] = ph
            else:
                self.phis.setdefault(ph, set()).update(vs)
                res[k] = ph
        return res

    def expand(self, t, lim=64):
        """All non-phi values a term can stand for at its top level."""
        out, seen, st = [], set(), [t]
        while st and len(out) < lim:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "phi" and x in self.phis:
                st.extend(self.phis[x])
            elif x[0] == "ite":
                st.append(x[2])
                st.append(x[3])
            else:
                out.append(x)
        return out

    def emit(self, kind, n, **kw):
        if self.rec:
            e = Ev(kind, n.i, ctx=n.ctx, fn=n.fn, **kw)
            self.events.append(e)
            self.ev_at.setdefault(n.i, []).append(e)

    def transparent(self, t):
        r = self.prog.records.get(base_type(t))
        return r if r is not None and not r["userCopyCtor"] and not r["userCopyAssign"] else None

    def load(self, st, loc, t=""):
        v = st.get(loc)
        if v is not None:
            return v
        # whole-object value known?
        l = loc
        path = []
        while l[0] in ("fld", "el"):
            path.append(l)
            l = l[1]
            v = st.get(l)
            if v is not None and v[0] not in ("undef",):
                if v[0] == "zero":
                    return ("c", 0)
                return ("fv", v, loc[-1] if len(path) == 1 else tuple(p[2] for p in reversed(path)))
        return ("ld", loc)

    def kill(self, st, loc):
        st = dict(st)
        for k in list(st):
            x = k
            while True:
                if x == loc:
                    del st[k]
                    break
                if x[0] in ("fld", "el"):
                    x = x[1]
                else:
                    break
        return st

    def killmem(self, st):
        if any(root(k)[0] not in ("loc", "tmp") for k in st):
            return {k: v for k, v in st.items() if root(k)[0] in ("loc", "tmp")}
        return st

    @staticmethod
    def may_alias(a, b):
        """May two access paths name the same cell?  Distinct locals, globals and
        allocations differ; members of different names differ."""
        while True:
            if a == b:
                return True
            if a[0] == b[0] == "fld":
                if a[2] != b[2]:
                    return False
                a, b = a[1], b[1]
                continue
            if a[0] == b[0] == "el":
                if a[2] != b[2] and isinstance(a[2], tuple) and isinstance(b[2], tuple) and a[2][0] == b[2][0] == "c":
                    return False
                a, b = a[1], b[1]
                continue
            ra, rb = root(a)[0], root(b)[0]
            own = ("loc", "tmp", "new", "g")
            if a[0] in own and b[0] in own:
                return False
            for x, y in ((a, b), (b, a)):
                if x[0] in ("loc", "tmp"):      # locals whose address is not passed on
                    return False
                if x[0] in ("fld", "el"):
                    z = x
                    while z[0] in ("fld", "el"):
                        z = z[1]
                    if z[0] in ("loc", "tmp"):
                        return False
            return True

    def store(self, st, loc, v):
        if loc[0] == "el" and root(loc)[0] not in ("loc", "tmp"):
            return st
        if st.get(loc) == v:
            return st
        if loc[0] in ("fld", "el"):
            # other paths that may name the same cell
            dead = [k for k in st if k[0] == loc[0] and k != loc and
                    (k[2] == loc[2] if loc[0] == "fld" else k[1] == loc[1]) and self.may_alias(k, loc)]
            st = dict(st)
            for k in dead:
                del st[k]
        else:
            st = dict(st)
        st[loc] = v
        return st

    def copyrec(self, st, dst, src, rec, n, nid, ev=True):
        if dst == src:
            return st
        if src[0] in ("fv", "ite", "op", "f", "c"):
            st = self.kill(st, dst)
            st[dst] = src
            return st
        for f in rec["fields"]:
            q = rec["q"] + "::" + f["name"]
            r2 = self.transparent(f["t"])
            if r2 is not None and "*" not in f["t"]:
                st = self.copyrec(st, ("fld", dst, q), ("fld", src, q), r2, n, nid)
            else:
                v = self.load(st, ("fld", src, q))
                st = self.store(st, ("fld", dst, q), v)
        for b in rec["bases"]:
            r2 = self.transparent(b["t"])
            if r2 is not None:
                st = self.copyrec(st, dst, src, r2, n, nid)
        return st

    # evaluate node: value from self.val (already computed) or computed now
    def v(self, st, n, nid):
        if nid is None or nid < 0:
            return ("c", "?")
        x = self.val.get((n.ctx, nid))
        if x is not None:
            return x
        t, _ = self.ev(st, n, nid)
        return t

    def setv(self, n, nid, t):
        self.val[(n.ctx, nid)] = t

    def step(self, n, st):
        k = n.kind
        if k == "el":
            t, st = self.ev(st, n, n.nid)
            self.setv(n, n.nid, t)
            return st
        if k == "enter":
            return self.enter(n, st)
        if k == "leave":
            c2 = n.x
            call = n.fn.nodes[n.nid]
            fn2 = self.ctxs[c2][2]
            if fn2.decls.get(fn2.key, {}).get("ctor"):
                t = self.this_of(c2)
            else:
                t = st.get(("retv", c2), ("c", "void"))
            self.setv(n, n.nid, t)
            # drop callee locals? keep: cheap, and references may point to them
            self.emit("leave", n, nid=n.nid, key=fn2.key, q=fn2.q, val=t, inl=c2)
            return st
        if k == "init":
            v = self.v(st, n, n.nid)
            this = self.thisv.get(n.ctx, ("arg", "this"))
            f = n.x
            if not f:
                return st
            rec = self.prog.records.get(n.fn.cls)
            fl = ("fld", this, n.fn.cls + "::" + f)
            ft = None
            if rec:
                for x in rec["fields"]:
                    if x["name"] == f:
                        ft = x["t"]
            r2 = self.transparent(ft) if ft else None
            nd = n.fn.nodes[n.fn.strip(n.nid)]
            if nd["k"] == "CXXInheritedCtorInitExpr":
                return st
            if r2 is not None:
                if v == fl:
                    return st
                if is_term_loc(v):
                    st = self.copyrec(st, fl, v, r2, n, n.nid)
                self.emit("write", n, loc=fl, val=v, op="init", nid=n.nid)
                return st
            if nd["k"] == "ImplicitValueInitExpr":
                v = ("c", 0)
            st = self.store(st, fl, v)
            self.emit("write", n, loc=fl, val=v, op="init", nid=n.nid)
            return st
        if k == "dtor":
            self.emit("dtor", n, nid=None, info=n.x, loc=("loc", n.ctx, n.x[1]) if n.x[0] == "ad" else ("tmp", n.ctx, n.x[1]))
            return st
        if k == "br":
            c = self.v(st, n, n.nid)
            self.emit("br", n, val=c, nid=n.nid)
            return st
        if k in ("exit", "xexit") and n.ctx == 0:
            self.emit(k, n, nid=None)
        return st

    def this_of(self, ctx):
        return self.thisv.get(ctx, ("arg", "this"))

    def enter(self, n, st):
        fn = n.fn
        nd = fn.nodes[n.nid]
        c2 = n.x
        fn2 = self.ctxs[c2][2]
        args = list(nd["args"])
        info = fn.decls.get(nd["callee"], {})
        obj = None
        if nd["call"] == "member":
            obj = self.v(st, n, nd["obj"])
        elif nd["call"] == "op" and info.get("cls") and not info.get("static"):
            obj = self.v(st, n, args[0])
            args = args[1:]
        elif nd["call"] == "ctor":
            obj = ("tmp", n.ctx, n.nid)
            tgt = self.init_target(n.fn, n.nid, n.ctx)
            if tgt is not None:
                obj = tgt
            st = self.kill(st, obj)
            if nd.get("zeroinit"):
                st[obj] = ("zero",)
        if obj is not None:
            self.thisv[c2] = obj
        av = [self.v(st, n, a) for a in args]
        self.emit("call", n, q=fn2.q, key=fn2.key, obj=obj, args=av, nid=n.nid, info=info, inl=c2)
        for p, a, an in zip(fn2.params, av, args):
            loc = ("loc", c2, p["d"])
            if p.get("ref"):
                st = dict(st)
                st[loc] = a
                continue
            rec = self.transparent(p["t"]) if not p["t"].endswith("*") else None
            if rec is not None and is_term_loc(a):
                st = self.copyrec(self.kill(st, loc), loc, a, rec, n, n.nid)
            else:
                st = dict(st)
                st[loc] = a
        return st

    def init_target(self, fn, nid, ctx):
        """Location directly initialised by constructor expression nid (a local
        variable, a member, a base or the object of a delegating constructor), or None."""
        if fn.ctorinits:
            if "ci" not in fn._x:
                fn._x["ci"] = {fn.strip(e[1], casts=False): e[2] for b in fn.blocks.values() for e in b["e"] if e[0] == "i"}
            if nid in fn._x["ci"]:
                this = self.this_of(ctx)
                f = fn._x["ci"][nid]
                return ("fld", this, fn.cls + "::" + f) if f else this
        key = ("it", nid)
        if key not in fn._x:
            res = None
            p = fn.parent
            x = nid
            while x in p:
                y = p[x]
                yn = fn.nodes[y]
                if yn["k"] == "DeclStmt":
                    for v in yn["vars"]:
                        if v["init"] >= 0 and fn.strip(v["init"], casts=False) == nid:
                            if not v["t"].rstrip().endswith("&"):
                                res = v["d"]
                    break
                if yn["k"] in fn.TRANSPARENT and yn["k"] != "MaterializeTemporaryExpr":
                    x = y
                    continue
                break
            fn._x[key] = res
        r = fn._x[key]
        return ("loc", ctx, r) if r is not None else None

    # expression evaluation ------------------------------------------------
    def ev(self, st, n, nid):
        fn = n.fn
        nd = fn.nodes[nid]
        k = nd["k"]
        c = nd["c"]
        V = lambda i: self.v(st, n, i)
        if k in fn.TRANSPARENT:
            return (V(c[0]) if c else ("c", "?")), st
        if k == "IntegerLiteral" or k == "CharacterLiteral":
            return ("c", int(nd["v"])), st
        if k == "CXXBoolLiteralExpr":
            return ("c", int(nd["v"])), st
        if k == "FloatingLiteral":
            f = float(nd["v"])
            return ("c", int(f) if f == int(f) and abs(f) < 1e15 else f), st
        if k == "StringLiteral":
            return ("s", nd.get("s", "")), st
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ("c", 0), st
        if k == "DeclRefExpr":
            if nd.get("fn"):
                return ("fn", nd["fn"]), st
            if nd.get("enum"):
                return ("c", int(nd["cv"])), st
            return self.varloc(st, n, nd["d"]), st
        if k == "CXXThisExpr":
            return self.this_of(n.ctx), st
        if k == "MemberExpr":
            if nd.get("fn"):
                return ("fn", nd["fn"]), st
            if nd.get("d"):
                return self.varloc(st, n, nd["d"]), st
            b = V(c[0])
            loc = ("fld", b, nd["mc"] + "::" + nd["m"])
            if "&" in "":
                pass
            # reference members are transparent pointers
            rec = self.prog.records.get(nd["mc"])
            if rec:
                for f in rec["fields"]:
                    if f["name"] == nd["m"] and f["t"].rstrip().endswith("&"):
                        return self.load(st, loc), st
            return loc, st
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr",
                 "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXDynamicCastExpr", "BuiltinBitCastExpr"):
            x = V(c[0])
            ck = nd.get("cast")
            if ck == "LValueToRValue":
                if x[0] in ("c", "s"):
                    return x, st
                v = self.load(st, x, nd["t"])
                if self.reads and self.rec and root(x)[0] not in ("loc", "tmp"):
                    self.emit("read", n, loc=x, nid=nid)
                return v, st
            if ck == "NullToPointer":
                return ("c", 0), st
            return x, st
        if k == "ArraySubscriptExpr":
            b, i = V(c[0]), V(c[1])
            bt = fn.nodes[c[0]]["t"]
            if not (bt.endswith("*") or "[" in bt):
                b, i = i, b
            return self.elem(b, i), st
        if k == "UnaryOperator":
            op = nd["op"]
            x = V(c[0])
            if op in ("*", "&", "+", "__extension__"):
                if op == "*" and x[0] == "it":
                    return self.deref_it(x), st
                return x, st
            if op in ("++", "--"):
                v = self.load(st, x)
                nv = self.arith(op[0], v, ("c", 1))
                self.emit("write", n, loc=x, val=nv, op=op, nid=nid)
                st = self.store(st, x, nv)
                return (v if nd.get("post") else x), st
            if op == "-" and x[0] == "c" and isinstance(x[1], (int, float)):
                return ("c", -x[1]), st
            return ("op1", op, x), st
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = nd["op"]
            a, b = V(c[0]), V(c[1])
            if op == "=":
                self.emit("write", n, loc=a, val=b, op="=", nid=nid)
                return a, self.store(st, a, b)
            if k == "CompoundAssignOperator":
                nv = self.arith(op[:-1], self.load(st, a), b)
                self.emit("write", n, loc=a, val=nv, op=op, nid=nid, args=[b])
                return a, self.store(st, a, nv)
            if op == ",":
                return b, st
            if "cv" in nd:
                return ("c", int(nd["cv"])), st
            if op in ("->*", ".*"):
                return ("fld", a, "?"), st
            return self.arith(op, a, b), st
        if k == "ConditionalOperator" or k == "BinaryConditionalOperator":
            return ("ite", V(c[0]), V(c[1]), V(c[2])), st
        if k == "DeclStmt":
            for v in nd["vars"]:
                if v["static"]:
                    continue
                loc = ("loc", n.ctx, v["d"])
                if v["init"] is not None and v["init"] >= 0:
                    x = V(v["init"])
                    if v["t"].rstrip().endswith("&"):
                        st = dict(st)
                        st[loc] = x
                        continue
                    rec = self.transparent(v["t"]) if not v["t"].endswith("*") and "[" not in v["t"] else None
                    if x == loc:
                        pass
                    elif rec is not None and is_term_loc(x):
                        st = self.copyrec(self.kill(st, loc), loc, x, rec, n, nid)
                    else:
                        st = self.kill(st, loc)
                        ini = fn.nodes[fn.strip(v["init"])]
                        if ini["k"] == "InitListExpr" and "[" in v["t"]:
                            for j, y in enumerate(ini.get("inits", [])):
                                st[("el", loc, ("c", j))] = V(y)
                            if ini.get("filler") is not None:
                                st[loc] = ("zero",)
                        elif ini["k"] == "InitListExpr" and rec is not None:
                            st[loc] = ("zero",)
                            for f, y in zip(rec["fields"], ini.get("inits", [])):
                                st = self.store(st, ("fld", loc, rec["q"] + "::" + f["name"]), V(y))
                        else:
                            st[loc] = x
                    self.emit("write", n, loc=loc, val=x, op="decl", nid=nid)
                else:
                    st = self.kill(st, loc)
                    if v["t"].startswith("std::"):
                        pass
            return ("c", "void"), st
        if k == "ReturnStmt":
            if c:
                x = V(c[0])
                st = dict(st)
                st[("retv", n.ctx)] = x
                self.emit("ret", n, val=x, nid=nid)
            else:
                self.emit("ret", n, val=None, nid=nid)
            return ("c", "void"), st
        if k == "CXXThrowExpr":
            self.emit("throw", n, val=V(c[0]) if c else None, nid=nid, t=fn.nodes[c[0]]["t"] if c else "")
            return ("c", "void"), st
        if k == "InitListExpr":
            inits = nd.get("inits", [])
            if len(inits) == 1 and not self.transparent(nd["t"]) and "[" not in nd["t"]:
                return V(inits[0]), st
            t = nd["t"]
            rec = self.transparent(t)
            loc = ("tmp", n.ctx, nid)
            if rec is not None:
                st = self.kill(st, loc)
                st[loc] = ("zero",)
                for f, y in zip(rec["fields"], inits):
                    yv = V(y)
                    r2 = self.transparent(f["t"])
                    fl = ("fld", loc, rec["q"] + "::" + f["name"])
                    if r2 is not None and is_term_loc(yv) and "*" not in f["t"]:
                        st = self.copyrec(st, fl, yv, r2, n, nid)
                    else:
                        st = self.store(st, fl, yv)
                return loc, st
            return ("f", "{}") + tuple(V(y) for y in inits), st
        if k == "CompoundLiteralExpr" and c:
            return V(c[0]), st
        if k == "ImplicitValueInitExpr" or k == "CXXScalarValueInitExpr":
            return ("c", 0), st
        if k == "UnaryExprOrTypeTraitExpr":
            return (("c", int(nd["cv"])) if "cv" in nd else ("f", "sizeof", ("s", nd.get("argt", "")))), st
        if k == "OffsetOfExpr":
            return ("f", "offsetof", ("s", nd["argt"]), ("s", nd["path"])), st
        if k == "LambdaExpr":
            return ("fn", nd["fn"]), st
        if k == "CXXNewExpr":
            self.emit("new", n, nid=nid, t=nd["nt"], val=("new", n.i), info=("size", V(nd["size"])) if nd.get("arr") and nd.get("size") is not None else None)
            return ("new", n.i), st
        if k == "CXXDeleteExpr":
            self.emit("delete", n, nid=nid, val=V(c[0]), t=nd.get("dt"))
            return ("c", "void"), st
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "UserDefinedLiteral"):
            return self.call(st, n, nid, nd)
        if k.startswith("OMP"):
            self.emit("omp", n, nid=nid)
            return ("c", "void"), st
        if "cv" in nd:
            return ("c", int(nd["cv"])), st
        return ("e", n.ctx, nid), st

    def varloc(self, st, n, d):
        info = n.fn.decls.get(d) or {}
        if info.get("k") == "global" or info.get("k") == "field":
            return ("g", d)
        if info.get("k") == "static":
            return ("g", "static:" + n.fn.q + ":" + d)
        # captured variables of a lambda or the enclosing function: search contexts
        ctx = n.ctx
        loc = ("loc", ctx, d)
        isparam = any(p["d"] == d for p in n.fn.params)
        if info.get("ref"):
            v = st.get(loc)
            if v is not None:
                return v
            if ctx == 0 and isparam:
                return ("arg", info["q"])
            x = self.outer(st, n, d)
            return x if x is not None else ("ld", loc)
        if ctx == 0 and isparam and loc not in st:
            return loc if False else ("loc", 0, d)
        if not isparam and loc not in st:
            x = self.outer_loc(n, d)
            if x is not None:
                return x
        return loc

    def _outer_ctx(self, n, d):
        c = n.ctx
        while c is not None:
            p = self.ctxs[c][0]
            c = p
            if c is not None:
                f = self.ctxs[c][2]
                if f.unit == n.fn.unit and d in self._locals(f):
                    return c
        return None

    def _locals(self, f):
        if "locals" not in f._x:
            s = {p["d"] for p in f.params}
            for x in f.nodes:
                if x["k"] == "DeclStmt":
                    s.update(v["d"] for v in x["vars"])
            f._x["locals"] = s
        return f._x["locals"]

    def outer_loc(self, n, d):
        if d in self._locals(n.fn):
            return None
        c = self._outer_ctx(n, d)
        return ("loc", c, d) if c is not None else None

    def outer(self, st, n, d):
        c = self._outer_ctx(n, d)
        if c is None:
            return None
        return st.get(("loc", c, d))

    def load_param(self, loc):
        return None

    COMM = {"+", "*", "==", "!=", "&", "|", "^"}

    def arith(self, op, a, b):
        if a[0] == "c" and b[0] == "c" and all(isinstance(x[1], (int, float)) for x in (a, b)):
            try:
                x, y = a[1], b[1]
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                     "==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y), ">": lambda: int(x > y),
                     "<=": lambda: int(x <= y), ">=": lambda: int(x >= y), "&&": lambda: int(bool(x) and bool(y)),
                     "||": lambda: int(bool(x) or bool(y)), "|": lambda: x | y, "&": lambda: x & y,
                     "<<": lambda: x << y}.get(op)
                if r:
                    return ("c", r())
            except Exception:
                pass
        if a[0] == "it" and op in ("+", "-"):
            return self.itmove(a, op, b)
        if op in ("+", "-") and (a[0] in ("el",) or a[0] in ("new",)):
            return self.elem(a, b) if op == "+" else ("op", op, a, b)
        if op in self.COMM and repr(a) > repr(b):
            a, b = b, a
        if op == ">":
            return ("op", "<", b, a)
        if op == ">=":
            return ("op", "<=", b, a)
        return ("op", op, a, b)

    def elem(self, b, i):
        if b[0] == "el" and b[2] in (("c", 0), "front"):
            return ("el", b[1], i)
        if b[0] == "el" and b[2] == "*p":
            return b
        return ("el", b, i)

    def itmove(self, a, op, b):
        """The iterator or element pointer a moved by b."""
        if not self.itidx or isinstance(a[2], str):
            return ("it", a[1], "*")
        if b[0] == "it":
            return self.arith(op, a[2], b[2]) if b[1] == a[1] and not isinstance(b[2], str) else ("op", op, a, b)
        return ("it", a[1], self.arith(op, a[2], b))

    def itidx_of(self, obj, p):
        if not self.itidx:
            return p
        return ("c", 0) if p == "b" else ("f", "size", obj)

    def deref_it(self, x):
        p = x[2]
        if not isinstance(p, str):
            return ("el", x[1], p)
        return ("el", x[1], "front" if p == "b" else "end" if p == "e" else "*")

    def call(self, st, n, nid, nd):
        fn = n.fn
        key = nd.get("callee")
        info = (fn.decls.get(key) or {}) if key else {}
        q = info.get("q", "?")
        args = list(nd["args"])
        obj = None
        if nd["call"] == "member":
            obj = self.v(st, n, nd["obj"])
        elif nd["call"] == "op" and info.get("cls") and not info.get("static"):
            obj = self.v(st, n, args[0])
            args = args[1:]
        av = [self.v(st, n, a) for a in args]
        name = q.split("::")[-1]
        cls = info.get("cls", "")
        E = lambda **kw: self.emit("call", n, q=q, key=key, obj=obj, args=av, nid=nid, info=info, **kw)

        if nd["call"] == "ctor":
            rec = self.transparent(nd["t"])
            if (info.get("copyctor") or info.get("movector")) and len(av) == 1:
                if cls in self.prog.records:
                    if rec is not None:
                        E()
                        tgt = self.init_target(fn, nid, n.ctx) or ("tmp", n.ctx, nid)
                        if nd.get("elidable"):
                            return av[0], st
                        st = self.copyrec(self.kill(st, tgt), tgt, av[0], rec, n, nid)
                        return tgt, st
                # copies of opaque class values: the value
                E()
                v = av[0]
                if is_term_loc(v) and v[0] in ("loc", "tmp", "fld", "el", "arg", "g") and not cls.startswith(ITER):
                    v2 = self.load(st, v)
                    return v2, st
                if cls.startswith(ITER):
                    return (self.load(st, v) if is_term_loc(v) else v), st
                return v, st
            if cls.startswith("std::basic_string") or cls.startswith(SMART) or cls.startswith(ITER) or cls == "std::function":
                E()
                if len(av) >= 1 and not (cls.startswith("std::basic_string") and len(av) > 2):
                    a0 = av[0]
                    if cls.startswith(SMART) and is_term_loc(a0) and fn.nodes[args[0]].get("lv"):
                        a0 = self.load(st, a0)
                    if cls.startswith(ITER) and is_term_loc(a0):
                        a0 = self.load(st, a0)
                    return a0, st
                if not av:
                    return (("s", "") if cls.startswith("std::basic_string") else ("c", 0)), st
                return ("f", q) + tuple(av), st
            E()
            tgt = self.init_target(fn, nid, n.ctx) or ("tmp", n.ctx, nid)
            st = self.kill(st, tgt)
            if cls in self.prog.records:
                if nd.get("zeroinit"):
                    st[tgt] = ("zero",)
                else:
                    st[tgt] = ("f", "new:" + cls) + tuple(av)
                return tgt, st
            return tgt, st

        # implicit copy assignment of repo records
        if info.get("copyassign") or info.get("moveassign"):
            if cls in self.prog.records:
                rec = self.transparent(cls)
                E()
                if rec is not None and is_term_loc(av[0]):
                    self.emit("write", n, loc=obj, val=av[0], op="=", nid=nid)
                    return obj, self.copyrec(self.kill(st, obj), obj, av[0], rec, n, nid)
                st = self.kill(st, obj)
                return obj, st
        if cls.startswith(SMART) or (cls == "" and q in ("std::operator==", "std::operator!=")):
            if name in ("operator->", "operator*", "get", "lock", "operator bool"):
                E()
                if is_term_loc(obj) and obj[0] not in ("new",):
                    return self.smartval(st, obj), st
                return obj, st
            if name in ("operator=",):
                v = av[0]
                if is_term_loc(v) and fn.nodes[args[0]]["t"].startswith("std::") and v[0] != "new":
                    v = self.smartval(st, v) if v[0] in ("loc", "fld", "el", "g") else v
                self.emit("write", n, loc=obj, val=v, op="=", nid=nid)
                E()
                return obj, self.store(st, obj, v)
            if name in ("reset",):
                v = av[0] if av else ("c", 0)
                self.emit("write", n, loc=obj, val=v, op="=", nid=nid)
                E()
                return ("c", "void"), self.store(st, obj, v)
        if cls.startswith(CONT):
            if name in ("operator[]", "at"):
                E()
                return ("el", obj, av[0]), st
            if name in ("front", "back"):
                E()
                return ("el", obj, name), st
            if name in ("begin", "cbegin", "rbegin", "crbegin"):
                E()
                return ("it", obj, self.itidx_of(obj, "b") if name[0] != "r" and name[1] != "r" else "b"), st
            if name in ("end", "cend", "rend", "crend"):
                E()
                return ("it", obj, self.itidx_of(obj, "e") if name[0] != "r" and name[1] != "r" else "e"), st
            if name in ("c_str", "data"):
                E()
                if cls.startswith("std::basic_string"):
                    if obj[0] in ("s", "f", "ret", "ite", "c", "op", "phi", "ld", "fv", "out"):
                        return obj, st
                    return self.load(st, obj), st
                return ("el", obj, ("c", 0)), st
            if name in ("size", "empty", "length"):
                E()
                o = obj
                if cls.startswith("std::basic_string") and obj[0] in ("loc",):
                    o = self.load(st, obj)
                return ("f", "size" if name == "length" else name, o), st
            if name in ("insert", "erase", "emplace", "find"):
                E()
                return ("it", obj, "*"), st
            if name == "operator=" and cls.startswith("std::basic_string"):
                v = av[0]
                if is_term_loc(v) and v[0] in ("loc", "fld", "el", "g", "arg", "tmp"):
                    v = self.load(st, v)
                self.emit("write", n, loc=obj, val=v, op="=", nid=nid)
                E()
                return obj, self.store(st, obj, v)
            E()
            if not info.get("const"):
                st = self.kill(st, obj)
                if cls.startswith("std::basic_string") and obj[0] == "loc":
                    st[obj] = ("f", name, ("ret", n.i))
            return ("ret", n.i) if name not in ("operator+=", "append", "assign", "operator=") else obj, st
        if cls.startswith(ITER) or (not cls and name in ("operator==", "operator!=", "operator-", "operator+", "operator<", "operator<=", "operator>", "operator>=") and av and
                                    any(self._isit(st, a) for a in av)):
            o = obj if obj is not None else av[0]
            ov = self._itval(st, o)
            if name in ("operator*", "operator->"):
                E()
                return (self.deref_it(ov) if ov[0] == "it" else ("el", ov, "*")), st
            if name == "base":
                return ov, st
            if name in ("operator++", "operator--"):
                nv = self.itmove(ov, name[-1], ("c", 1)) if ov[0] == "it" else ov
                if is_term_loc(o):
                    self.emit("write", n, loc=o, val=nv, op="++", nid=nid)
                    st = self.store(st, o, nv)
                return (o if not av else ov), st
            if name in ("operator+", "operator-") and (not av or not self._isit(st, av[-1]) or obj is not None):
                k1 = av[-1] if av else ("c", 1)
                if is_term_loc(k1) and k1[0] in ("loc", "tmp", "fld"):
                    k1 = self.load(st, k1)
                return (self.itmove(ov, name[-1], k1) if ov[0] == "it" else ov), st
            if name in ("operator+=", "operator-="):
                k1 = av[-1] if av else ("c", 1)
                if is_term_loc(k1) and k1[0] in ("loc", "tmp", "fld"):
                    k1 = self.load(st, k1)
                nv = self.itmove(ov, name[-2], k1) if ov[0] == "it" else ov
                if is_term_loc(o):
                    st = self.store(st, o, nv)
                return o, st
            if name == "operator[]":
                return ("el", ov[1], av[0]) if ov[0] == "it" else ("el", ov, av[0]), st
            ops = ([obj] if obj is not None else []) + av
            vs = [self._itval(st, a) for a in ops[:2]]
            if self.itidx and len(vs) == 2 and all(v[0] == "it" and not isinstance(v[2], str) for v in vs) and vs[0][1] == vs[1][1]:
                return self.arith(name[8:], vs[0][2], vs[1][2]), st
            return ("op", name[8:]) + tuple(vs), st
        if q in ("std::move", "std::forward", "std::addressof", "std::ref"):
            return av[0], st
        if q in ("std::__addressof",):
            return av[0], st
        if q in ("std::begin", "std::end"):
            return ("it", av[0], self.itidx_of(av[0], "b" if q == "std::begin" else "e")), st
        if q in ("std::distance",):
            E()
            return ("f", q) + tuple(self._itval(st, a) for a in av), st
        if q == "std::swap":
            E()
            a, b = av
            x, y = self.load(st, a), self.load(st, b)
            self.emit("write", n, loc=a, val=y, op="=", nid=nid)
            self.emit("write", n, loc=b, val=x, op="=", nid=nid)
            return ("c", "void"), self.store(self.store(st, a, y), b, x)
        if q == "std::make_shared" or q == "std::__make_shared":
            E()
            self.emit("new", n, nid=nid, t=nd["t"], val=("new", n.i), args=av)
            return ("new", n.i), st
        if q in PURE or cls.startswith("std::complex") or cls == "std::numeric_limits" or (
                q.startswith("std::operator") and "complex" in nd["t"]):
            if not (cls.startswith("std::complex") and name in ("operator+=", "operator-=", "operator*=", "operator/=", "operator=")):
                E()
                a2 = []
                for a, an in zip(av, args):
                    if is_term_loc(a) and a[0] != "ret" and fn.nodes[fn.strip(an, casts=False)].get("lv") and not nd.get("_"):
                        a2.append(self.load(st, a))
                    else:
                        a2.append(a)
                o2 = (obj,) if obj is not None else ()
                return ("f", q) + o2 + tuple(a2), st
        # opaque call ------------------------------------------------------
        E()
        pts = info.get("params", [])
        offs = 0
        for j, (a, an) in enumerate(zip(av, args)):
            pt = pts[j] if j < len(pts) else "..."
            pt = pt.replace("__restrict", "").replace("restrict", "").rstrip()
            mut = False
            if pt == "...":
                at = fn.nodes[an]["t"]
                mut = at.endswith("*") and not at.startswith("const ")
            elif pt.rstrip().endswith("&"):
                mut = not pt.startswith("const ") and not pt.rstrip("& ").endswith(" const")
            elif pt.endswith("*"):
                mut = not pt.startswith("const ")
            if pt.endswith("**") or "*const *" in pt and pt.endswith("*"):
                mut = "const *const" not in pt
            if mut and is_term_loc(a) and root(a)[0] in ("loc", "tmp"):
                st = self.kill(st, a)
                st[a] = ("out", n.i, j)
            elif mut and a[0] == "fn" or mut and a[0] in ("it",):
                pass
            elif mut and is_term_loc(a):
                st = self.kill(st, a)
                st[a] = ("out", n.i, j)
        if key in self.prog.fns:
            f2 = self.prog.fns[key]
            if not info.get("const"):
                st = self.killmem(st)
                if obj is not None and root(obj)[0] in ("loc", "tmp"):
                    st = self.kill(st, obj)
                    st[obj] = ("out", n.i, "this")
        elif obj is not None and not info.get("const") and root(obj)[0] in ("loc", "tmp") and not cls.startswith("std::"):
            st = self.kill(st, obj)
        if key is None:
            st = self.killmem(st)
        return ("ret", n.i), st

    def smartval(self, st, loc):
        v = st.get(loc)
        if v is not None:
            return v
        if loc[0] in ("ld", "new", "ret", "phi", "out", "c"):
            return loc
        return ("ld", loc)

    def _isit(self, st, a):
        if a[0] == "it":
            return True
        v = st.get(a)
        return v is not None and v[0] == "it"

    def _itval(self, st, o):
        if o[0] == "it":
            return o
        v = st.get(o)
        if v is not None:
            return v
        return ("ld", o) if is_term_loc(o) else o

    # ---- graph queries ------------------------------------------------
    def reach(self, starts, stop=None, edges=None):
        """Nodes reachable from starts (exclusive of stop nodes' successors)."""
        seen = set(starts)
        st = list(starts)
        while st:
            x = st.pop()
            if stop is not None and x in stop:
                continue
            for s, l in self.nodes[x].succ:
                if edges is not None and not edges(x, s, l):
                    continue
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def coreach(self, targets, stop=None):
        seen = set(targets)
        st = list(targets)
        while st:
            x = st.pop()
            if stop is not None and x in stop:
                continue
            for p, l in self.nodes[x].pred:
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        return seen

    def follow(self, n0, base, stop=None, extra=None, limit=400000, negne=False, consts=False):
        """Walks from node n0 keeping only what is known on the path itself: base
        maps terms to numbers and merges (phis) take the value that comes along
        the edge walked.  Branches that the known values decide are followed one
        way only.  stop(node, env) ends a path; extra(event, env) may return
        further {term: number} learnt at an event.  consts keeps constants merged
        with other values, too, and treats coming back to n0 like any other node.  Returns {node: predecessor
        state} of what was reached, keyed by node (first way in)."""
        if not hasattr(self, "_phiat"):
            self._phiat = {}
            used = set()
            st = [t for e in self.events if e.kind == "br" for t in subterms(e.val)]
            st += [t for e in self.events if e.kind == "call" for a in e.args for t in subterms(a)]
            st += [t for e in self.events if e.kind in ("write", "delete", "ret") and e.val is not None and
                   not (e.kind == "write" and e.loc[0] == "loc" and e.op != "=") for t in subterms(e.val)]
            while st:
                t = st.pop()
                if t in self.phis and t not in used:
                    used.add(t)
                    for v in self.phis[t]:
                        st.extend(subterms(v))
            for ph in used:
                vs = self.phis[ph]
                flag = all(v[0] in ("c", "phi", "undef") for v in vs)
                self._phiat.setdefault(ph[1], []).append((ph, flag))
        start = (n0, frozenset(base.items()))
        seen = {start} if not consts else set()
        came = {n0: None}
        work = [start]
        first = True
        while work:
            if len(seen) > limit:
                raise AnalysisError("too many states while following a value through " + self.rootfn.q)
            x, kn = work.pop()
            d = dict(kn)

            def env(t, d=d):
                v = d.get(t)
                if v is not None:
                    return v
                if t[0] == "ite":
                    for a in t[2:]:
                        if a in d:
                            return d[a]
                if negne and t[0] == "op" and t[1] in ("==", "!=") and len(t) == 4:
                    a, b = decide(t[2], env), decide(t[3], env)
                    if (a is None) != (b is None) and (a == -1 or b == -1):
                        return int(t[1] == "!=")
                return None
            begin, first = first or (x == n0 and not consts), False
            if not begin:
                if extra is not None:
                    for e in self.ev_at.get(x, ()):
                        m = extra(e, env)
                        if m:
                            d.update(m)
                if stop is not None and stop(x, env):
                    continue
            nd = self.nodes[x]
            res = None
            if nd.kind == "br":
                for e in self.ev_at.get(x, ()):
                    if e.kind == "br":
                        res = decide(e.val, env)
            for s, l in nd.succ:
                if begin and l == ("eh",):
                    continue        # the walk starts where n0 has succeeded
                if res is not None and isinstance(l, tuple):
                    if l[0] == "br" and bool(res) != l[1]:
                        continue
                    if l[0] == "case" and l[1] is not None and int(l[1]) != int(res):
                        continue
                    if l[0] == "default" and any(k[0] == "case" and k[1] is not None and int(k[1]) == int(res)
                                                 for _, k in nd.succ if isinstance(k, tuple)):
                        continue
                d2 = d
                ph = self._phiat.get(s)
                if ph:
                    o = self.outs.get(x, {})
                    d2 = dict(d)
                    for p, flag in ph:
                        v = o.get(p[2])
                        k = None if v is None else decide(v, env)
                        if k is not None and not flag and not consts and not any(t in d for t in subterms(v)):
                            k = None
                        if k is None:
                            d2.pop(p, None)
                        else:
                            d2[p] = k
                if self.nodes[s].kind == "leave":
                    # locals of the callee that ended are gone (its result may still be a merge of them)
                    up = set()
                    c = self.nodes[s].ctx
                    while c is not None:
                        up.add(c)
                        c = self.ctxs[c][0]
                    rv = self.outs.get(x, {}).get(("retv", self.nodes[s].x))
                    drop = [p for p in d2 if p[0] == "phi" and p != rv and root(p[2])[0] in ("loc", "tmp", "retv") and root(p[2])[1] not in up]
                    if drop:
                        d2 = dict(d2)
                        for p in drop:
                            v = d2.pop(p)
                ns = (s, frozenset(d2.items()))
                if ns not in seen:
                    seen.add(ns)
                    came.setdefault(s, x)
                    work.append(ns)
        return came

    def after(self, i):
        return [s for s, _ in self.nodes[i].succ]

    def must_pass(self, src, dst, via, edges=None):
        """True iff every path from (after) src to dst goes through a node in via."""
        if src in via:
            return True
        starts = [src]
        seen = self.reach(starts, stop=via, edges=edges)
        return dst not in seen or dst in via

    def calls(self, pred):
        if isinstance(pred, str):
            p = pred
            pred = lambda e: e.q == p
        elif isinstance(pred, (set, frozenset, tuple, list)):
            ps = set(pred)
            pred = lambda e: e.q in ps
        return [e for e in self.events if e.kind == "call" and pred(e)]

    def writes(self, pred=None):
        return [e for e in self.events if e.kind == "write" and (pred is None or pred(e))]

    def trace(self, n):
        """call chain of node n"""
        out = []
        c = self.nodes[n].ctx
        while c is not None:
            p, nid, f = self.ctxs[c]
            out.append(f.q)
            c = p
        return " <- ".join(out)
