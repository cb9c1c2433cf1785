"""C14 no exception crosses a parallel region, a C callback or a C frame."""
import re
from vv.luaattr import *
from rules.c08 import caught_fn, is_cfunction

TECHNIQUE = "interprocedural exception-escape analysis (thrown types, handlers, call graph) against parallel regions, callbacks handed to C code and script-callable functions"
NOTE = """Decides for every parallel region, every function handed to a C library or the script interpreter, and every destructor or noexcept function that no exception raised by
this program or by a throwing standard-library call (at, sto*) can leave it. Exhausted memory (bad_alloc) and calls through pointers that the analysis cannot resolve are not followed."""

STDTHROW = re.compile(r"std::(__cxx11::)?(vector|map|array|deque|basic_string|unordered_map|bitset)(<.*>)?::at$|std::(__cxx11::)?sto[a-z]+$")
STDBASE = {"std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error", "std::out_of_range": "std::logic_error",
           "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error", "std::system_error": "std::runtime_error",
           "std::ios_base::failure": "std::system_error", "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_alloc": "std::exception",
           "std::bad_cast": "std::exception", "std::bad_function_call": "std::exception", "std::bad_weak_ptr": "std::exception", "std::bad_typeid": "std::exception"}


def catches(P, ct, t):
    if ct == "...":
        return True
    c = base_type(ct)
    t = base_type(t)
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x == c:
            return True
        if x in seen:
            continue
        seen.add(x)
        if x in STDBASE:
            st.append(STDBASE[x])
        r = P.records.get(x)
        if r:
            st += [base_type(b["t"]) for b in r["bases"]]
    return False


class Escape:
    def __init__(self, P):
        self.P = P
        self.esc = {f.key: {} for f in P.fns.values() if f.blocks}
        self.info = {}
        for f in P.fns.values():
            if f.blocks:
                self.info[f.key] = self.sites(f)
        ch = True
        while ch:
            ch = False
            for k, ss in self.info.items():
                f = P.fns[k]
                for nid, kind, x in ss:
                    for t, why in self.raised(f, nid, kind, x):
                        if t not in self.esc[k] and not self.caught(f, nid, t):
                            self.esc[k][t] = (nid, why)
                            ch = True

    def sites(self, f):
        live = f._x.get("live14")
        if live is None:
            live = set()
            for b in f.blocks.values():
                for e in b["e"]:
                    if e[0] in ("s", "i"):
                        live.add(e[1])
            f._x["live14"] = live
        out = []
        for i, n in enumerate(f.nodes):
            if n["k"] == "CXXThrowExpr":
                t = f.nodes[n["c"][0]]["t"] if n["c"] and n["c"][0] >= 0 else None
                out.append((i, "throw", t))
            elif n.get("callee"):
                d = f.decls.get(n["callee"]) or {}
                if n["callee"] in self.esc:
                    out.append((i, "call", n["callee"]))
                elif d.get("q") == "std::rethrow_exception":
                    out.append((i, "throw", "std::exception"))
                elif STDTHROW.match(d.get("q", "")) and not self.in_range(f, i, d["q"]):
                    out.append((i, "std", d["q"]))
        return out

    def in_range(self, f, nid, q):
        """The index of an at() has been compared with the container's size."""
        if not q.endswith("::at"):
            return False
        if "sg14" not in f._x:
            f._x["sg14"] = SG(self.P, f)
        sg = f._x["sg14"]
        es = [e for e in sg.events if e.kind == "call" and e.nid == nid and e.q.endswith("::at")]
        for e in es:
            size = ("f", "size", e.obj)
            ok = False
            for b, l in guards(sg, e.n):
                v = b.val
                if v == ("op", "<", e.args[0], size) and l == ("br", True) or v == ("op", "<=", size, e.args[0]) and l == ("br", False):
                    ok = True
            if not ok:
                return False
        return bool(es)

    def raised(self, f, nid, kind, x):
        if kind == "throw":
            if x is None:       # rethrow: what the handler caught
                c = nid
                while c in f.parent:
                    c = f.parent[c]
                    if f.nodes[c]["k"] == "CXXCatchStmt":
                        yield (f.nodes[c].get("ct", "...") if f.nodes[c].get("ct") != "..." else "std::exception"), "rethrown"
                        return
                yield "std::exception", "rethrown"
            else:
                yield base_type(x), "thrown"
        elif kind == "std":
            yield "std::out_of_range", x
        else:
            for t, (n, why) in list(self.esc[x].items()):
                yield t, self.P.fns[x].q

    def caught(self, f, nid, t, top=None):
        """A handler of f inside node top (or anywhere) catches t when it is raised at nid."""
        x = nid
        while x in f.parent and x != top:
            y = f.parent[x]
            n = f.nodes[y]
            if n["k"] == "CXXTryStmt" and n["c"] and n["c"][0] == x:
                for c in n["c"][1:]:
                    if catches(self.P, f.nodes[c].get("ct", "..."), t):
                        return True
            if n["k"] == "LambdaExpr":
                return False
            x = y
        return False

    def path(self, key, t):
        out = []
        while key in self.esc and t in self.esc[key] and len(out) < 12:
            nid, why = self.esc[key][t]
            f = self.P.fns[key]
            out.append("%s (%s)" % (f.q, f.where(nid)))
            nx = f.nodes[nid].get("callee") if f.nodes[nid]["k"] != "CXXThrowExpr" else None
            if nx is None:
                break
            key = nx
        return " -> ".join(out)


def run(P, R, tier):
    R.rule("region", "no exception leaves the structured block of a parallel or critical directive")
    R.rule("handed", "an exception caught inside a parallel region is handed on after the region")
    R.rule("callback", "no exception leaves a function that C code calls")
    R.rule("script", "no exception leaves a function that the script interpreter calls")
    R.rule("error", "an exception caught below such a function is turned into its own error")
    R.rule("noexcept", "no exception leaves a destructor or a function declared not to throw")
    E = Escape(P)
    R.count("functions an exception may leave", sum(1 for k in E.esc if E.esc[k]))
    R.need(sum(1 for ss in E.info.values() for s in ss if s[1] == "throw"), 20, "throw statements")
    nreg = 0
    for f in P.fns.values():
        for i, n in enumerate(f.nodes):
            if not n["k"].startswith("OMP") or n.get("body") is None:
                continue
            nreg += 1
            inside = set(f.walk(n["body"]))
            hit = None
            for nid, kind, x in E.info.get(f.key, ()):
                if nid not in inside:
                    continue
                for t, why in E.raised(f, nid, kind, x):
                    if not E.caught(f, nid, t, top=n["body"]):
                        hit = (nid, t, x)
            w = f.where(hit[0]) if hit else f.where(i)
            R.check(hit is None, "region", w, "%s %s" % (f.q, n["k"]),
                    "%s may leave the %s of %s: raised at %s%s" % (hit[1], n["k"], f.q, w, ", " + E.path(hit[2], hit[1]) if hit and hit[2] in E.esc else "") if hit else "",
                    "%s at %s" % (n["k"], f.where(i)))
            if "Parallel" in n["k"]:
                handed(P, R, E, f, i, n, inside)
    R.need(nreg, 15, "parallel and critical directives")
    # functions whose address goes to C code
    cb = {}
    for f in P.fns.values():
        for i, n, d in f.calls():
            if d and d.get("externc"):
                for a in n.get("args", ()):
                    k = fn_ref(P, f, a)
                    if k:
                        cb.setdefault(k, (f, i, d["q"]))
        for i, n in enumerate(f.nodes):     # any lua function whose address is taken
            k = n.get("fn")
            if k and k in P.fns and is_cfunction(P.fns[k]):
                cb.setdefault(k, (f, i, "the script interpreter"))
    for g in P.globals.values():
        for n in g.get("nodes") or ():
            k = n.get("fn")
            if k and k in P.fns:
                cb.setdefault(k, (None, None, "a table"))
    nl = nc = 0
    for k, (f, i, by) in sorted(cb.items()):
        g = P.fns[k]
        if not g.blocks:
            continue
        lua = is_cfunction(g)
        if not lua and by == "a table":
            continue
        nl += lua
        nc += not lua
        rule = "script" if lua else "callback"
        if not E.esc[k]:
            R.ok(rule, "%s: nothing leaves it" % g.q)
        for t in E.esc[k]:
            R.bad(rule, g.where(E.esc[k][t][0]), "%s %s" % (g.q, t), "%s may leave %s, which %s calls: %s" % (t, g.q, by, E.path(k, t)))
        if lua:
            caught_fn(P, Sub(R, "error"), g, g.q.startswith("luavvd_set"))
        else:
            handlers_report(P, R, g, by)
    R.need(nl, 40, "script-callable functions")
    R.need(nc, 1, "other callbacks")
    for f in P.fns.values():
        if not f.blocks:
            continue
        d = f.decls.get(f.key) or {}
        if "~" in f.q or d.get("nothrow"):
            if not E.esc[f.key]:
                R.ok("noexcept", f.q)
            for t in E.esc[f.key]:
                R.bad("noexcept", f.where(E.esc[f.key][t][0]), "%s %s" % (f.q, t), "%s may leave %s, which ends the process: %s" % (t, f.q, E.path(f.key, t)))


class Sub:
    """Reports under another rule name."""
    def __init__(self, R, rule):
        self.R, self.rule_ = R, rule

    def check(self, c, rule, *a):
        return self.R.check(c, self.rule_, *a)

    def __getattr__(self, n):
        return getattr(self.R, n)


def fn_ref(P, f, nid):
    for x in f.walk(nid):
        n = f.nodes[x]
        if n.get("callee"):
            if n["k"] == "CXXMemberCallExpr" and "operator" in (f.decls.get(n["callee"]) or {}).get("q", ""):
                continue        # a lambda's conversion to a function pointer
            return None
        if n.get("fn") in P.fns and n["k"] in ("DeclRefExpr", "LambdaExpr"):
            return n["fn"]
    return None


def handed(P, R, E, f, i, n, inside):
    """Handlers inside the region record the error; it is raised again after the region."""
    for x in inside:
        m = f.nodes[x]
        if m["k"] != "CXXTryStmt":
            continue
        for h in m["c"][1:]:
            body = set(f.walk(h))
            wr = set()
            for y in body:
                z = f.nodes[y]
                if z["k"] in ("BinaryOperator", "CompoundAssignOperator") and z.get("op", "").endswith("=") or z["k"] == "CXXOperatorCallExpr" or z["k"] == "CXXMemberCallExpr":
                    for q in f.walk(y):
                        d = f.nodes[q].get("d")
                        if d and not any(v["d"] == d for s in inside if f.nodes[s]["k"] == "DeclStmt" for v in f.nodes[s]["vars"]):
                            wr.add(d)
            used = False
            last = max(inside)
            for y, z in enumerate(f.nodes):
                if y <= last:
                    continue
                raises = z["k"] == "CXXThrowExpr" or z["k"] == "ReturnStmt" or z.get("callee") and (
                    (f.decls.get(z["callee"]) or {}).get("q") == "std::rethrow_exception" or E.esc.get(z["callee"]))
                if not raises:
                    continue
                c, rel_, cond = y, set(f.walk(y)), False
                while c in f.parent:
                    p = f.parent[c]
                    if f.nodes[p]["k"] == "IfStmt" and c != f.nodes[p]["cond"]:
                        k = set(f.walk(f.nodes[p]["cond"]))
                        if any(f.nodes[q].get("d") in wr for q in k):
                            rel_ |= k
                        else:
                            cond = True
                    c = p
                used |= not cond and any(f.nodes[q].get("d") in wr for q in rel_)
            R.check(used, "handed", f.where(h), "%s handler" % f.q, "an exception caught inside the parallel region of %s is lost" % f.q, "%s: handed on" % f.where(h))


def handlers_report(P, R, g, by):
    if not any(n["k"] == "CXXCatchStmt" for n in g.nodes):
        return
    sg = SG(P, g)
    from vv.paths import paths
    for p in paths(sg):
        if any(e.kind == "eh" for e in p.evs) and p.end[0] == "ret":
            R.check(not (p.end[1] is not None and p.end[1] == ("c", 0)) or g.ret == "void", "error", g.where(), g.q, "%s reports success to %s after an exception" % (g.q, by), "%s: reports the error" % g.q)
