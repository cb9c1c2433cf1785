"""C08 script errors: reported, never half-applied, and visible in the exit status."""
from vv.luaattr import *
from rules.c07 import setter_kind, COMP

TECHNIQUE = "path-sensitive value flow through setters, access functions and main, with wrong-type and wrong-name environments over an abstract interpreter stack"
NOTE = """Decides, for every setter, access function and script-callable list operation, that every path taken for a value of the wrong type ends in an error and that no
path that ends in an error has changed the object; and that main returns non-zero on every path on which running the script failed. The interpreter itself is trusted."""

NIL, BOOL, LIGHT, NUM, STR, TAB, FUN, UD = range(8)
RAISING = {"luaL_error", "lua_error", "luaL_argerror", "luaL_checkudata", "luaL_checknumber", "luaL_checkinteger", "luaL_checklstring", "luaL_checktype", "luaL_checkany",
           "lua_callk", "luaL_optinteger", "luaL_optnumber", "luaL_optlstring", "luaL_checkoption"}
MUT = {"push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "pop_back", "assign", "swap", "operator=", "reset", "push_front", "emplace_front", "pop_front", "remove"}
CHECKTYPES = {"luaL_checknumber": (NUM,), "luaL_checkinteger": (NUM,), "luaL_checklstring": (STR, NUM), "luaL_checkudata": (UD,)}
ALLT = (NIL, BOOL, NUM, STR, TAB, FUN, UD)
NAMES = {NIL: "nil", BOOL: "a boolean", NUM: "a number", STR: "a string", TAB: "a table", FUN: "a function", UD: "an object of another type"}


def venv(slot, typ, length=None, elems=None, ints=None, extra=None):
    """Environment: the value in slot has the given type; elements of it the given types."""
    types = {slot: typ}
    for k, t in (elems or {}).items():
        types[("geti", slot, ("c", k))] = t

    def env(t):
        if extra:
            v = extra(t)
            if v is not None:
                return v
        if t[0] != "L":
            return None
        w, s = t[1], t[2]
        if w == "len" and s == slot and length is not None:
            return length
        if w == "int" and ints and s in ints:
            return ints[s]
        if s not in types:
            return None
        y = types[s]
        if w == "type":
            return y
        if w in ("isnum", "isint", "isnumber", "isinteger"):
            return 1 if y == NUM else 0
        if w == "isstring":
            return int(y in (STR, NUM))
        if w == "isuserdata":
            return int(y in (UD, LIGHT))
        if w == "iscfunction":
            return 0 if y != FUN else None
        if w.startswith("test:"):
            return 0
        if w in ("num", "int") and y != NUM:
            return 0
        if w in ("str", "ud") and y in (NIL, BOOL, TAB, FUN):
            return 0
        if w == "bool":
            return 0 if y == NIL else 1 if y != BOOL else None
        return None
    env.types = types
    return env


def possible(r, env):
    """May the run happen in the environment?  A checking call that would raise ends it."""
    for op, e, i in r.ops:
        if op in CHECKTYPES:
            s = r.bind.get(("ret", e.n))
            s = s[2] if s and s[0] == "L" else None
            if s in env.types and env.types[s] not in CHECKTYPES[op]:
                return False
            if s in env.types and op == "luaL_checkudata" and env.types[s] == UD:
                return False
    return consistent_loops(r, env)


def consistent_loops(r, env):
    """consistent(), where a branch on an element of a fully traversed local array is
    taken for every element."""
    sg = r.sg
    for op, e, i in r.ops:
        if op != "br" or not i["label"]:
            continue
        v = decide(i["val"], env)
        if v is None and i["label"][0] == "br":
            idx = {x[2] for x in subterms(i["val"]) if x[0] == "el" and isinstance(x[2], tuple) and x[2][0] == "phi"}
            idx |= {x[1] for x in subterms(i["val"]) if x[0] == "ld" and x[1][0] == "phi"}
            if len(idx) == 1:
                ph = next(iter(idx))
                st, steps, bd = index_cover(sg, ph)
                if set(st) == {("c", 0)} and steps == {("+", 1)} and len(bd) == 1:
                    o, n = next(iter(bd))
                    if o in ("<", "!=") and n[0] == "c" and 0 < n[1] < 16:
                        vs = [decide(elem_subst(r, i["val"], ph, k, e.n), env) for k in range(n[1])]
                        if None not in vs:
                            # does this label stay in the loop?
                            if all(bool(x) == (not i["label"][1]) for x in vs):
                                return False
                            if any(bool(x) != i["label"][1] for x in vs) and stays(sg, e.n, i["label"], ph):
                                return False
                            continue
        if v is None:
            continue
        l = i["label"]
        if l[0] == "br" and bool(v) != l[1]:
            return False
        if l[0] == "case" and l[1] is not None and int(l[1]) != int(v):
            return False
        if l[0] == "default":
            labs = [k for _, k in sg.nodes[e.n].succ if isinstance(k, tuple)]
            if any(k[0] == "case" and k[1] is not None and int(k[1]) == int(v) for k in labs):
                return False
    return True


def elem_subst(r, t, ph, k, n):
    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x == ph:
            return ("c", k)
        y = tuple(go(z) if isinstance(z, tuple) else z for z in x)
        if y != x and y[0] == "ld" and y[1][0] == "el":
            v = r.content(y[1], n)
            return v if v is not None else y
        if y != x and y[0] == "el":
            return y
        return y
    return r.val(go(t))


def stays(sg, n, label, ph):
    """The labelled edge leads back to the loop head."""
    for s, l in sg.nodes[n].succ:
        if l == label:
            seen, st = set(), [s]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x == ph[1]:
                    return True
                st.extend(y for y, _ in sg.nodes[x].succ)
    return False


def writes_below(r, base):
    """First change below base on the run."""
    for op, e, i in r.ops:
        if op == "write" and root(i["loc"]) == base:
            return e, "writes " + (sp(chain(i["loc"])) or "the object")
        if op == "call" and i["obj"] is not None and root(i["obj"]) == base and i["q"].split("::")[-1] in MUT:
            return e, "calls " + i["q"]
    return None


def fails(r):
    return r.end[0] == "raise" or r.end[0] == "ret" and (r.end[1] is None or r.end[1] != ("c", 0))


def invalid_cases(kind):
    """[(description, environment)] of values that are not of the kind."""
    A2 = ("arg", 2)
    out = []

    def types(ok, **k):
        for t in ALLT:
            if t not in ok:
                out.append((NAMES[t], venv(A2, t, **k)))

    if kind in ("double", "degree", "int32"):
        types((NUM, STR))
        out.append(("a string that is not a number", venv(A2, STR)))
    elif kind == "string":
        types((STR, NUM))
    elif kind == "slip":
        types((BOOL,))
    elif kind in COMP:
        n = len(COMP[kind])
        types((TAB,))
        for l in (0, n - 1, n + 1):
            out.append(("a table of %d values" % l, venv(A2, TAB, length=l, elems={j + 1: NUM for j in range(n)})))
        for j in range(n):
            out.append(("a table whose element %d is not a number" % (j + 1), venv(A2, TAB, length=n, elems={x + 1: NUM if x != j else TAB for x in range(n)})))
    elif kind == "TEval":
        types((STR, NUM))
    elif kind == "root":
        types((NIL,))
    elif kind == "TTime":
        types((NUM, STR, TAB))
        for l in (0, 1, 3):
            out.append(("a table of %d values" % l, venv(A2, TAB, length=l, elems={1: NUM, 2: NUM})))
        for j in (1, 2):
            out.append(("a table whose element %d is not an integer" % j, venv(A2, TAB, length=2, elems={1: NUM, 2: NUM, j: BOOL})))
        for v in (0, -1):
            out.append(("a table with the time scale %d" % v, venv(A2, TAB, length=2, elems={1: NUM, 2: NUM}, ints={("geti", A2, ("c", 1)): 5, ("geti", A2, ("c", 2)): v})))
    return out


def string_cases(r):
    """Malformed strings for a run that scans one: environments of the scan's results."""
    out = []
    for op, e, i in r.ops:
        if op == "call" and i["q"] in ("sscanf", "std::sscanf") and i["args"] and i["args"][0] == ("L", "str", ("arg", 2)):
            n = e.n
            for k in (-1, 0, 1):
                out.append(("a string with %s" % ("one number" if k == 1 else "no number"), lambda t, n=n, k=k: k if t == ("ret", n) else None))
            out.append(("a string with something after the numbers", lambda t, n=n: 2 if t == ("ret", n) else 65 if t[0] in ("ld", "el") and ("L", "str", ("arg", 2)) in list(subterms(t)) else None))
            out.append(("a string with the time scale 0", lambda t, n=n: 2 if t == ("ret", n) else 0 if t in (("out", n, 3), ("ld", ("el", ("L", "str", ("arg", 2)), ("out", n, 4)))) else None))
    return out


def run(P, R, tier):
    R.rule("type", "a value that is not of the attribute's type is never stored: no path of a setter accepts it")
    R.rule("atomic", "a path that ends in an error has not changed the object it was called on")
    R.rule("report", "a setter that rejects a value leaves a message for the error that is raised")
    R.rule("raise", "the access function raises an error when the setter reports one")
    R.rule("name", "assigning an unknown or read-only attribute name raises an error and changes nothing")
    R.rule("exit", "the command returns non-zero on every path on which loading or running the script failed")
    R.rule("caught", "an exception caught below a script-callable function becomes a script error")
    lib, _ = libs(P)
    setters = {}
    for tag, (cls, attrs) in DOC.items():
        f = P.fns.get(lib.get(tag, {}).get("__newindex") or "")
        if f is None or not f.blocks:
            continue
        for row in [x for g in tables_of(P, SG(P, f, inline=inl, maxdepth=8)) for x in (rows(P, g) or [])]:
            if len(row) >= 3 and row[2][0] == "fn" and row[0][1] in attrs:
                setters.setdefault(row[2][1], set()).add((tag, row[0][1], attrs[row[0][1]][0]))
    R.need(len(setters), 6, "attribute setters")
    n = 0
    for fk, uses in setters.items():
        f = P.fns.get(fk)
        if f is None or not f.blocks:
            continue
        sg, rs = runs(P, f, 2, inline=inl)
        for r in rs:
            r.sg = sg
        ok = [r for r in rs if not fails(r)]
        P1 = ("L", "ud", ("arg", 1))
        for kind in sorted({k for _, _, k in uses}):
            for what, env in invalid_cases(kind):
                n += 1
                hit = [r for r in ok if possible(r, env)]
                R.check(not hit, "type", f.where(), "%s %s" % (f.q, what), "%s accepts %s as a %s" % (f.q, what, kind), "%s rejects %s" % (f.q, what))
            for r in ok:
                for what, x in string_cases(r):
                    n += 1
                    env = venv(("arg", 2), STR, extra=x)
                    R.check(not possible(r, env), "type", f.where(), "%s %s" % (f.q, what), "%s accepts %s as a %s" % (f.q, what, kind), "%s rejects %s" % (f.q, what))
        for r in rs:
            if not fails(r):
                continue
            w = writes_below(r, P1)
            if w and w[1].endswith("TEval::operator="):
                w = None        # decided below: the assignment itself is all or nothing
            R.check(w is None, "atomic", w[0].where() if w else f.where(), f.q, "%s %s before it reports an error" % (f.q, w[1] if w else ""))
            if r.end[0] == "ret" and r.end[1] is not None:
                t = r.stack[-1][0] if r.stack else "nothing"
                R.check(t in ("fstr", "str", "concat"), "report", f.where(), f.q, "%s reports an error without a message" % f.q)
    R.need(n, 60, "rejected values")
    # TEval assignment: nothing of the expression changes before it can fail
    atomic_teval(P, R)
    # access functions
    sgc = {}
    for tag in sorted(set(lib) | set(DOC)):
        fk = lib.get(tag, {}).get("__newindex")
        f = P.fns.get(fk) if isinstance(fk, str) else None
        if not R.check(f is not None and bool(f.blocks), "name", "utils/vvflow", tag, "assignments to %s objects are not intercepted" % tag):
            continue
        attrs = DOC[tag][1] if tag in DOC else {}
        names = ["\1unknown", ""] + [a for a, (k, p) in attrs.items() if k in READONLY]
        for nm in names:
            sg, rs = access(P, f, nm, 3, sgc)
            for r in rs:
                called = any(op in ("lua_callk", "lua_pcallk") for op, e, i in r.ops)
                w = None
                for op, e, i in r.ops:
                    if op == "write" and root(i["loc"])[0] == "L" and not str(root(i["loc"])[1]).startswith("new"):
                        w = e
                R.check(r.end[0] == "raise" and not called and w is None, "name", f.where(), "%s %s" % (tag, nm if nm in attrs else "unknown"),
                        "assigning %s of %s %s" % ("the read-only %s" % nm if nm in attrs else "an unknown attribute", tag, "does not raise an error" if r.end[0] != "raise" else "changes something"))
        for a, (k, p) in attrs.items():
            if k in READONLY:
                continue
            sg, rs = access(P, f, a, 3, sgc)
            for r in rs:
                d = dispatch(P, sg, r, a)
                if d is None:
                    continue
                res = ("res", d[3].n, 0)
                env = lambda x: 4 if x == ("L", "type", res) else 0 if x == ("L", "isnil", res) else 1 if x == ("L", "isstring", res) else None
                if consistent(r, env):
                    R.check(r.end[0] == "raise", "raise", f.where(), "%s.%s" % (tag, a), "a rejected assignment of %s.%s raises no error" % (tag, a))
    # native functions scripts call: no change before an error
    m = 0
    for f in P.fns.values():
        if not f.blocks or "/utils/vvflow/" not in f.file or not is_cfunction(f):
            continue
        m += 1
        atomic_fn(P, R, f)
        caught_fn(P, R, f, f.key in setters)
    R.need(m, 30, "script-callable functions")
    exit_status(P, R)


def tables_of(P, sgs):
    """Constant tables the access function's code refers to."""
    out = set()
    for e in sgs.events:
        for t in [e.val, e.loc, e.obj] + list(e.args or []):
            if t is not None:
                out |= {x[1] for x in subterms(t) if x[0] == "g"}
    for p, vs in sgs.phis.items():
        for v in vs:
            out |= {x[1] for x in subterms(v) if x[0] == "g"}
    return out


def is_cfunction(f):
    return len(f.params) == 1 and f.ret == "int" and "lua_State" in f.params[0]["t"] and not f.cls


def atomic_fn(P, R, f):
    sg = SG(P, f, inline=inl, maxdepth=8)
    muts, raises = [], []
    for e in sg.events:
        if e.kind == "call" and e.inl is None and e.q in RAISING:
            raises.append(e)
        h = P.fns.get(e.key) if e.kind == "call" and e.key else None
        if e.kind == "call" and e.obj is not None and (e.q.split("::")[-1] in MUT and e.q.startswith("std::vector") or h is not None and h.cls in ("TBody", "TEval", "TObj", "TVec", "TVec3D")
                                                       and not h.const and "~" not in e.q and h.name != h.cls) and root(e.obj)[0] in ("ret", "ld"):
            rr = root(e.obj)
            while rr[0] == "ld":
                rr = root(rr[1])
            if rr[0] == "ret" and any(x.n == rr[1] and x.q in ("luaL_checkudata", "lua_touserdata") for x in sg.events if x.kind == "call"):
                muts.append(e)
    for e in muts:
        reach = sg.reach([x for x, _ in sg.nodes[e.n].succ])
        hit = [x for x in raises if x.n in reach and x.n != e.n]
        R.check(not hit, "atomic", hit[0].where() if hit else f.where(), "%s %s" % (f.q, e.q.split("::")[-1]),
                "%s may raise an error after it has changed the object (%s)" % (f.q, e.where()), "%s: %s is last" % (f.q, e.q))


def caught_fn(P, R, f, setter):
    sg = SG(P, f, inline=small, maxdepth=4, maythrow=lambda k: k in P.fns and bool(P.fns[k].blocks))
    if not any(l == ("eh",) and s != sg.xexit.i for nd in sg.nodes for s, l in nd.succ):
        return
    rs = [sim(p, None, sg) for p in paths(sg)]
    for r in rs:
        k = [e for op, e, i in r.ops if op == "eh"]
        if not k:
            continue
        ok = r.end[0] == "raise" or setter and fails(r)
        R.check(ok, "caught", f.where(), f.q, "%s ends normally after an exception below it" % f.q, "%s: a caught exception becomes an error" % f.q)


def small(g, c):
    return "/utils/vvflow/" in g.file and (g.file.endswith((".h", ".hpp")) or "operator()" in g.q or "(lambda" in g.q) 


def atomic_teval(P, R):
    # interpreter variables the evaluation reads
    used = {e.args[1] for f in P.fns.values() if f.cls == "TEval" and f.name == "eval" and f.blocks
            for e in SG(P, f, inline=lambda g, c: g.cls == "TEval").events if e.kind == "call" and e.q == "lua_getglobal"}
    for f in P.fns.values():
        if f.cls != "TEval" or f.name != "operator=" or not f.blocks:
            continue
        sg = SG(P, f, inline=lambda g, c: g.cls == "TEval" or g.file == f.file, maxdepth=4)
        throws = [e for e in sg.events if e.kind == "throw"]
        for e in sg.events:
            glob = e.kind == "call" and e.q == "lua_setglobal" and e.args[1] in used
            if glob or e.kind == "write" and e.loc is not None and root(e.loc) == ("arg", "this") or e.kind == "call" and e.obj is not None and root(e.obj) == ("arg", "this") and e.q.split("::")[-1] in MUT and e.q != "TEval::operator=":
                reach = sg.reach([x for x, _ in sg.nodes[e.n].succ])
                hit = [x for x in throws if x.n in reach]
                R.check(not hit, "atomic", e.where(), f.q + " " + e.q if e.q else f.q, "%s changes the expression before it rejects the text" % f.q, "%s: state changes after the last rejection" % f.q)


def exit_status(P, R):
    mains = [f for f in P.fns.values() if f.q == "main" and f.blocks and f.file.endswith("utils/vvflow/vvflow.cpp")]
    R.need(len(mains), 1, "main functions of the command")
    n = 0
    for f in mains:
        sg = SG(P, f, inline=lambda g, c: g.file == f.file and g.q not in ("simulate", "luaopen_vvd", "run"), maxdepth=4)
        engine = [e for e in sg.events if e.kind == "call" and e.inl is None and (e.q.startswith("luaL_load") or e.q in ("lua_pcallk", "lua_resume"))]
        for e in engine:
            n += 1
            for p in paths(sg, env=lambda t, e=e: 1 if t == ("ret", e.n) else None):
                if not any(x.n == e.n and x.kind == "call" for x in p.evs):
                    continue
                v = decide(p.end[1], lambda t, e=e: 1 if t == ("ret", e.n) else None) if p.end[0] == "ret" and p.end[1] is not None else None
                R.check(p.end[0] == "raise" or bool(v) and int(v) % 256 != 0, "exit", e.where(), "%s" % e.q,
                        "main returns %s when %s fails" % (show(p.end[1]) if p.end[0] == "ret" and p.end[1] else "normally", e.q), "failure of %s -> status %s" % (e.q, v))
        for p in paths(sg):
            if any(x.kind == "eh" for x in p.evs) and p.end[0] == "ret":
                n += 1
                R.check(p.end[1] is not None and p.end[1][0] == "c" and p.end[1][1] % 256 != 0, "exit", f.where(), "exception", "main returns %s after an exception" % show(p.end[1]))
        if not any(e.q == "lua_pcallk" for e in engine):
            R.bad("exit", f.where(), "engine", "main does not run the script in protected mode")
    R.need(n, 2, "ways the script can fail")
