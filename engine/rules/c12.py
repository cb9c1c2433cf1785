"""C12 expression evaluation: a function of the current text and the argument only."""
import itertools
import math
import re
from vv.lua import *
from vv.lib import *
from vv.prog import REPO

TECHNIQUE = "path-sensitive abstract interpretation of the evaluator over an interpreter-stack domain, with a class invariant on the result cache proved by induction over all members"
NOTE = """Proves by induction over every constructor and member of TEval that each remembered (argument, value) pair belongs to the text in force or can never match, that
every way to a result is either such a pair or a fresh run of the compiled current text with its own argument set, and that every way that ends in an error leaves text,
compiled form and pairs as they were; in every combination of interpreter outcomes (load, run, result type, empty message). The interpreter is trusted. Texts that
change the interpreter's own globals while they run (they are programs of the user) are outside the property."""

LOADS = ("luaL_loadbufferx", "luaL_loadstring", "luaL_loadfilex")
PROT = ("lua_pcallk", "lua_callk")
THIS = ("arg", "this")
CRIT = ("OMPCriticalDirective",)
LOCKS = ("omp_set_lock", "omp_set_nest_lock", "pthread_mutex_lock")


def strip(t):
    while t[0] == "ld":
        t = t[1]
    return t


def isnan(P, t):
    if t[0] == "c":
        return t[1] != t[1]
    s = strip(t)
    if s[0] == "g":
        g = P.globals.get(s[1])
        if g is None or not g.get("const"):
            return False
        n = g["nodes"][g["init"]]
        return n.get("fv", "").lower().lstrip("-") == "nan" or n.get("callee") in ("nan", "__builtin_nan") or "quiet_NaN" in str(n.get("callee")) or zerozero(g["nodes"], g["init"])
    if t[0] in ("f", "ret"):
        return "quiet_NaN" in str(t[1]) or str(t[1]) in ("nan", "__builtin_nan", "std::nan")
    return t[0] == "op" and t[1] == "/" and t[2] == t[3] == ("c", 0)


def zerozero(ns, i):
    n = ns[i]
    while n["k"] == "ImplicitCastExpr":
        n = ns[n["c"][0]]
    return n["k"] == "BinaryOperator" and n["op"] == "/" and all(ns[c].get("fv", "") in ("0", "-0") for c in n["c"])


class Scen:
    def __init__(self, empty, load, call, num, msg, nonnull, hit, typ=5):
        self.empty, self.load, self.call, self.num, self.msg, self.nonnull, self.hit, self.typ = empty, load, call, num, msg, nonnull, hit, typ

    def __str__(self):
        if self.empty:
            return "the text is empty"
        if self.hit:
            return "the argument was evaluated before"
        o = []
        if self.load[0]:
            o.append("the text is no expression" + (" and no statement" if self.load[1] else ""))
        if not (self.load[0] and self.load[1]):
            o.append("running it fails" if self.call else "it gives a number" if self.num else "it does not give a number")
        if not self.msg and (self.call or self.load[1]):
            o.append("with an empty message")
        if not self.nonnull and (self.call or self.load[1]):
            o.append("with an error object that is no text")
        return ", ".join(o)


def emptiness(t, s, textp):
    """The value of a test of a text for emptiness."""
    if t[0] == "f" and len(t) >= 3:
        w = t[1].split("::")[-1]
        x = t[2]
        if w in ("operator==", "operator!=") and len(t) == 4:
            if strip(x) == ("s", ""):
                x = t[3]
            elif strip(t[3]) != ("s", ""):
                return None
        elif w not in ("empty", "size", "length", "strlen"):
            return None
    else:
        return None

    def length(x):
        x = strip(x)
        if x[0] == "s":
            return len(x[1])
        if textp(x):
            return 0 if s.empty else 3
        if x[0] == "L" and x[1] == "str":
            return 9 if s.msg else 0
        if x[0] == "ite":
            c = decide(x[1], lambda y: (1 if s.nonnull else 0) if y[0] == "L" and y[1] == "str" else None)
            return None if c is None else length(x[2] if c else x[3])
        if x[0] == "f" and "operator+" in x[1]:
            p = [length(y) for y in x[2:]]
            return None if None in p else sum(p)
        return None
    n = length(x)
    if n is None:
        return None
    return {"empty": int(n == 0), "operator==": int(n == 0), "operator!=": int(n != 0)}.get(w, n)


def feasible(r, s, pairs, textp, own=()):
    """Can the run happen in the scenario?  None: a branch is not decided."""
    n = 0
    loads = {}
    for op, e, i in r.ops:
        if op in LOADS and ("ret", e.n) not in own:
            loads[("ret", e.n)] = n
            n += 1
    prot = {("ret", e.n) for op, e, i in r.ops if op in PROT}
    cmp = {("ret", e.n): ("f", i["q"]) + tuple(i["args"]) for op, e, i in r.ops if op == "call" and i["q"].split("::")[-1] in ("operator==", "operator!=") and len(i["args"]) == 2}

    def env(t):
        t = cmp.get(t, t)
        if t in loads:
            return s.load[min(loads[t], 1)]
        if t in prot:
            return s.call
        if t[0] == "L":
            if t[1] in ("isnum", "isnumber"):
                return int(not s.call and s.num)
            if t[1] == "type":
                return 4 if s.call else 3 if s.num else s.typ
            if t[1] == "str":
                return int(s.nonnull)
            return None
        if t[0] == "op" and t[1] in ("==", "!=") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                a = strip(a)
                if a in pairs and strip(b)[0] in ("loc", "arg"):
                    return int((a in s.hit) == (t[1] == "=="))
        return emptiness(t, s, textp)
    unk = None
    for op, e, i in r.ops:
        if op != "br" or not i["label"] or i["label"][0] != "br":
            continue
        v = decide(i["val"], env)
        if v is None:
            unk = (e, i["val"])
            if sametext(i["val"], i["label"][1], textp, cmp):
                return False
        elif bool(v) != i["label"][1]:
            return False
    return True if unk is None else unk


def sametext(t, val, textp, cmp):
    """The branch is the one on which the assigned text equals the one in force."""
    while t[0] == "op1" and t[1] == "!":
        t, val = t[2], not val
    t = cmp.get(t, t)
    if t[0] in ("f", "op") and t[1].split("::")[-1] in ("operator==", "==", "operator!=", "!=") and len(t) == 4:
        a, b = strip(t[2]), strip(t[3])
        if {a[0], b[0]} & {"fld"} and (textp(a) or textp(b)):
            return val == (t[1].split("::")[-1] in ("operator==", "=="))
    return False


def scenarios(pairs, loads=True):
    hits = [frozenset(c) for k in range(len(pairs) + 1) for c in itertools.combinations(sorted(pairs), k)] if len(pairs) < 5 else [frozenset()] + [frozenset((p,)) for p in pairs]
    out = [Scen(1, (0, 0), 0, 1, 1, 1, h) for h in hits]
    for h in hits:
        if h:
            out.append(Scen(0, (0, 0), 0, 1, 1, 1, h))
    for ld in ((0, 0), (1, 0), (1, 1)) if loads else ((0, 0),):
        for call, num, msg, nn in itertools.product((0, 2), (0, 1), (1, 0), (1, 0)):
            if not nn and not msg or call and not num or (not call and ld != (1, 1) and not (msg and nn)):
                continue
            for typ in (5, 0, 1, 4) if not num else (5,):
                out.append(Scen(0, ld, call, num, msg, nn, frozenset(), typ))
    return out


def textof(i, op):
    """The text a load compiles: (prefix, term)."""
    a = i["args"]
    t = a[1]
    if op == "luaL_loadbufferx":
        z = a[2]
        if not (z[0] == "f" and z[1].split("::")[-1] in ("size", "length") and norm_text(z[2]) == norm_text(t)):
            return None
    return norm_text(t)


def norm_text(t):
    t = strip(t)
    if t[0] == "f" and t[1] == "std::operator+" and len(t) == 4 and strip(t[2])[0] == "s":
        return (strip(t[2])[1], strip(t[3]))
    if t[0] == "f" and t[1].split("::")[-1] in ("c_str", "data", "basic_string") and len(t) >= 3:
        return norm_text(t[2])
    return ("", t)


def run(P, R, tier):
    R.rule("eval", "every way to a value of an expression is the value remembered for this argument or a fresh run of the text in force with this argument")
    R.rule("cache", "after every operation each remembered argument and value belong together and to the text in force")
    R.rule("assign", "assigning a text compiles and tries this text, and puts it in force as a whole or reports an error")
    R.rule("keep", "an operation that reports an error has changed neither text, compiled form nor remembered values")
    R.rule("own", "every expression runs in an interpreter of its own")
    R.rule("stack", "the interpreter's stack is as high after an operation as before")
    R.rule("crit", "the interpreter and the remembered values are used by one thread at a time")
    R.rule("names", "the constants and functions that expressions may use have the values their names tell")
    ev = [f for f in P.by_q.get("TEval::eval", [])]
    R.need(len(ev), 1, "evaluation functions")
    mem = [f for f in P.fns.values() if f.cls == "TEval" and not f.static and f.nodes]
    conv = [f for f in mem if "operator basic_string" in f.q or "operator std::" in f.q]
    inl = lambda g, c: g.file.startswith(REPO)
    # ---- the text in force
    expr = set()
    for f in conv:
        sg, rs = runs(P, f, 0, inline=inl)
        for r in rs:
            v = [i["val"] for op, e, i in r.ops if op == "ret" and i["ctx"] == 0 and i["val"]]
            for x in v:
                x = strip(x)
                R.check(x[0] == "fld" and x[1] == THIS, "assign", f.where(0), "text", "the text of an expression is read back as %s, not as the text that was assigned" % show(x))
                if x[0] == "fld" and x[1] == THIS:
                    expr.add(x)
    if len(expr) != 1:
        R.need(0, 1, "member that holds the text")
        return
    expr = next(iter(expr))
    R.count("members of TEval", len(mem))

    # ---- evaluation
    name, pairs, chunkglob, argglob = eval_rules(P, R, ev[0], expr, inl)
    if pairs is None:
        return
    R.count("remembered pairs", len(pairs))
    # ---- the other members
    states = set()
    rec = P.records.get("TEval") or {}
    ft = {x["name"] if "::" not in x["name"] else x["name"].split("::")[-1]: x.get("t") for x in rec.get("fields", [])}
    for x in sorted(set(pairs) | set(pairs.values())):
        t = ft.get(x[2].split("::")[-1]) if x[0] == "fld" else None
        if t is not None:
            R.check(t == "double" or t == "long double", "cache", ev[0].where(0), "type:%s" % x[2], "%s is a %s: an argument or value that is remembered is rounded" % (show(x), t), sample="%s is a %s" % (show(x), t))
    for n, nd in enumerate(ev[0].nodes):
        if nd["k"].endswith("CastExpr") and nd.get("t") in ("float", "int", "long", "unsigned int", "short", "char", "unsigned long") and nd.get("c") and ev[0].nodes[nd["c"][0]].get("t") in ("double", "const double"):
            R.bad("eval", ev[0].where(n), "narrow", "a value is rounded to %s on the way through eval" % nd["t"])
    for f in mem:
        if f.q.split("::")[-1].startswith("~") or f in conv or helper(P, f):
            continue
        other(P, R, f, expr, pairs, chunkglob, argglob, inl, states, f is ev[0])
    R.check(len(states) == 1, "own", ev[0].where(0), "state", "the members of an expression use different interpreters: %s" % ", ".join(sorted(show(s) for s in states)))
    critical(P, R, ev[0], pairs, states, inl)
    names(P, R, mem, inl)


def helper(P, f):
    """A member that only other members use is judged as a part of those."""
    if f.q in ("TEval::TEval", "TEval::operator=", "TEval::eval"):
        return False
    cs = [g for g in P.fns.values() for _, nd, d in g.calls() if nd.get("callee") == f.key or (d and d.get("q") == f.q)]
    return bool(cs) and all(g.cls == "TEval" for g in cs)


def eval_rules(P, R, f, expr, inl):
    sg, rs = runs(P, f, 0, inline=inl)
    R.count("ways through eval", len(rs))
    targ = [("loc", 0, p["d"]) for p in f.params] + [("arg", p["name"]) for p in f.params]

    def isarg(t):
        return strip(t) in targ
    # arguments that are compared with the one asked for
    times = set()
    for r in rs:
        for op, e, i in r.ops:
            if op == "br":
                for x in subterms(i["val"]):
                    if x[0] == "op" and x[1] in ("==", "!=") and len(x) == 4:
                        for a, b in ((x[2], x[3]), (x[3], x[2])):
                            if isarg(b) and root(strip(a)) == THIS:
                                times.add(strip(a))
    textp = lambda x: strip(x) == expr
    pairs = {}
    vals = {}
    chunkglob, argglob = set(), set()
    for s in scenarios(times, loads=False):
        n = 0
        for r in rs:
            fz = feasible(r, s, times, textp)
            if fz is False:
                continue
            n += 1
            at = next((e.where() for op, e, i in reversed(r.ops) if op in ("ret", "throw")), f.where(0))
            v = [i["val"] for op, e, i in r.ops if op == "ret" and i["ctx"] == 0 and i["val"]]
            v = v[-1] if v and r.end[0] == "ret" else None
            bad = s.call or not s.num
            if s.empty:
                R.check(v == ("c", 0), "eval", at, "empty", "when %s eval gives %s instead of zero" % (s, show(v) if v else "an error"), sample="%s -> 0" % s)
            elif s.hit:
                ok = v is not None and strip(v)[0] in ("fld", "el") and root(strip(v)) == THIS and strip(v) not in times
                R.check(ok or fresh(r, v, isarg, expr), "eval", at, "hit", "when %s eval gives %s, which is no remembered value" % (s, show(v) if v else "an error"))
                if ok:
                    for h in s.hit:
                        vals.setdefault(h, set()).add((strip(v), at, len(s.hit)))
            elif bad:
                R.check(r.end[0] == "raise", "eval", at, "error", "when %s eval gives %s instead of an error" % (s, show(v) if v else "?"), sample="%s -> error" % s)
            else:
                why = fresh(r, v, isarg, expr, True)
                R.check(why is None, "eval", at, "fresh", "when the value is not remembered, %s" % why, sample="fresh run of the compiled text with its argument")
                if why is None:
                    for op, e, i in r.ops:
                        if op in PROT and i["fn"][0] == "glob":
                            chunkglob.add(i["fn"][1])
                        if op == "lua_setglobal" and i["value"][0] == "num":
                            argglob.add(i["name"])
        R.count("outcomes examined", 1)
        if not n and not (s.hit and len(s.hit) > 1):
            R.assume("eval: no way matches the case that %s" % s)
    for h, vs in sorted(vals.items()):
        single = {v for v, at, n in vs if n == 1}
        R.check(len(single) == 1, "cache", f.where(0), "pair", "the argument %s is answered with different values: %s" % (show(h), ", ".join(sorted(show(v) for v in single))))
        if len(single) == 1:
            pairs[h] = next(iter(single))
    for a, b in itertools.combinations(sorted(pairs), 2):
        R.check(pairs[a] != pairs[b], "cache", f.where(0), "same-value", "the arguments %s and %s are both answered with %s" % (show(a), show(b), show(pairs[a])))
    # several hits at once: the value must be one of the hits' own
    for h, vs in sorted(vals.items()):
        for v, at, n in sorted(vs, key=str):
            if n > 1 and v not in pairs.values():
                R.bad("cache", at, "multi", "an argument that is remembered twice is answered with %s" % show(v))
    R.check(len(chunkglob) == 1, "eval", f.where(0), "compiled", "the compiled form of the text is looked up under %s" % (", ".join(sorted(x[1] if x[0] == "s" else show(x) for x in chunkglob)) or "no name"))
    return f.q, pairs, next(iter(chunkglob)) if len(chunkglob) == 1 else None, argglob


def fresh(r, v, isarg, expr, why=False):
    """The value v of a run is the result of running the compiled text with the argument set."""
    def no(x):
        return x if why else False
    if v is None:
        return no("an error is reported")
    if not (v[0] == "L" and v[1] == "num" and v[2][0] == "res"):
        return no("the value %s is not the number that the run gave" % show(v))
    call = None
    setarg = None
    for op, e, i in r.ops:
        if op == "lua_setglobal":
            if call is None:
                setarg = i["value"] if i["name"] == ("s", "t") else setarg
        elif op in PROT:
            if e.n == v[2][1]:
                call = (e, i, setarg)
    if call is None:
        return no("the value comes from no run")
    e, i, sa = call
    if v[2][2] != 0 or i["nres"] != 1:
        return no("the run gives %s results and number %d is used" % (i["nres"], v[2][2] + 1))
    if i["fn"][0] != "glob":
        return no("what runs is %s, not the compiled text" % show(i["fn"]) if isinstance(i["fn"], tuple) else "?")
    if i["cargs"]:
        return no("the compiled text is run with arguments on the stack")
    if sa is None or sa[0] != "num" or not isarg(sa[1]):
        return no("the variable t is %s when the text runs, not the argument of the call" % ("not set" if sa is None else show(sa[1])))
    return None if why else True


def other(P, R, f, expr, pairs, chunkglob, argglob, inl, states, iseval):
    sg, rs = runs(P, f, 0, inline=inl)
    R.count("ways through members", len(rs))
    ctor = f.q == "TEval::TEval"
    par = [("loc", 0, p["d"]) for p in f.params] + [("arg", p["name"]) for p in f.params]
    if iseval:
        textp = lambda x: strip(x) == expr
    else:
        textp = lambda x: root(strip(x)) in par
    made = set()
    for r in rs:
        for op, e, i in r.ops:
            if op == "luaL_newstate":
                made.add(("ret", e.n))
    # the interpreter that every operation works on
    reported = set()
    for r in rs:
        st = None
        for op, e, i in r.ops:
            if op == "write" and i["loc"][0] == "fld" and i["loc"][1] == THIS and strip(i["val"]) in made:
                states.add(i["loc"])
                st = strip(i["val"])
            if op == "luaL_newstate" or not (op.startswith("lua_") or op.startswith("luaL_")) or not i.get("args"):
                continue
            a = i["args"][0]
            b = strip(a)
            if b in made and (st is None or b == st):
                R.check(ctor, "own", e.where(), "new", "%s works on an interpreter made for this call" % op)
            elif b[0] == "fld" and b[1] == THIS and a[0] == "ld":
                states.add(b)
            elif (e.n, "own") not in reported:
                reported.add((e.n, "own"))
                R.bad("own", e.where(), "foreign", "%s works on %s, not on the interpreter of this expression" % (op, show(a)))
    textless = not f.params
    scs = scenarios(pairs) if not textless else [Scen(1, (0, 0), 0, 1, 1, 1, frozenset())]
    own = set()
    if ctor:                # the constructor's own prelude is loaded before any text
        for r in rs:
            for op, e, i in r.ops:
                if op in LOADS and strip(i["args"][1])[0] == "s":
                    own.add(("ret", e.n))
    for s in scs:
        if s.hit and not iseval:
            continue
        n = 0
        for r in rs:
            fz = feasible(r, s, pairs, textp, own)
            if fz is False:
                continue
            n += 1
            last = next((e for op, e, i in reversed(r.ops) if op in ("ret", "throw")), None)
            at = last.where() if last is not None else f.where(0)
            raised = r.end[0] == "raise"
            # stack
            if r.bad:
                R.bad("stack", r.bad[0][0].where(), "model", "when %s: %s" % (s, r.bad[0][1]))
            elif not ctor or raised is False:
                base = 0
                extra = len(r.stack) - base
                if ctor:        # results of the prelude that fails to load are not counted
                    extra = len([x for x in r.stack if not (x[0] == "chunk" and ("ret", x[1]) in own)])
                R.check(extra == 0, "stack", at, "height", "when %s %s leaves %d value(s) on the interpreter's stack" % (s, f.q, extra), sample="%s: balanced when %s" % (f.q, s))
            # text after the operation
            txt, changed = None, False
            glob = None
            gl = []
            for op, e, i in r.ops:
                if op == "write" and i["loc"] == expr:
                    txt, changed = strip(i["val"]), True
                elif op == "call" and i["obj"] == expr:
                    w = i["q"].split("::")[-1]
                    if w == "clear":
                        txt, changed = ("s", ""), True
                    elif w in ("append", "push_back", "operator+=", "erase", "insert", "swap", "pop_back", "resize", "replace"):
                        txt, changed = ("?", w), True
                    elif w in ("operator=", "assign") and not changed:
                        txt, changed = norm_text(i["args"][0])[1] if i["args"] else ("?", w), True
                elif op == "lua_setglobal" and i["name"] == chunkglob:
                    glob = i["value"]
                    gl.append(e)
            fin = {}
            for t, v in pairs.items():
                fin[t] = final(r, sg, t, f)
                fin[v] = final(r, sg, v, f)
            touched = [t for t in fin if fin[t] is not None and strip(fin[t]) != t]
            if raised and ctor:
                continue
            if raised:
                R.check(not changed, "keep", at, "text", "when %s %s reports an error after it changed the text" % (s, f.q), sample="%s keeps everything when %s" % (f.q, s))
                R.check(glob is None, "keep", gl[-1].where() if gl else at, "compiled", "when %s %s reports an error after it replaced the compiled form" % (s, f.q))
                R.check(not touched, "keep", at, "cache", "when %s %s reports an error after it changed %s" % (s, f.q, ", ".join(show(t) for t in touched)))
                if not iseval and not s.empty:
                    R.check(s.load[1] or s.call or not s.num, "assign", at, "refused", "a valid text is refused when %s" % s)
                continue
            if iseval:
                R.check(not changed and glob is None, "eval", at, "changes", "evaluating changes the expression itself")
            # pairs
            emptied = changed and txt == ("s", "") or (ctor and not changed and s.empty) or (changed and s.empty and txt is not None and textp(txt))
            newtext = changed or (ctor and not s.empty)
            for t, v in sorted(pairs.items()):
                if emptied and not ctor:
                    continue
                a, b = fin[t], fin[v]
                if ctor and a is None:
                    R.bad("cache", at, "init:%s" % show(t), "the constructor leaves the remembered argument %s without a value" % show(t))
                    continue
                if a is not None and isnan(P, a):
                    R.ok("cache", "%s can match no argument after %s" % (show(t), f.q))
                    continue
                if newtext or ctor:
                    R.bad("cache", at, "stale:%s" % show(t), "after %s the value remembered for %s is that of another text: %s is not reset" % (
                        "construction" if ctor else "a text was assigned", show(a) if a else "an argument", show(t)))
                    continue
                a = ("ld", t) if a is None else a
                b = ("ld", v) if b is None else b
                ok = any(strip(a) == x and strip(b) == y for x, y in pairs.items()) and a[0] == "ld" and b[0] == "ld"
                if not ok and iseval and strip(a) in par and not s.hit and not s.empty:
                    ok = fresh(r, b, lambda x: strip(x) in par, expr)
                if not ok and iseval and s.hit and strip(a) in par:
                    ok = any(strip(b) == pairs[h] for h in s.hit)
                R.check(ok, "cache", at, "pair:%s" % show(t), "when %s the value remembered for the argument %s becomes %s" % (s, show(a), show(b)), sample="(%s, %s) belong together" % (show(a), show(b)))
            if iseval or textless:
                continue
            # assignment
            if s.empty:
                R.check(changed and (txt == ("s", "") or textp(txt)) or ctor and not changed, "assign", at, "empty", "assigning an empty text leaves the earlier one in force")
                continue
            R.check(not (s.load[1] or s.call or not s.num), "assign", at, "accepted", "a text is accepted although %s" % s, sample="%s -> error" % s)
            if s.load[1] or s.call or not s.num:
                continue
            R.check(changed and textp(txt), "assign", at, "text", "after a text was assigned the text in force is %s" % (show(txt) if txt else "the earlier one"))
            if glob is None:
                R.bad("assign", at, "compiled", "after a text was assigned the earlier compiled form is still in force")
                continue
            lds = [(e, i, op) for op, e, i in r.ops if op in LOADS and ("ret", e.n) not in own]
            hit = [k for k, (e, i, op) in enumerate(lds) if glob == ("chunk", e.n)]
            if not hit:
                R.bad("assign", gl[-1].where(), "compiled", "what is stored as the compiled form is %s, not the compiled text" % show(glob))
                continue
            k = hit[0]
            R.check(not s.load[min(k, 1)], "assign", gl[-1].where(), "failed-chunk", "what is stored as the compiled form is the message of a failed compilation when %s" % s)
            tx = textof(lds[k][1], lds[k][2])
            R.check(tx is not None and textp(tx[1]) and tx[0] in ("", "return "), "assign", lds[k][0].where(), "source",
                    "what is compiled is %s, not the text that becomes the one in force" % (show(lds[k][1]["args"][1])), sample="compiled from the assigned text when %s" % s)
            if tx is not None and tx[0] == "" and k == 0:
                R.bad("assign", lds[k][0].where(), "order", "a text is compiled as a statement before it was tried as an expression")
            tried = [i for op, e, i in r.ops if op in PROT and i["fn"] == glob]
            R.check(bool(tried), "assign", gl[-1].where(), "tried", "a text is put in force without having been run once")
        R.count("cases of members", 1)


def final(r, sg, loc, f):
    """Value of location loc where the run ends, None when it was not written."""
    v = None
    for op, e, i in r.ops:
        if op == "write" and i["loc"] == loc:
            v = i["val"] if e.op in (None, "=", "init") or True else v
    return v


def critical(P, R, f, pairs, states, inl):
    sg = SG(P, f, inline=inl, maxdepth=8, reads=True)
    shared = set(pairs) | set(pairs.values())
    got = {}
    for es in sg.ev_at.values() if isinstance(sg.ev_at, dict) else sg.ev_at:
        for e in (es or ()) if isinstance(es, (list, tuple)) else (es,):
            what = None
            if e.kind in ("read", "write") and e.loc is not None and strip(e.loc) in shared:
                what = show(strip(e.loc))
            elif e.kind == "call" and e.args and e.inl is None and (e.q.startswith("lua_") or e.q.startswith("luaL_")):
                what = e.q
            if what:
                got[(e.n, what)] = e
    locks = sg.calls(set(LOCKS))
    n = 0
    names = set()
    for (k, what), e in sorted(got.items()):
        c = crit(sg, e.n)
        n += 1
        if not c and locks:
            R.assume("eval: %s at %s is guarded by a lock" % (what, e.where()))
            continue
        R.check(bool(c), "crit", e.where(), what, "%s is used outside the critical section: another thread may use the same interpreter or replace the pair at this moment" % what,
                sample="%s inside critical(%s)" % (what, ",".join(sorted(x[0] for x in c))))
        names.add(frozenset(x[0] for x in c))
    R.need(n, 8, "uses of the interpreter and the cache in eval")
    R.check(len(names) <= 1, "crit", f.where(0), "same", "the uses in eval are guarded by different critical sections")
    # set argument, run and fetch in the same construct
    cs = {frozenset(crit(sg, e.n)) for (k, what), e in got.items() if e.kind == "call"}
    R.check(len(cs) <= 1, "crit", f.where(0), "whole", "setting the argument, running and fetching the result are not done in one critical section")


def crit(sg, n):
    m = sg.nodes[n]
    c, nid, fn = m.ctx, m.nid, m.fn
    out = set()
    while True:
        x = nid
        while x is not None:
            nd = fn.nodes[x]
            if nd["k"] in CRIT:
                out.add((nd.get("name") or "", fn.q, x))
            x = fn.parent.get(x)
        if c == 0:
            return out
        p = sg.ctxs[c]
        c, nid = p[0], p[1]
        fn = sg.ctxs[c][2]


CONST = {"e": math.e, "log2e": 1 / math.log(2), "log10e": 1 / math.log(10), "ln2": math.log(2), "ln10": math.log(10), "pi": math.pi, "pi_2": math.pi / 2, "pi_4": math.pi / 4,
         "1_pi": 1 / math.pi, "2_pi": 2 / math.pi, "2_sqrtpi": 2 / math.sqrt(math.pi), "sqrt2": math.sqrt(2), "sqrt1_2": math.sqrt(.5)}


def names(P, R, mem, inl):
    seen = set()
    for f in mem:
        if f.q != "TEval::TEval" or f.params:
            continue
        sg, rs = runs(P, f, 0, inline=inl)
        for r in rs:
            for op, e, i in r.ops:
                if op == "lua_setglobal" and i["name"][0] == "s":
                    nm, v = i["name"][1], i["value"]
                    if v and v[0] == "num":
                        x = decide(v[1], lambda t: None)
                        if x is None:
                            R.assume("the value of the constant %s is not evaluated" % nm)
                        elif nm in CONST:
                            seen.add(nm)
                            R.check(abs(x - CONST[nm]) <= 1e-12 * abs(CONST[nm]), "names", e.where(), nm, "the constant %s has the value %.15g instead of %.15g" % (nm, x, CONST[nm]), sample="%s = %.15g" % (nm, x))
                    elif v and v[0] == "fn" and nm == "erf":
                        seen.add(nm)
                        erf(P, R, v[1], e)
                elif op in LOADS:
                    t = strip(i["args"][1])
                    if t[0] == "s":
                        for a, b in re.findall(r"(?m)^\s*(\w+)\s*=\s*math\.(\w+)\s*$", t[1]):
                            seen.add(a)
                            R.check(a == b, "names", e.where(), a, "the function %s of expressions is math.%s" % (a, b), sample="%s = math.%s" % (a, b))
    R.count("names known to expressions", len(seen))


def erf(P, R, fn, e):
    k = fn[1] if fn[0] == "fn" else None
    g = P.fns.get(k)
    if g is None:
        R.assume("the function bound to erf is not found")
        return
    sg, rs = runs(P, g, 1)
    for r in rs:
        if r.end[0] != "ret":
            continue
        top = r.stack[-1] if r.stack else None
        if any(op in ("luaL_error", "lua_error") for op, _, _ in r.ops):
            continue
        v = top[1] if top is not None and top[0] == "num" else None
        for op, e, i in r.ops:
            if op == "call" and v == ("ret", e.n):
                v = ("f", i["q"]) + tuple(i["args"])
        ok = v is not None and v[0] == "f" and v[1].split("::")[-1] == "erf" and v[2] in (("L", "num", ("arg", 1)), ("L", "cnum", ("arg", 1)))
        if not ok and (v is None or not (v[0] == "c" or v[0] == "f")):
            R.assume("the value that the function erf gives is not resolved: %s" % (show(v) if v else "?"))
            continue
        R.check(ok, "names", g.where(0), "erf", "the function erf of expressions gives %s" % (show(top[1]) if top and len(top) > 1 else "nothing"), sample="erf(x)")
