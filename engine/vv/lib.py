"""Helpers shared by the rules: access-path chains, record leaves, loop coverage."""
from .prog import AnalysisError, rel
from .sg import SG, show, root, subterms, is_term_loc, base_type, pointee, decide


def chain(t):
    """Access path of a location as a tuple of member names and '[]', from its root."""
    out = []
    while True:
        if t[0] == "fld":
            out.append(t[2])
            t = t[1]
        elif t[0] == "el":
            if not (out and out[-1] == "[]*"):
                out.append("[]")
            t = t[1]
        elif t[0] == "ld":
            t = t[1]
        else:
            break
    return tuple(reversed(out))


def opath(t, classes=("TBody::", "Space::", "TAtt::", "TObj::")):
    """Object-relative path: the part of the chain owned by the innermost body
    (or the space), independent of how the body was reached."""
    c = chain(t)
    for pre in ("TBody::", "Space::"):
        idx = [i for i, x in enumerate(c) if x.startswith(pre)]
        if idx:
            return c[idx[-1] if pre == "TBody::" else idx[0]:]
    return c


def sp(path):
    """Readable form of a path of member names and element steps."""
    out = []
    for x in path:
        if isinstance(x, tuple):
            out.append("[%s]" % (show(x[1]) if isinstance(x[1], tuple) and x[1][0] in ("c", "s") else ""))
        else:
            out.append(x.split("::")[-1] if x != "[]" else "[]")
    return ".".join(out).replace(".[", "[")


def under(loc, k):
    """Sub-path of key k under location loc, or None."""
    out = []
    x = k
    while True:
        if x == loc:
            return tuple(reversed(out))
        if x[0] in ("fld", "el"):
            out.append(x[2] if x[0] == "fld" else ("[]", x[2]))
            x = x[1]
        else:
            return None


def leaves(st, loc):
    """{sub-path: value} of everything known below loc."""
    out = {}
    for k, v in st.items():
        p = under(loc, k)
        if p is not None:
            out[p] = v
    if len(out) > 1:
        for p in list(out):
            if any(q != p and q[:len(p)] == p for q in out) and out[p][0] in ("zero", "undef", "f", "c"):
                del out[p]
    return out


def record_leaves(prog, t):
    """Scalar leaf paths of a record type (transparent records expanded)."""
    out = []

    def go(q, pre):
        r = prog.records[q]
        for b in r["bases"]:
            if base_type(b["t"]) in prog.records:
                go(base_type(b["t"]), pre)
        for f in r["fields"]:
            p = pre + (q + "::" + f["name"],)
            ft = base_type(f["t"])
            if ft in prog.records and "*" not in f["t"] and not prog.records[ft]["userCopyCtor"]:
                go(ft, p)
            else:
                out.append((p, f["t"]))
    go(t, ())
    return out


def prestate(sg, n):
    nd = sg.nodes[n]
    ps = [p for p, l in nd.pred if p in sg.outs]
    if len(ps) == 1:
        return sg.outs[ps[0]]
    return sg.join(nd, [sg.outs[p] for p in ps])


def deep(sg, t, lim=200):
    """All values term t may stand for, expanding phis and conditionals at the top level."""
    return sg.expand(t, lim)


def loop_of_phi(sg, ph):
    """(start values, step terms) of an induction phi."""
    starts, steps = [], []
    seen = set()
    st = [ph]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for v in sg.phis.get(x, ()):
            if v[0] == "phi" and v in sg.phis and v[2] == ph[2]:
                st.append(v)
            elif v[0] == "op" and v[1] in ("+", "-") and any(y[0] == "phi" and y[2] == ph[2] for y in v[2:]):
                steps.append(v)
            elif v == ("undef",):
                pass
            else:
                starts.append(v)
    return starts, steps


def index_cover(sg, ph):
    """Describes the index loop that drives phi ph: (starts, steps as constants,
    bounds) where bounds are (op, term) of the branches comparing it."""
    fam = {ph}
    for x in sg.phis:
        if x[2] == ph[2]:
            fam.add(x)
    starts, steps = loop_of_phi(sg, ph)
    stc = set()
    for s in steps:
        c = [y for y in s[2:] if y[0] == "c"]
        stc.add((s[1], c[0][1]) if c else None)
    bounds = set()
    for e in sg.events:
        if e.kind == "br":
            t = e.val
            if t[0] == "op" and t[1] in ("<", "<=", "!=", "==") and len(t) == 4:
                if t[2] in fam and not any(y in fam for y in subterms(t[3])):
                    bounds.add((t[1], t[3]))
                elif t[3] in fam and not any(y in fam for y in subterms(t[2])):
                    bounds.add(({"<": ">", "<=": ">="}.get(t[1], t[1]), t[2]))
                elif t[2][0] == "op" and t[2][1] in ("+", "-") and len(t[2]) == 4 and not any(y in fam for y in subterms(t[3])):
                    # i + c < b is i < b - c
                    for a, b in ((t[2][2], t[2][3]), (t[2][3], t[2][2])):
                        if a in fam and b[0] == "c" and (t[2][1] == "+" or b is t[2][3]):
                            bounds.add((t[1], ("op", "-" if t[2][1] == "+" else "+", t[3], b)))
    return starts, stc, bounds


def guards(sg, n):
    """Branch edges of n's own function instance that every path to n takes:
    [(branch event, label)]."""
    ctx = sg.nodes[n].ctx
    key = ("guards", n)
    c = sg.__dict__.setdefault("_guards", {})
    if key in c:
        return c[key]
    c[key] = []
    ent = sg.entry.i
    for x in sg.nodes:
        if x.kind == "entry" and x.ctx == ctx:
            ent = x.i
            break
    out = []
    for e in sg.events:
        if e.kind != "br" or e.ctx != ctx:
            continue
        labs = {l for _, l in sg.nodes[e.n].succ}
        for l in labs:
            seen = sg.reach([ent], edges=lambda a, b, m: not (a == e.n and m == l))
            if n not in seen:
                out.extend(split(e, l, sg))
    c[key] = out
    return out


def split(e, l, sg=None):
    """The parts of a condition that is a conjunction (or the negation of a
    disjunction) as guards of their own; a flag that is set in one place
    only, or a predicate with one such result, stands for the guards there."""
    import copy
    more = []
    if not (isinstance(l, tuple) and l[0] == "br" and isinstance(l[1], bool)):
        return [(e, l)]

    def parts(v, tr):
        while v[0] == "op1" and v[1] == "!" and v[2][0] in ("op", "op1") and v[2][1] in ("&&", "||", "!"):
            v, tr = v[2], not tr
        if v[0] == "op" and (v[1], tr) in (("&&", True), ("||", False)):
            return [y for x in v[2:] for y in parts(x, tr)]
        w, t2 = v, tr
        while w[0] == "op1" and w[1] == "!":
            w, t2 = w[2], not t2
        if sg is not None and w[0] == "phi" and w in sg.phis:
            vs = [x for x in sg.phis[w] if not (x[0] == "c" and bool(x[1]) != t2)]
            if len(vs) == 1 and vs[0][0] != "phi" and len(sg.phis[w]) > 1:
                loc = w[2]
                at = [x for x in sg.events if x.val == vs[0] and (x.kind == "write" and x.loc == loc or loc[0] == "retv" and x.kind == "ret" and x.ctx == loc[1])]
                if len(at) == 1:
                    more.extend(guards(sg, at[0].n))
                    return [(v, tr)] if vs[0][0] == "c" else parts(vs[0], t2)
        return [(v, tr)]
    ps = parts(e.val, l[1])
    if len(ps) == 1 and ps[0] == (e.val, l[1]):
        return [(e, l)] + more
    out = more
    for v, tr in ps:
        x = copy.copy(e)
        x.val = v
        out.append((x, ("br", tr)))
    return out


def forkmap(f, items, jobs=8):
    """[f(x) for x in items] in forked children (results must be picklable)."""
    import os, pickle, sys
    items = list(items)
    res = [None] * len(items)
    run = {}
    todo = list(enumerate(items))
    while todo or run:
        while todo and len(run) < jobs:
            i, x = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    out = (True, f(x))
                except AnalysisError as ex:
                    out = (False, str(ex))
                except BaseException:
                    import traceback
                    out = (False, traceback.format_exc())
                with os.fdopen(w, "wb") as o:
                    pickle.dump(out, o)
                os._exit(0)
            os.close(w)
            run[i] = (pid, r)
        i = next(iter(run))
        pid, r = run.pop(i)
        with os.fdopen(r, "rb") as o:
            data = o.read()
        os.waitpid(pid, 0)
        if not data:
            raise AnalysisError("worker failed")
        ok, v = pickle.loads(data)
        if not ok:
            raise AnalysisError(v)
        res[i] = v
    return res


def elem_type(t):
    """Element type of an array, pointer or sequence container type."""
    import re as _re
    t = base_type(t)
    m = _re.match(r"(.*?)\s*\[\d*\](.*)$", t)
    if m:
        return (m.group(1) + m.group(2)).strip()
    if t.endswith("*"):
        return base_type(t[:-1])
    m = _re.match(r"(?:std::(?:__cxx11::)?)(vector|array|list|deque|basic_string)<(.*)>$", t)
    if m:
        d, out = 0, ""
        for ch in m.group(2):
            d += ch == "<"
            d -= ch == ">"
            if ch == "," and d == 0:
                break
            out += ch
        return base_type(out)
    if t.startswith("std::string"):
        return "char"
    return None


def loc_type(sg, loc):
    """Declared type of the object a location term names, or None."""
    k = loc[0]
    if k == "loc":
        d = sg.ctxs[loc[1]][2].decls.get(loc[2])
        return base_type(d["type"]) if d else None
    if k == "fld":
        r = sg.prog.records.get(loc[2].rsplit("::", 1)[0])
        for f in (r or {"fields": []})["fields"]:
            if f["name"] == loc[2].rsplit("::", 1)[1]:
                return base_type(f["t"])
        return None
    if k == "el":
        t = loc_type(sg, loc[1])
        return elem_type(t) if t else None
    if k == "ld":
        t = loc_type(sg, loc[1])
        return base_type(t[:-1]) if t and t.endswith("*") else t
    if k == "tmp":
        return base_type(sg.ctxs[loc[1]][2].nodes[loc[2]]["t"])
    if k == "g":
        for f in (sg.rootfn,):
            g = sg.prog.globals.get(loc[1])
            return base_type(g["t"]) if g and "t" in g else None
    return None


def scalar_of(t):
    """Innermost element type of nested arrays and containers."""
    while True:
        e = elem_type(t)
        if e is None or t.endswith("*"):
            return base_type(t)
        t = e


def copied_from(sg, n, t):
    """The object a record argument at node n is a whole copy of (or is itself)."""
    if t is None:
        return None
    if t[0] == "fld" or t[0] == "arg":
        return t
    lv = leaves(prestate(sg, n), t)
    src = set()
    for p, v in lv.items():
        if v[0] == "ld":
            x = v[1]
            for m in reversed(p):
                if x[0] != "fld" or x[2] != m:
                    return None
                x = x[1]
            src.add(x)
        else:
            return v if len(lv) == 1 and p == () else None
    return src.pop() if len(src) == 1 else None


def dominators(sg):
    """Immediate dominators of the nodes reachable from the entry."""
    d = sg.__dict__.get("_idom")
    if d is not None:
        return d
    order, seen, st = [], {sg.entry.i}, [(sg.entry.i, iter(sg.nodes[sg.entry.i].succ))]
    while st:
        n, it = st[-1]
        for b, l in it:
            if b not in seen:
                seen.add(b)
                st.append((b, iter(sg.nodes[b].succ)))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    num = {n: i for i, n in enumerate(order)}
    idom = {sg.entry.i: sg.entry.i}
    ch = True
    while ch:
        ch = False
        for n in order[1:]:
            new = None
            for p, l in sg.nodes[n].pred:
                if p not in idom:
                    continue
                if new is None:
                    new = p
                    continue
                a, b = p, new
                while a != b:
                    while num[a] > num[b]:
                        a = idom[a]
                    while num[b] > num[a]:
                        b = idom[b]
                new = a
            if idom.get(n) != new:
                idom[n] = new
                ch = True
    sg.__dict__["_idom"], sg.__dict__["_rpo"] = idom, num
    return idom


def dominates(sg, a, b):
    idom = dominators(sg)
    while b in idom:
        if a == b:
            return True
        if idom[b] == b:
            return False
        b = idom[b]
    return False


def loops(sg):
    """Natural loops: {header: set of nodes}."""
    c = sg.__dict__.get("_loops")
    if c is not None:
        return c
    idom = dominators(sg)
    out = {}
    for n in idom:
        for h, l in sg.nodes[n].succ:
            if h in idom and dominates(sg, h, n):
                body = out.setdefault(h, {h})
                todo = [n]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += [p for p, l2 in sg.nodes[x].pred if p in idom]
    sg.__dict__["_loops"] = out
    return out


def loops_around(sg, n):
    """Natural loops that contain node n, innermost first: [(header, nodes, exit branches)]."""
    out = []
    for h, body in loops(sg).items():
        if n in body:
            ex = [e for e in sg.events if e.kind == "br" and e.n in body and any(b not in body for b, l in sg.nodes[e.n].succ)]
            out.append((h, body, ex))
    return sorted(out, key=lambda x: len(x[1]))


def over(sg, br):
    """What the loop with exit branch br runs over: ('it', list) | ('ix', phi, bound) | None."""
    t = br.val
    while t[0] == "op1" and t[1] == "!":
        t = t[2]
    if t[0] != "op" or t[1] not in ("!=", "<", "<=", ">", ">=", "=="):
        return None
    its = [x for x in t[2:] if x[0] == "it"]
    if its:
        return ("it", its[0][1])
    for a, b in ((t[2], t[3]), (t[3], t[2])):
        if a[0] == "phi":
            return ("ix", a, b)
    return None


def contra(sg, a, l, env):
    """Edge label l out of node a contradicts what env decides."""
    if not (isinstance(l, tuple) and l[0] == "br"):
        return False
    for e in sg.ev_at.get(a, ()):
        if e.kind == "br":
            x = decide(e.val, env)
            if x is not None:
                return bool(x) != l[1]
    return False


def pathenv(sg, env):
    """env, extended to merged values: a merge has the value on which all the assignments agree that reach it along branches env
    does not contradict."""
    def edges(a, b, l):
        return not contra(sg, a, l, env)
    r0 = sg.reach([sg.entry.i], edges=edges)
    memo = {}

    def env2(t):
        v = env(t)
        if v is not None or t[0] != "phi":
            return v
        if t not in memo:
            memo[t] = None
            ws = [e for e in sg.events if e.kind == "write" and e.loc == t[2]]
            got = set()
            for e in ws:
                if e.n in r0 and t[1] in sg.reach(sg.after(e.n), stop={x.n for x in ws if x.n != e.n}, edges=edges):
                    got.add(decide(e.val, env2))
            if len(got) == 1:
                memo[t] = got.pop()
        return memo[t]
    return env2
