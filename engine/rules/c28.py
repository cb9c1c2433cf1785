"""C28 reproducibility: definite assignment and ambient state."""
import re
from vv.lib import *
from vv.sg import subterms, root
from vv.prog import rel
from vv.assigned import undefined_reads, role, scalar

TECHNIQUE = "definite-assignment dataflow (confirmed path by path), constructor coverage of members, and taint of clock and environment values"
NOTE = """Decides that no local scalar, pointer or array is read on a feasible path before something was assigned to it (of arrays: to some element), that a failed call does not leave an out-parameter that is then read, that every constructor
gives every scalar member a value before it is read, that no address is used as a number, an order or text, and that clock, environment, locale, process and random sources reach nothing but the recorded creation time, the moment of a flush and the debugging dump. Contents of raw heap blocks are C17's and C32's."""

AMB = re.compile(r"^(std::)?(s?rand|s?random|[dlm]rand48|rand_r|arc4random|getrandom|time|clock|times|gettimeofday|clock_gettime|timespec_get|ftime|getrusage|getpid|getppid|gettid|gethostname|uname|getenv|"
                 r"secure_getenv|setlocale|newlocale|uselocale|localeconv|nl_langinfo|getcwd|getuid|getlogin|sysconf|get_nprocs|rand)$"
                 r"|random_device|chrono::|mersenne_twister|linear_congruential|default_random|std::locale::|this_thread|std::hash|omp_get_(thread|num|max|wtime|wtick|proc)")
NOTALLOWED = re.compile(r"rand|setlocale|locale|pid|tid|host|uname|random|this_thread|hash|cwd|uid|login")
CONV = re.compile(r"^(std::)?(localtime|localtime_r|gmtime|gmtime_r|strftime|ctime|ctime_r|asctime|asctime_r|mktime|snprintf|strlen|difftime)$|^std::|^timespec::|^operator")
QUIET = re.compile(r"^(std::)?(mkdir|snprintf|fprintf|perror|fflush|H5Fflush|strcmp|strlen|atoi)$|^std::|^Matrix::save$|^Stepdata::flush$|^h5_throw$|^timespec::|operator")
OUT = {"scanf": 0, "fscanf": 0, "sscanf": 0, "H5Sget_simple_extent_dims": -1, "clock_gettime": -1}


def quiet(x):
    if not QUIET.search(x.q):
        return False
    if "operator" in x.q and not x.q.startswith("std::"):
        to = x.obj if x.obj is not None else x.args[0] if x.args and re.search(r"operator([-+*/%|&^]|<<|>>)?=$|operator(\+\+|--)$", x.q) else None
        return to is None or root(to)[0] in ("loc", "tmp", "retv")
    return True


def mine(f):
    return bool(f.blocks) and "/linenoise" not in f.file and "/test/" not in f.file


def run(P, R, tier):
    R.rule("locals", "a local variable is read only after an assignment on every feasible path")
    R.rule("outparams", "a variable filled in by a call is not read after the call failed to fill it")
    R.rule("members", "a constructor gives each scalar member a value")
    R.rule("order", "a member's initialiser reads only members initialised before it")
    R.rule("ambient", "clock, environment and other ambient values reach only the creation time, the moment of a flush and the debugging dump")
    R.rule("addresses", "no address is used as a number, an order or text")
    fns = sorted((f for f in P.fns.values() if mine(f)), key=lambda f: (f.file, f.line, f.q))
    nv = 0

    def one(k):
        out = []
        n = 0
        for f in fns[k::8]:
            r, c, unseen = undefined_reads(P, f)
            n += c
            names = {}
            for nd in f.nodes:
                if nd["k"] == "DeclStmt":
                    for v in nd["vars"]:
                        names[v["d"]] = v["name"]
            hit = {}
            for decl, d, t, x in r:
                hit.setdefault(d, (x, decl))
            for d, (x, decl) in hit.items():
                out.append(("locals", False, f.where(x), "%s %s" % (f.q, names.get(d, d)), "%s reads '%s' (declared at line %s) on a path on which nothing was assigned to it" %
                            (f.q, names.get(d, d), f.where(decl).split(":")[-1])))
            for i in unseen:
                ds = [v["d"] for v in f.nodes[i]["vars"]]
                seen = any(nd["k"] == "DeclStmt" and j != i and j not in unseen and any(v["d"] in ds for v in nd["vars"]) for j, nd in enumerate(f.nodes))
                if not seen:
                    out.append(("assume", None, f.where(i), "", "a declaration in %s is not on any analysed path" % f.q))
            if c:
                out.append(("locals", True, f.where(), f.q, ""))
            # out-parameters of calls that failed
            decls = {v["d"]: (i, v["t"]) for i, nd in enumerate(f.nodes) if nd["k"] == "DeclStmt" for v in nd["vars"]
                     if (v["init"] is None or v["init"] < 0) and not v["static"] and scalar(v["t"])}
            calls = [(i, nd, (d or {}).get("q", "").replace("std::", "")) for i, nd, d in f.calls()]
            calls = [(i, nd, q) for i, nd, q in calls if q in OUT]
            if calls and decls:
                sg = SG(P, f, inline=lambda g, c: False, maythrow=lambda k: False)
                roles = {}
                for i, nd in enumerate(f.nodes):
                    if nd["k"] == "DeclRefExpr" and nd.get("d") in decls:
                        roles.setdefault(nd["d"], []).append(role(f, i))
                for i, nd, q in calls:
                    for d in decls:
                        if ("def", i) not in roles.get(d, ()):
                            continue
                        kills = {at for k, at in roles[d] if k == "def"} - {i}
                        uses = {at for k, at in roles[d] if k == "read"}
                        bad = []

                        def stop(n, env):
                            nid = sg.nodes[n].nid
                            if nid in uses and sg.nodes[n].ctx == 0:
                                bad.append(nid)
                            return nid in kills or nid in uses
                        for e in sg.events:
                            if e.kind == "call" and e.nid == i and e.ctx == 0:
                                sg.follow(e.n, {("ret", e.n): OUT[q]}, stop=stop, negne=True)
                        out.append(("outparams", not bad, f.where(i), "%s %s %s" % (f.q, q, names.get(d, d)), "%s reads '%s' although %s has not filled it" % (f.q, names.get(d, d), q)))
        return out, n
    res = []
    for out, n in forkmap(one, range(8)):
        res += out
        nv += n
    for rule, ok, where, key, msg in res:
        if rule == "assume":
            R.assume(where + ": " + msg)
        else:
            R.check(ok, rule, where, key, msg)
    # constructors
    nmem = 0
    for q, r in sorted(P.records.items()):
        if "/test/" in r["file"] or "linenoise" in r["file"] or not r["fields"]:
            continue
        idx = {x["name"]: i for i, x in enumerate(r["fields"])}
        need = [x for x in r["fields"] if (scalar(x["t"]) or x["t"].endswith("*") or x["t"] in P.enums) and not x["hasinit"]]
        ctors = [g for g in P.fns.values() if g.cls == q and g.name == q.split("::")[-1] and g.params is not None]
        for g in ctors:
            inits = g.ctorinits or []
            if any(c.get("delegating") for c in inits):
                R.ok("members", g.q + " (delegates)")
                continue
            t = P.decls.get(g.key, {})
            if not g.blocks and not inits:
                continue
            done = {c.get("field") for c in inits if c.get("written") or c.get("init", -1) >= 0}
            left = [x for x in need if x["name"] not in done]
            undone = unassigned(P, g, {x["name"] for x in left}) if left else set()
            for x in need:
                nmem += 1
                R.check(x["name"] not in undone, "members", g.where(), "%s %s" % (g.q, x["name"]), "the constructor %s leaves the member '%s' without a value" % (g.q, x["name"]))
            for c in inits:
                if c.get("field") in idx and c.get("init", -1) >= 0:
                    late = sorted({g.nodes[y]["m"] for y in g.walk(c["init"]) if g.nodes[y]["k"] == "MemberExpr" and g.nodes[y].get("mc") == q and g.nodes[y].get("m") in idx
                                   and own(g, y) and idx[g.nodes[y]["m"]] >= idx[c["field"]] and not r["fields"][idx[g.nodes[y]["m"]]]["t"].startswith("std::") and reads(g, y)})
                    R.check(not late, "order", g.where(), "%s %s" % (g.q, c["field"]), "'%s' is initialised from '%s', which has no value yet (members are initialised in the order of their declaration)" %
                            (c["field"], ", ".join(late)))
    # records without a constructor of their own
    bare = {q for q, r in P.records.items() if any(scalar(x["t"]) and not x["hasinit"] for x in r["fields"]) and
            not any(not m["implicit"] and not m["deleted"] and m["name"] == q.split("::")[-1] for m in r["methods"])}
    for f in fns:
        for i, n in enumerate(f.nodes):
            if n["k"] == "CXXNewExpr" and n.get("nt") in bare and not n.get("arr"):
                R.assume("%s: members of the %s allocated in %s" % (f.where(i), n["nt"], f.q))
            if n["k"] == "CXXNewExpr" and n.get("arr") and plainnew(f, i):
                R.assume("%s: the contents of the block allocated in %s" % (f.where(i), f.q))
    ambient(P, R, fns)
    addresses(P, R, fns)
    R.need(nv, 50, "variables declared without a value")
    R.need(nmem, 120, "members initialised by constructors")
    R.need(R.rules["ambient"]["obligations"], 3, "ambient sources")


def plainnew(f, i):
    n = f.nodes[i]
    return scalar(n.get("nt", "")) and len(n["c"]) == 1


def own(f, y):
    """Is the member expression one of the object under construction?"""
    b = f.nodes[y]["c"][0] if f.nodes[y]["c"] else -1
    b = f.strip(b) if b >= 0 else -1
    return b < 0 or f.nodes[b]["k"] == "CXXThisExpr"


def reads(f, y):
    p = f.parent.get(y)
    while p is not None and f.nodes[p]["k"] in ("ParenExpr", "MemberExpr", "ArraySubscriptExpr"):
        p = f.parent.get(p)
    return p is not None and f.nodes[p].get("cast") == "LValueToRValue"


def unassigned(P, f, names):
    """Those members among names that some normal end of the constructor leaves unassigned."""
    kill = {}
    for i, n in enumerate(f.nodes):
        if n["k"] == "MemberExpr" and n.get("m") in names and own(f, i):
            r, at = role(f, i)
            if r == "def":
                kill.setdefault(at, set()).add(n["m"])
    st = {f.entry: frozenset(names)}
    work = [f.entry]
    while work:
        b = work.pop()
        cur = set(st[b])
        dead = f.blocks[b].get("noret")
        for e in f.blocks[b]["e"]:
            if e[0] == "s":
                cur -= kill.get(e[1], set())
                n = f.nodes[e[1]]
                if n["k"] == "CXXThrowExpr" or n.get("callee") and P.never_returns(n["callee"]):
                    dead = True
                # another member function of the object may assign the rest
                if n.get("callee") and n.get("call") == "member" and n.get("obj", -1) >= 0 and f.nodes[f.strip(n["obj"])]["k"] == "CXXThisExpr":
                    g = P.fns.get(n["callee"])
                    if g is not None and g is not f and g.blocks:
                        cur &= unassigned(P, g, set(cur)) if cur else set()
        if dead:
            continue
        for s in f.blocks[b]["s"]:
            if isinstance(s, list):
                s = s[0]
            if s is None or s < 0 or s not in f.blocks:
                continue
            new = frozenset(cur) | st.get(s, frozenset())
            if s not in st or new != st[s]:
                st[s] = new
                work.append(s)
    return set(st.get(f.exit, ()))


def ambient(P, R, fns):
    callers = P.callers()
    key = {id(f): k for k, f in P.fns.items()}
    roots, seen = [], set()

    def lift(f):
        if id(f) in seen:
            return
        seen.add(id(f))
        up = [g for g, _ in callers.get(key[id(f)], ()) if g is not f and mine(g)]
        if f.cls is None and up and all(g.file == f.file for g in up):
            for g in up:
                lift(g)
        else:
            roots.append(f)
    for k, g in sorted(P.globals.items()):
        if "/linenoise" in g["file"] or "/test/" in g["file"]:
            continue
        for n in g.get("nodes", ()):
            q = (g.get("decls", {}).get(n.get("callee")) or {}).get("q", n.get("callee") or "")
            if q and AMB.search(q):
                R.bad("ambient", "%s:%s" % (rel(g["file"]), g["line"]), "%s %s" % (g["q"], q), "the initial value of '%s' comes from %s" % (g["q"], q))
    for f in fns:
        for i, n, d in f.calls():
            q = (d or {}).get("q", "")
            if AMB.search(q):
                if NOTALLOWED.search(q):
                    R.bad("ambient", f.where(i), "%s %s" % (f.q, q), "%s uses %s: the result depends on more than the input" % (f.q, q))
                else:
                    lift(f)
    for f in roots:
        sg = SG(P, f, inline=lambda g, c: g.file == f.file and g.cls is None and not g.q.startswith(("dataset_", "h5")), maythrow=lambda k: False)
        src = [e for e in sg.events if e.kind == "call" and AMB.search(e.q)]
        T = set()
        for e in src:
            T.add(("ret", e.n))
            for a in e.args:
                if a[0] == "loc":
                    T.add(a)
        ns = {e.n for e in src}
        bad = []
        fields = set()

        def tainted(t):
            if t is None:
                return False
            st = [t]
            done = set()
            while st:
                x = st.pop()
                if x in done or not isinstance(x, tuple):
                    continue
                done.add(x)
                if x in T or x[:1] == ("out",) and x[1] in ns or x[0] == "fld" and x[2] in fields and x[1] == ("arg", "this"):
                    return True
                st += [y for y in x[1:] if isinstance(y, tuple)]
                if x in sg.phis:
                    st += list(sg.phis[x])
            return False
        change = True
        while change:
            change = False
            bad = []
            n0 = (len(T), len(fields), len(ns))
            for e in sg.events:
                if e.kind == "write" and tainted(e.val):
                    r = root(e.loc)
                    if r[0] in ("loc", "tmp", "retv"):
                        T.add(r)
                    elif e.loc[0] == "fld" and e.loc[1] == ("arg", "this"):
                        fields.add(e.loc[2])
                    else:
                        bad.append((e, "stores it in %s" % show(e.loc)))
                elif e.kind == "call" and e.n not in {x.n for x in src}:
                    if any(tainted(a) for a in e.args) or tainted(e.obj):
                        if CONV.search(e.q):
                            T.add(("ret", e.n))
                            ns.add(e.n)
                            if e.obj is not None and root(e.obj)[0] in ("loc", "tmp") and any(tainted(a) for a in e.args):
                                T.add(root(e.obj))
                            for a in e.args:
                                if a[0] == "loc" and not e.q.startswith("std::"):
                                    T.add(a)
                        elif e.inl:
                            pass
                        elif any(a == ("s", "time_local") for a in e.args):
                            pass
                        elif QUIET.search(e.q):
                            pass
                        else:
                            bad.append((e, "passes it to %s" % e.q))
                elif e.kind == "ret" and e.ctx == 0 and tainted(e.val):
                    bad.append((e, "returns it"))
            change = (len(T), len(fields), len(ns)) != n0
        for e in sg.events:
            if e.kind == "br" and tainted(e.val):
                ss = [s for s, l in sg.nodes[e.n].succ if l != ("eh",)]
                rs = []
                for s in ss:
                    done, todo = {s}, [s]
                    while todo:
                        m = todo.pop()
                        for q, l in sg.nodes[m].succ:
                            if q != e.n and q not in done and l != ("eh",):
                                done.add(q)
                                todo.append(q)
                    rs.append(done)
                common = set.intersection(*rs) if rs else set()
                region = set().union(*rs) - common
                for x in sg.events:
                    if x.n not in region:
                        continue
                    if x.kind == "write" and root(x.loc)[0] not in ("loc", "tmp", "retv") and not (x.loc[0] == "fld" and x.loc[2] in fields):
                        bad.append((x, "changes %s depending on it" % show(x.loc)))
                    elif x.kind == "call" and not quiet(x) and not (P.fns.get(x.key) is not None and P.fns[x.key].const) and not x.inl and not x.q.startswith("TTime::"):
                        bad.append((x, "calls %s depending on it" % x.q))
                    elif x.kind == "ret" and x.val is not None and x.ctx == 0 and x.val[0] != "c":
                        bad.append((x, "returns depending on it"))
        for q in sorted(fields):
            c, m = q.rsplit("::", 1) if "::" in q else ("", q)
            for g in fns:
                if g is f:
                    continue
                for i, n in enumerate(g.nodes):
                    if n["k"] == "MemberExpr" and n.get("m") == m and n.get("mc") == c and reads(g, i):
                        bad.append((None, "keeps it in %s, which %s reads at %s" % (q, g.q, g.where(i))))
        names = sorted({e.q for e in src})
        if not bad:
            R.ok("ambient", "%s: %s" % (f.q, ", ".join(names)))
        for e, what in bad[:3]:
            R.bad("ambient", e.where() if e is not None else f.where(), "%s %s" % (f.q, what.split(" at ")[0]), "%s takes a value from %s and %s" % (f.q, ", ".join(names), what))


def addresses(P, R, fns):
    n = 0
    for f in fns:
        inlambda = f.q.endswith("operator()") and "::" in f.q
        for i, x in enumerate(f.nodes):
            if x.get("cast") == "PointerToIntegral":
                R.bad("addresses", f.where(i), "%s number" % f.q, "%s uses an address as a number" % f.q)
            if x["k"] == "BinaryOperator" and x["op"] in ("<", ">", "<=", ">=") and f.nodes[x["c"][0]].get("t", "").endswith("*"):
                n += 1
                R.check(not inlambda, "addresses", f.where(i), "%s order" % f.q, "%s orders objects by their addresses" % f.q)
            if x["k"] == "StringLiteral" and re.search(r"%[-+ #0-9.]*p", x.get("s", "") or "") and "printf" in enclosing_call(f, i):
                R.bad("addresses", f.where(i), "%s text" % f.q, "%s prints an address" % f.q)
        it = [(i, nd, d) for i, nd, d in f.calls() if (d or {}).get("q", "") in ("std::map::begin", "std::set::begin", "std::map::cbegin", "std::set::cbegin", "std::map::rbegin", "std::unordered_map::begin", "std::unordered_set::begin")]
        for i, nd, d in it:
            o = nd.get("obj", -1)
            t = f.nodes[o].get("t", "") if o is not None and o >= 0 else ""
            m = re.search(r"(map|set)<\s*([^,>]+?)\s*[,>]", t)
            if not m or not m.group(2).endswith("*"):
                if "unordered" in t:
                    R.bad("addresses", f.where(i), "%s iterates" % f.q, "%s goes through a hash table in an order that is nowhere fixed" % f.q)
                else:
                    R.ok("addresses")
                continue
            sg = SG(P, f, inline=lambda g, c: False, maythrow=lambda k: False)
            eff = [e for e in sg.events if e.kind == "write" and root(e.loc)[0] not in ("loc", "tmp", "retv") or
                   e.kind == "write" and e.op not in ("decl", "++") and root(e.loc)[0] == "loc" or
                   e.kind == "call" and not re.search(r"^std::|^fprintf$|^exit$|operator", e.q)]
            R.check(not eff, "addresses", f.where(i), "%s iterates" % f.q, "%s works through %s in the order of addresses: %s" % (f.q, t, repr(eff[0])[:120] if eff else ""))
    R.count("pointer comparisons", n)


def enclosing_call(f, i):
    p = f.parent.get(i)
    while p is not None:
        c = f.nodes[p].get("callee")
        if c:
            return (f.decls.get(c) or {}).get("q", "")
        p = f.parent.get(p)
    return ""
