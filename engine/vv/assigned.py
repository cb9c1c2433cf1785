"""Definite assignment of local variables that are declared without a value."""

from vv.sg import SG

OUTFNS = ("scanf", "fscanf", "sscanf", "vsscanf")
THROUGH = {"ParenExpr", "ExprWithCleanups", "ConstantExpr", "MaterializeTemporaryExpr"}


def scalar(t):
    t = t.strip()
    if t.endswith("&"):
        return False
    if "*" in t or "[" in t:
        base = t.split("[")[0].strip()
        return base.endswith("*") or ")(" in t or plain(base)
    return plain(t)


def plain(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    w = set(t.split())
    return bool(w) and w <= {"unsigned", "signed", "int", "long", "short", "char", "bool", "float", "double", "_Bool", "wchar_t"} or "*" in t


def role(f, nid, call_of=None):
    """(kind, node where it takes effect) of the variable mentioned at nid: 'read', 'def', or 'none'."""
    x = nid
    viaptr = False
    while True:
        p = f.parent.get(x)
        if p is None:
            return "none", nid
        n = f.nodes[p]
        k = n["k"]
        if k in THROUGH:
            x = p
            continue
        if k.endswith("CastExpr"):
            c = n.get("cast")
            if c == "LValueToRValue":
                return "read", p
            if c == "ArrayToPointerDecay":
                viaptr = True
                x = p
                continue
            if c in ("NoOp", "BitCast", "DerivedToBase", "UncheckedDerivedToBase"):
                if viaptr and n["t"].startswith("const ") or not viaptr and n["t"].startswith("const ") and n.get("lv"):
                    return "read", p
                x = p
                continue
            if c == "ToVoid":
                return "none", p
            return "def", p
        if k == "ArraySubscriptExpr":
            if n["c"][0] == x or x in n["c"][:1]:
                viaptr = False
                x = p
                continue
            return "read", p
        if k == "MemberExpr":
            x = p
            continue
        if k == "BinaryOperator" and n["op"] == "=":
            return ("def", p) if n["c"][0] == x else ("read", p)
        if k == "BinaryOperator" and n["op"] == ",":
            if n["c"][0] == x:
                return "none", p
            x = p
            continue
        if k in ("BinaryOperator",) and viaptr:
            x = p
            continue
        if k == "CompoundAssignOperator":
            return "read", p
        if k == "UnaryOperator":
            if n["op"] in ("++", "--"):
                return "read", p
            if n["op"] == "&":
                viaptr = True
                x = p
                continue
            if n["op"] == "*":
                viaptr = False
                x = p
                continue
            return "read", p
        if k in ("UnaryExprOrTypeTraitExpr", "SizeOfExpr"):
            return "none", p
        if "callee" in n or k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
            return "def", p
        if k in ("DeclStmt", "LambdaExpr", "InitListExpr", "ReturnStmt", "ConditionalOperator"):
            return "def", p
        return "none", p


def undefined_reads(P, f):
    """[(decl node, variable, type, reading node)] where some path leads from the declaration to a read
    without an assignment."""
    vs, gen = {}, {}
    for i, n in enumerate(f.nodes):
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if (v["init"] is None or v["init"] < 0) and not v["static"] and scalar(v["t"]):
                    vs.setdefault(v["d"], (i, v["t"]))
                    gen.setdefault(i, []).append(v["d"])
    if not vs:
        return [], 0, []
    use, kill = {}, {}
    for i, n in enumerate(f.nodes):
        d = n.get("d")
        if n["k"] == "DeclRefExpr" and d in vs:
            r, at = role(f, i)
            if r == "read":
                use.setdefault(at, []).append(d)
            elif r == "def":
                kill.setdefault(at, []).append(d)
    st = {b: None for b in f.blocks}
    st[f.entry] = frozenset()
    work = [f.entry]
    reads = set()
    seenpos = set()
    while work:
        b = work.pop()
        cur = set(st[b])
        for e in f.blocks[b]["e"]:
            if e[0] == "s":
                x = e[1]
                seenpos.add(x)
                for d in use.get(x, ()):
                    if d in cur:
                        reads.add((d, x))
                for d in kill.get(x, ()):
                    cur.discard(d)
                for d in gen.get(x, ()):
                    cur.add(d)
        if f.blocks[b].get("noret") or any(e[0] == "s" and f.nodes[e[1]].get("callee") and P.never_returns(f.nodes[e[1]]["callee"]) for e in f.blocks[b]["e"]):
            continue
        for s in f.blocks[b]["s"]:
            if isinstance(s, list):
                s = s[0]
            if s is None or s < 0 or s not in st:
                continue
            new = frozenset(cur) | (st[s] or frozenset())
            if st[s] is None or new != st[s]:
                st[s] = new
                work.append(s)
    out = []
    sg = None
    for d, x in sorted(reads):
        decl, t = vs[d]
        if sg is None:
            sg = SG(P, f, inline=lambda g, c: False, maythrow=lambda k: False)
        kills = {a for a, ds in kill.items() if d in ds}
        hit = set()

        def stop(n, env):
            nid = sg.nodes[n].nid
            if nid in kills:
                return True
            if nid == x:
                hit.add(n)
            return False
        starts = [n.i for n in sg.nodes if n.ctx == 0 and n.nid in gen and d in gen[n.nid]]
        known = {n.nid for n in sg.nodes}
        if not starts or x not in known or not kills <= known | {None}:
            out.append((decl, d, t, x))
            continue
        for n0 in starts:
            sg.follow(n0, {}, stop=stop, consts=True)
        if hit:
            out.append((decl, d, t, x))
    return out, len(vs), [i for i in gen if i not in seenpos]
