"""C30 a script error never skips the clean-up of native objects."""
from vv.luaattr import *
from rules.c04 import acq, rel_kind

TECHNIQUE = "lifetime (typestate) analysis over the interprocedural CFG with destructor elements: live objects and unreleased resources at every point that may leave by a long jump"
NOTE = """Decides, for every function that works on the script interpreter, that no automatic object with a destructor, no exception being handled, no open file and no heap
block is live at a call that can raise a script error. Errors raised because memory is exhausted are not followed; the interpreter's interface is trusted to raise only where its manual says."""

# calls of the interface that raise an error for reasons other than exhausted memory
RAISE = {"luaL_error", "lua_error", "luaL_argerror", "luaL_typeerror", "luaL_checkudata", "luaL_checknumber", "luaL_checkinteger", "luaL_checklstring", "luaL_checktype", "luaL_checkany",
         "luaL_checkoption", "luaL_checkversion_", "luaL_optinteger", "luaL_optnumber", "luaL_optlstring", "lua_callk", "luaL_tolstring", "luaL_len", "luaL_checkunsigned", "luaL_optunsigned",
         "lua_yieldk", "lua_arith"}
# these run metamethods or fail unless their operand is a plain table
TABLE = {"lua_gettable": 1, "lua_settable": 1, "lua_getfield": 1, "lua_setfield": 1, "lua_geti": 1, "lua_seti": 1, "lua_len": 1}


def run(P, R, tier):
    R.rule("object", "no automatic object with a destructor is live at a call that may raise a script error")
    R.rule("handler", "no script error is raised while an exception is being handled")
    R.rule("resource", "no file, library handle or heap block is held at a call that may raise a script error")
    fs = [f for f in P.fns.values() if f.blocks and "/utils/vvflow/" in f.file and any("lua_State" in p["t"] for p in f.params)]
    R.need(len(fs), 50, "functions that use the interpreter")
    nr = 0
    inline = lambda g, c: "/utils/vvflow/" in g.file and g.name not in ("run", "main")
    for f in fs:
        sg = SG(P, f, inline=inline, maxdepth=7, maythrow=lambda k: k in P.fns and bool(P.fns[k].blocks))
        pts = [e for e in sg.events if e.kind == "call" and e.inl is None and (e.q in RAISE or e.q in TABLE and not plain_table(e))]
        if not pts:
            continue
        nr += len(pts)
        at = {}
        for e in pts:
            at.setdefault(e.n, []).append(e)
        # objects with a destructor: from the statement that starts their life to the destructor element
        ends = {}
        for nd in sg.nodes:
            if nd.kind == "dtor" and nd.i in sg.live:
                ends.setdefault((nd.x[0], nd.ctx, nd.x[1]), set()).add(nd.i)
        for f2, decls, temps in [(x, *dtors(x)) for x in {c[2] for c in sg.ctxs}]:
            for c, (_, _, g) in enumerate(sg.ctxs):
                if g is not f2:
                    continue
                for kind, m in (("ad", decls), ("td", temps)):
                    for d, (nids, what) in m.items():
                        stop = ends.get((kind, c, d), set())
                        starts = [nd.i for nd in sg.nodes if nd.ctx == c and nd.i in sg.live and nd.nid in nids and nd.kind in ("el", "leave")]
                        if kind == "ad":
                            emptied, filled = resets(sg, ("loc", c, d))
                            stop = stop | emptied
                            starts += sorted(filled)
                        for s in starts:
                            seen = set()
                            ed = lambda a, b, l, c=c, o=sg.nodes[s].nid: l != ("eh",) or not unwound(sg, a, b, c, o)
                            for t, l in sg.nodes[s].succ:
                                if l != ("eh",):
                                    seen |= sg.reach([t], stop=stop, edges=ed)
                            hit = [e for n in seen - stop for e in at.get(n, ())]
                            R.count("objects with a destructor followed")
                            top = [e for e in hit]
                            R.check(not top, "object", top[0].where() if top else f2.where(), "%s %s %s" % (f.q, what, top[0].q if top else ""),
                                    "%s may be called through %s while %s of %s is alive (from %s)" % (top[0].q if top else "", sg.trace(top[0].n) if top else "", what, f2.q, sg.nodes[s].where()), "%s: %s ends before any error" % (f2.q, what))
        # parameters passed by value
        for c, (pc, cn, g) in enumerate(sg.ctxs):
            if c == 0:
                ps = [p for p in g.params if needs_dtor(P, p["t"])]
            else:
                ps = [p for p in g.params if needs_dtor(P, p["t"])]
            if not ps:
                continue
            inside = [e for e in pts if under_ctx(sg, e.ctx, c)]
            for p in ps:
                R.check(not inside, "object", inside[0].where() if inside else g.where(), "%s parameter %s" % (g.q, p["name"]),
                        "%s may raise while the parameter %s of %s is alive" % (inside[0].q if inside else "", p["name"], g.q), "%s: parameter %s" % (g.q, p["name"]))
        for e in pts:
            h = in_handler(sg, e)
            R.check(not h, "handler", e.where(), "%s %s" % (f.q, e.q), "%s raises a script error while an exception is being handled (%s)" % (e.q, sg.trace(e.n)), "%s: %s outside handlers" % (f.q, e.q))
        # resources
        for e in sg.events:
            if e.kind == "call" and e.inl is None and acq(e.q):
                kind, fail = acq(e.q)
                v = ("ret", e.n)
            elif e.kind == "new" and not placement(e) and not (e.args is not None):
                kind, fail, v = "new", 0, e.val
            else:
                continue
            R.count("resources followed")
            if owned_by(sg, v, e):
                R.ok("resource", "%s: owned by an object" % e.where())
                continue
            came = sg.follow(e.n, {v: 1}, stop=lambda n, env: released(sg, n, v, kind))
            hit = [x for n in came if n != e.n and not released(sg, n, v, kind) for x in at.get(n, ())]
            R.check(not hit, "resource", hit[0].where() if hit else e.where(), "%s %s" % (f.q, kind), "%s may raise while the %s opened at %s is held" % (hit[0].q if hit else "", kind, e.where()), "%s: %s released" % (f.q, kind))
    R.need(nr, 60, "points that may raise")


def plain_table(e):
    a = e.args[1]
    return a[0] == "c" and a[1] <= -1001000        # the registry


def under_ctx(sg, c, top):
    while c is not None:
        if c == top:
            return True
        c = sg.ctxs[c][0]
    return False


def needs_dtor(P, t, d=0):
    t = t.strip()
    if t.endswith(("*", "&")):
        return False
    b = base_type(t)
    r = P.records.get(b)
    if r is not None:
        if r.get("userDtor") or (b + "::~" + b.split("::")[-1]) in {q for q in P.by_q}:
            return True
        return d < 6 and any(needs_dtor(P, x["t"], d + 1) for x in r["fields"]) or d < 6 and any(needs_dtor(P, x["t"], d + 1) for x in r["bases"])
    return b.startswith("std::") and not b.startswith(("std::array<double", "std::pair<double", "std::complex", "std::size_t", "std::ptrdiff_t", "std::int", "std::uint", "std::nullptr_t"))


def dtors(f):
    """Automatic objects and temporaries whose end the CFG marks with a destructor call."""
    if "dtors30" in f._x:
        return f._x["dtors30"]
    ad, td = {}, {}
    for b in f.blocks.values():
        for e in b["e"]:
            if e[0] == "ad":
                ad.setdefault(e[1], None)
            elif e[0] == "td":
                td.setdefault(e[1], None)
    for i, n in enumerate(f.nodes):
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if v["d"] in ad:
                    ad[v["d"]] = ({i}, "the object %s" % v["d"].split(":")[1] if ":" in v["d"] else v["d"])
    for d in td:
        td[d] = ({d, f.strip(d, casts=False)}, "a temporary %s" % f.nodes[d]["t"])
    ad = {k: v for k, v in ad.items() if v}
    f._x["dtors30"] = (ad, td)
    return ad, td


def unwound(sg, a, b, octx, onid):
    """Taking the exception edge a -> b destroys the object made at onid in context octx."""
    na, nb = sg.nodes[a], sg.nodes[b]
    if nb.kind == "xexit":
        return under_ctx(sg, octx, nb.ctx)
    at = na.nid
    if na.ctx != nb.ctx:
        if under_ctx(sg, octx, na.ctx):
            return True
        at = sg.ctxs[na.ctx][1]
    # where the object's life starts, seen from the frame of the handler
    c, nid = octx, onid
    while c is not None and c != nb.ctx:
        c, nid = sg.ctxs[c][0], sg.ctxs[c][1]
    if c is None:
        return False
    t = SG.try_of(nb.fn, at)
    x = nid
    while x in nb.fn.parent:
        x = nb.fn.parent[x]
        if x == t:
            return True
    return False


def resets(sg, loc):
    """Where a smart pointer becomes empty (its destructor then does nothing), and where it is set again."""
    emptied, filled = set(), set()
    for e in sg.events:
        if e.kind == "write" and e.loc == loc and e.op == "=" and e.val is not None:
            (emptied if e.val in (("c", 0), ("c", "?")) and e.val == ("c", 0) else filled).add(e.n)
        elif e.kind == "call" and e.obj == loc and e.q.endswith("::release"):
            emptied.add(e.n)
        elif e.kind == "call" and e.q == "std::move" and e.args and e.args[0] == loc:
            pass
    return emptied, filled


def in_handler(sg, e):
    """The call stands in a catch handler, or is made by a function called from one."""
    c, nid = e.ctx, e.nid
    while c is not None:
        p, cn, f = sg.ctxs[c]
        x = nid
        while x in f.parent:
            x = f.parent[x]
            if f.nodes[x]["k"] == "CXXCatchStmt":
                return True
            if f.nodes[x]["k"] == "LambdaExpr":
                break
        c, nid = p, cn
    return False


def placement(e):
    nd = e.fn.nodes[e.nid]
    return bool(nd.get("pl"))


def released(sg, n, v, kind):
    for e in sg.ev_at.get(n, ()):
        if e.kind == "call" and rel_kind(e.q) and v in e.args:
            return True
        if e.kind == "delete" and e.val == v:
            return True
    return False


def owned_by(sg, v, e0):
    """Stored into something that outlives the call (an object that releases it)."""
    for e in sg.events:
        if e.kind == "write" and e.val == v and root(e.loc)[0] not in ("loc", "tmp"):
            return True
        if e.kind == "call" and e.q.startswith(("std::shared_ptr", "std::unique_ptr")) and v in e.args:
            return True
    return False
