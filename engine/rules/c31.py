"""C31 script objects are used only as the native type they wrap."""
from vv.luaattr import *

TECHNIQUE = "type-tag consistency over path-sensitive value flow: native type stored under each tag vs native type received, per site"
NOTE = """Decides, for every site that publishes a native pointer under a type tag and every site that receives one, that tag and native type agree, that every tag has its
access table installed before a script can run, and that owned objects are destroyed by their own collector. Lifetime of the pointees is not part of this property."""

CAST = {"CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXFunctionalCastExpr"}


def norm_t(t):
    t = t.replace("const ", "").replace("struct ", "").replace("class ", "").replace("std::__cxx11::", "std::")
    t = re.sub(r"\s+", "", t)
    return re.sub(r",std::allocator<(?:[^<>]|<[^<>]*>)*>", "", t)


import re


def cast_type(fn, nid):
    """The pointer type an expression of type void* is turned into, where it stands."""
    x = nid
    while x in fn.parent:
        x = fn.parent[x]
        n = fn.nodes[x]
        if n["k"] in CAST and n.get("t", "").strip() not in ("void *", "const void *"):
            return norm_t(n["t"])
        if n["k"] in fn.TRANSPARENT or n["k"] in CAST or n["k"] == "ImplicitCastExpr":
            continue
        return None
    return None


def run(P, R, tier):
    R.rule("publish", "an object published under a tag holds a pointer (or shared pointer) of that tag's one native type")
    R.rule("receive", "an object received under a tag is used as that tag's native type")
    R.rule("raw", "data of an object is never taken without checking its tag, except the member pointer an access function hands to its accessor")
    R.rule("member", "an accessor uses its member pointer as the native type of the member")
    R.rule("registered", "every tag's access table is installed before a script can run")
    R.rule("tag", "every published object gets its tag before it is handed to the script")
    R.rule("owner", "an object that owns a native object is destroyed by its collector, and only such an object is")
    pub, rec = {}, {}
    cfs = [f for f in P.fns.values() if f.blocks and "/utils/vvflow/" in f.file and f.params and any("lua_State" in p["t"] for p in f.params)]
    R.need(len(cfs), 50, "functions that use the interpreter")
    accessors, members = set(), {}
    lib, order = libs(P)
    sgc = {}
    for tag, (cls, attrs) in DOC.items():
        for meta, nargs, col in (("__newindex", 3, "set"), ("__index", 2, "get")):
            fk = lib.get(tag, {}).get(meta)
            f = P.fns.get(fk) if isinstance(fk, str) else None
            if f is None or not f.blocks:
                continue
            for name, (kind, path) in attrs.items():
                sg, rs = access(P, f, name, nargs, sgc)
                for r in rs:
                    d = dispatch(P, sg, r, name)
                    if d is None or d[1][0] != "fn" or not d[2] or d[2][0][0] != "light":
                        continue
                    accessors.add(d[1][1])
                    obj, (c, p) = split_ptr(d[2][0][1])
                    members.setdefault(d[1][1], set()).add((tag, name, c or cls, p))
    small = lambda g, c: "/utils/vvflow/" in g.file and g.q != "run" and not g.q.startswith(("main", "simulate"))
    owned = {}
    for f in cfs:
        if f.q in ("main",):
            continue
        sg = SG(P, f, inline=small, maxdepth=5)
        args = {}
        for e in sg.events:
            if e.kind != "call" or e.inl is not None:
                continue
            if e.q in ("luaL_checkudata", "luaL_testudata"):
                nd = sg.nodes[e.n]
                t = cast_type(nd.fn, nd.nid)
                if e.args[2][0] != "s" or t is None:
                    R.assume("tag or type of the object received at %s is not resolved" % e.where())
                    continue
                rec.setdefault(e.args[2][1], {}).setdefault(t, set()).add((e.where(), nd.fn.q))
            elif e.q == "lua_touserdata":
                nd = sg.nodes[e.n]
                if nd.fn.key in accessors or any(fn.key in accessors for _, _, fn in [sg.ctxs[nd.ctx]]):
                    t = cast_type(nd.fn, nd.nid)
                    if f.key == nd.fn.key:
                        R.check(e.args[1] == ("c", 1), "raw", e.where(), f.q, "%s takes the data of argument %s unchecked" % (f.q, show(e.args[1])))
                    if t and f.key in members:
                        for tag, name, cls, p in members[f.key]:
                            mt = member_type(P, cls, p)
                            if mt is None:
                                continue
                            R.check(norm_t(mt) + "*" == t, "member", e.where(), "%s %s.%s" % (f.q, tag, name), "%s uses %s.%s, a %s, as %s" % (f.q, tag, name, mt, t),
                                    "%s: %s.%s is a %s" % (f.q, tag, name, mt))
                elif f.key == nd.fn.key and not is_setter_like(P, f):
                    R.bad("raw", e.where(), f.q, "%s takes the data of a script object without checking its tag" % f.q)
        # publishing
        if any(e.kind == "call" and e.q in ("lua_newuserdata", "lua_newuserdatauv") and e.inl is None and sg.nodes[e.n].fn.key == f.key for e in sg.events):
            for pth in paths(sg):
                r = sim(pth, None, sg)
                r.sg = sg
                for op, e, i in r.ops:
                    if op not in ("lua_newuserdata", "lua_newuserdatauv"):
                        continue
                    nd = sg.nodes[e.n]
                    if nd.fn.key != f.key:
                        continue
                    t = cast_type(nd.fn, nd.nid)
                    m = r.meta.get(("ud", e.n))
                    if r.end[0] == "raise":
                        continue
                    if not R.check(m is not None and m[0] == "meta", "tag", e.where(), f.q, "%s hands out an object without a tag" % f.q, "%s tags what it publishes" % f.q):
                        continue
                    pub.setdefault(m[1], {}).setdefault(t, set()).add((e.where(), f.q))
                    own = any(e2.kind == "new" and e2.e.args is not None and ("ret", e.n) in [x for a in (e2.e.args or []) for x in subterms(a)] or False for _, e2, _ in r.ops if e2.kind == "new") or t and t.startswith("std::shared_ptr")
                    if own:
                        owned.setdefault(m[1], set()).add(t)
                    # what is stored
                    for op2, e2, i2 in r.ops:
                        if op2 == "write" and i2["loc"] == ("L", "new", ("ud", e.n)) and i2["val"][0] == "arg" and t:
                            pt = next((p["t"] for p in f.params if p["name"] == i2["val"][1]), None)
                            if pt is not None and "*" in pt:
                                R.check(norm_t(pt) + "*" == t, "publish", e2.where(), f.q, "%s stores a %s in an object used as %s" % (f.q, pt, t))
    for tag in sorted(set(pub) | set(rec)):
        pts = {t for t in pub.get(tag, {}) if t}
        R.check(bool(pub.get(tag)), "receive", next(iter(next(iter(rec.get(tag, {"": [("utils/vvflow", "")]}).values()))))[0], tag, "objects tagged %s are received but never published" % tag)
        if len(pts) > 1:
            for t, sites in pub[tag].items():
                for w, q in sorted(sites):
                    R.bad("publish", w, "%s %s" % (tag, q), "tag %s is published as %s" % (tag, " and ".join(sorted(pts))))
            continue
        for t, sites in pub.get(tag, {}).items():
            for w, q in sorted(sites):
                R.ok("publish", "%s: %s at %s" % (tag, t, w))
        for t, sites in rec.get(tag, {}).items():
            for w, q in sorted(sites):
                R.check(not pts or t in pts, "receive", w, "%s %s" % (tag, q), "%s receives %s objects, which hold a %s, as %s" % (q, tag, "/".join(sorted(pts)), t), "%s: %s at %s" % (tag, t, w))
    R.need(len(pub), 7, "published tags")
    R.need(len(rec), 7, "received tags")
    # registration
    mains = [f for f in P.fns.values() if f.q == "main" and f.blocks and f.file.endswith("utils/vvflow/vvflow.cpp")]
    R.need(len(mains), 1, "main functions of the command")
    for f in mains:
        sg = SG(P, f, inline=lambda g, c: "/utils/vvflow/" in g.file and g.q not in ("simulate", "run"), maxdepth=5)
        runs_ = [e for e in sg.events if e.kind == "call" and (e.q.startswith("luaL_load") or e.q in ("lua_pcallk", "lua_callk")) and e.inl is None and sg.nodes[e.n].fn.key == f.key]
        made = {}
        for e in sg.events:
            if e.kind == "call" and e.q == "luaL_newmetatable" and e.args[1][0] == "s":
                made.setdefault(e.args[1][1], []).append(e)
        for tag in sorted(pub):
            ok = False
            for e in made.get(tag, ()):
                seen = sg.reach([sg.entry.i], stop={e.n})
                if not any(x.n in seen for x in runs_) and runs_:
                    ok = True
            R.check(ok, "registered", f.where(), tag, "objects tagged %s are published but the tag is not set up before scripts run" % tag, "%s is set up first" % tag)
            mt = lib.get(tag, {})
            R.check("__index" in mt or tag not in TAGS_WITH_INDEX, "registered", f.where(), tag + " __index", "objects tagged %s have no access table" % tag)
    # collectors
    for tag, mt in sorted(lib.items()):
        gc = P.fns.get(mt.get("__gc") or "") if isinstance(mt.get("__gc"), str) else None
        if tag in owned:
            if not R.check(gc is not None, "owner", "utils/vvflow", tag, "objects tagged %s own a native object but have no collector" % tag):
                continue
            sg = SG(P, gc, inline=small, maxdepth=4)
            d = [e for e in sg.events if e.kind == "call" and ("~" in e.q) or e.kind == "dtor"]
            t = next(iter(owned[tag]))
            R.check(any("~" in (e.q or "") and e.q.startswith("std::") == t.startswith("std::") for e in d if e.kind == "call"), "owner", gc.where(), tag,
                    "the collector of %s does not destroy the object it owns" % tag, "%s: destroyed by %s" % (tag, gc.q))
        elif gc is not None:
            sg = SG(P, gc, inline=small, maxdepth=4)
            R.check(not any(e.kind == "delete" or e.kind == "call" and "~" in e.q and e.obj is not None and root(e.obj)[0] in ("ret", "ld") for e in sg.events), "owner", gc.where(), tag,
                    "the collector of %s destroys an object it does not own" % tag)


TAGS_WITH_INDEX = set(DOC) | {"TEval", "ObjList", "BodyList"}


def is_setter_like(P, f):
    """A function only used through an accessor table (its first argument is a member pointer)."""
    return f.q.startswith("luavvd_set") or f.q.startswith("luavvd_get")


def member_type(P, cls, path):
    t = cls
    for p in [x for x in (path or "").split(".") if x]:
        r = P.records.get(t)
        if r is None:
            return None
        t = next((x["t"] for x in r["fields"] if x["name"] == p), None)
        if t is None:
            return None
    return t
