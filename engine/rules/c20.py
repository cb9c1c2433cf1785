"""C20 queries and plotting never change the flow they look at."""
from vv.luaattr import *
from vv.sg import norm
from vv.prog import REPO

TECHNIQUE = "effect analysis: every write, destruction and opaque mutator reachable from a query, by the object it reaches; ownership of the flow held by a field (by value, with bodies copied one by one)"
NOTE = """Decides that no query function (const or named as a query), script getter or read method, snapshot writer or sensor output reaches a write to a quantity of the flow, that
the field classes only touch a private copy of the space whose bodies are copied too, and that the plotting and extraction tools leave what they loaded, and the file, unchanged.
The value caches of expressions, the transient particle velocity and core size are no stored quantities. The recorder of time series is not a query."""

FLOW = ("Space", "TBody", "TAtt", "TObj", "TEval", "TVec", "TVec3D", "TTime")
BIG = ("Space", "TBody", "TAtt", "TObj", "TEval", "TTime")
SCAN = BIG + ("TVec", "TVec3D", "MConvectiveFast", "MDiffusiveFast", "MEpsilonFast", "MFlowmove", "stree", "snode", "XField", "XIsoline", "XPressure", "XVorticity", "XStreamfunction",
              "XVelocity", "Matrix", "TMatrix")
EXEMPT = ("TEval::cache", "TObj::v", "TObj::_1_eps", "TBody::heat_layer")
import re
QUERY = re.compile(r"^(get_(?!param)\w+|gsum|gmax|integral|inf_speed|average_\w+|total_\w+|hydrodynamic_\w+|point_is_in_body|isPoint\w+|eval|size|velocity|speed|slip|heat_condition|boundary_condition|"
                   r"abs|abs2|absnosqrt|iszero|divisibleBy|toString|str|streamfunction|vorticity|pressure|findNode|min|max|percentile|at)$")
ACCESS = ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "front", "back", "at", "size", "empty", "operator[]", "operator*", "operator->", "get", "lock", "c_str", "operator bool", "length",
          "operator basic_string_view", "operator==", "operator!=", "find", "capacity", "use_count", "expired", "substr", "compare")
FIELDS = ("XVorticity", "XPressure", "XVelocity", "XStreamfunction")
READERS = re.compile(r"^(save|XStreamfunction|totable|tostring|abs|abs2|eval|get_\w+)$")
META = ("__len", "__index", "__tostring", "__ipairs", "__pairs", "__eq", "__lt", "__le", "__concat", "__unm", "__add", "__sub", "__mul", "__div")
UNWRAP = ("luaL_checkudata", "luaL_testudata", "lua_touserdata", "lua_topointer")


def run(P, R, tier):
    R.rule("query", "a query, getter, snapshot writer or sensor output reaches no write to a quantity of the flow")
    R.rule("private", "a field works on its own copy of the space and hands only that copy on")
    R.rule("deep", "copying a space copies its bodies, so that the copy shares nothing that either changes")
    R.rule("tool", "a plotting or extraction tool leaves the flow it loaded unchanged")
    R.rule("file", "a plotting or extraction tool opens the snapshot for reading only and writes nothing to it")
    deep(P, R)
    byvalue = private(P, R)
    roots = native(P, byvalue) + script(P, R)
    R.need(len(roots), 70, "query roots")
    for fs in forkmap(lambda f: query(P, f), [r[0] for r in roots]):
        q, nev, bad, asm = fs
        R.count("events of query roots", nev)
        for a in asm:
            R.assume(a)
        if not bad:
            R.ok("query", "%s: %d events" % (q, nev))
        for w, key, msg in bad:
            R.bad("query", w, key, msg)
    tools(P, R)


def strip_t(t):
    return re.sub(r"\b(const|class|struct)\b", "", t).replace("&", "").replace("*", "").strip()


def native(P, byvalue):
    out = {}
    for f in P.fns.values():
        if not f.blocks or not f.file.startswith(REPO):
            continue
        cls = (f.cls or "").split("::")[0]
        nm = f.q.split("::")[-1]
        if cls in SCAN and (f.const or QUERY.match(nm) or cls == "XStreamfunction" and f.static):
            out[f.key] = f
        elif cls in BIG and nm.startswith("operator ") and not f.const:
            out[f.key] = f
        elif f.q in ("Space::save", "sensors::output"):
            out[f.key] = f
        elif cls in FIELDS and nm == cls and f.params:
            out[f.key] = f
        elif cls in FIELDS and nm == "evaluate" and cls not in byvalue:
            out[f.key] = f
    return [(f, "native") for f in out.values()]


def script(P, R):
    out = {}
    lib, _ = libs(P)
    for tag, m in lib.items():
        for name, k in m.items():
            if name in META and isinstance(k, str) and k in P.fns:
                out[k] = P.fns[k]
    R.need(len(out), 15, "script metamethods that read")
    n = 0
    for g in P.globals:
        try:
            r = rows(P, g)
        except Exception:
            continue
        for row in r or []:
            fns = [x[1] for x in row[1:] if isinstance(x, tuple) and x and x[0] == "fn"]
            if not fns or fns[0] not in P.fns or not any("lua_State" in p["t"] for p in P.fns[fns[0]].params):
                continue
            if row[0][1].startswith("__"):
                continue
            if len(row) > 2 or READERS.match(row[0][1]):
                out[fns[0]] = P.fns[fns[0]]
                n += 1
    R.need(n, 40, "script attributes and read methods")
    # functions handed to the interpreter by these (iteration steps)
    todo = list(out.values())
    while todo:
        f = todo.pop()
        for nid, nd in f.nodes.items() if isinstance(f.nodes, dict) else enumerate(f.nodes):
            if not nd or nd.get("k") != "DeclRefExpr":
                continue
            d = f.decls.get(nd.get("d")) if nd.get("d") else None
            k = d.get("key") if d and d.get("k") == "fn" else None
            g = P.fns.get(k) if k else None
            if g is not None and g.key not in out and g.params and len(g.params) == 1 and "lua_State" in g.params[0]["t"] and g.blocks and g.q.split("::")[-1].endswith(("next", "iter")):
                out[g.key] = g
                todo.append(g)
    return [(f, "script") for f in out.values() if f.blocks]


def inl(g, c):
    return g.file.startswith(REPO)


def foreign(sg, l):
    """Whether a location lies outside what the function itself created."""
    x, hit = l, False
    while x[0] in ("fld", "el", "ld", "it"):
        if x[0] == "ld":
            hit = True
        x = x[1]
    k = x[0]
    if k == "arg":
        return True
    if k == "g":
        return True
    if k in ("ret", "phi", "out"):
        if k == "phi":
            y = x[2]
            return foreign(sg, y) if isinstance(y, tuple) and is_term_loc(y) else hit
        return True
    if k == "new":
        return False
    return hit


def flowy(sg, l):
    """The quantity of the flow a location is part of, or None."""
    ch = chain(l) or ()
    for c in reversed(ch):
        if isinstance(c, str) and "::" in c:
            if c.startswith(EXEMPT):
                return None
            if c.split("::")[0] in BIG:
                return c
    x = l
    while True:
        t = loc_type(sg, x)
        if x[0] == "arg":
            p = next((p for p in sg.rootfn.params if p["name"] == x[1]), None)
            t = p["t"] if p else sg.rootfn.cls if x[1] == "this" else None
        if t and re.search(r"\b(Space|TBody|TAtt|TObj|TEval|TTime)\b", t):
            return strip_t(t)
        if t and re.search(r"\b(TVec|TVec3D)\b", t) and x[0] in ("arg",):
            return strip_t(t)
        if x[0] == "ret":
            e = ev1(sg, x[1])
            if e is not None and e.q in UNWRAP:
                return "object of the script"
            d = sg.nodes[x[1]]
            return None
        if x[0] == "phi" and isinstance(x[2], tuple):
            x = x[2]
            continue
        if x[0] not in ("fld", "el", "ld", "it"):
            return None
        x = x[1]


def ev1(sg, n):
    r = sg.ev_at.get(n) if isinstance(sg.ev_at, dict) else None
    if r is None:
        return None
    if isinstance(r, (list, tuple)):
        return next((e for e in r if e.kind == "call"), None)
    return r if not isinstance(r, int) else sg.events[r]


def decl_of(sg, e):
    nd = sg.nodes[e.n]
    for nid, n, d in nd.fn.calls():
        if nid == nd.nid:
            return d
    return None


def effects(sg, keep=None):
    """(event, what, message) for everything a function does to the flow outside its own objects."""
    for e in sg.events:
        if keep is not None and not keep(e):
            continue
        if e.kind in ("write", "delete"):
            l = e.loc if e.kind == "write" else e.val
            if not isinstance(l, tuple) or not foreign(sg, l):
                continue
            w = flowy(sg, l)
            if w is not None:
                yield e, w, "%s %s" % ("writes" if e.kind == "write" else "destroys", show(norm(l)))
        elif e.kind == "call" and e.inl is None and e.q:
            nm = e.q.split("::")[-1]
            if e.q.startswith("lua") or nm in ("swap",) and False:
                continue
            d = decl_of(sg, e) or {}
            if e.obj is not None and isinstance(e.obj, tuple) and is_term_loc(e.obj) and not d.get("const") and nm not in ACCESS and not d.get("static"):
                if foreign(sg, e.obj) and not (nm == "operator=" and e.obj[0] == "loc"):
                    w = flowy(sg, e.obj)
                    if w is not None and not (e.q.split("::")[0] in SCAN and nm == e.q.split("::")[-2] if "::" in e.q else False):
                        yield e, w, "calls %s on %s" % (e.q, show(norm(e.obj)))
            ps = d.get("params") or []
            for k, a in enumerate(e.args or ()):
                if not isinstance(a, tuple) or k >= len(ps):
                    continue
                p = ps[k]
                t = p["t"] if isinstance(p, dict) else p
                it = a[0] == "it" and nm in MUTALG
                cn = t.lstrip().startswith("const ") or "const_iterator" in t
                ptr = ("*" in t or "&" in t or isinstance(p, dict) and p.get("ref")) and not cn and "&&" not in t
                if not (ptr or it) or not is_term_loc(a) and not it:
                    continue
                if e.q.startswith(("std::", "__gnu_cxx::")) and nm not in MUTALG:
                    continue
                if foreign(sg, a):
                    w = flowy(sg, a)
                    if w is not None and pointee_flow(sg, a):
                        yield e, w, "hands %s to %s, which may change it" % (show(norm(a)), e.q)


MUTALG = ("sort", "stable_sort", "remove_if", "remove", "swap", "iter_swap", "swap_ranges", "reverse", "rotate", "partition", "stable_partition", "shuffle", "random_shuffle", "unique",
          "transform", "fill", "fill_n", "generate", "replace", "replace_if", "nth_element", "partial_sort", "move", "copy", "copy_backward", "memcpy", "memset", "memmove")


def pointee_flow(sg, a):
    return True


def query(P, f):
    bad, asm = [], []
    sg = SG(P, f, inline=inl, maxdepth=12, maythrow=lambda k: False, assume=lambda t: None)
    for e, w, m in effects(sg, mine(f)):
        bad.append((e.where(), "%s %s" % (f.q, w), "%s, which only looks at the flow, %s" % (f.q, m)))
    return f.q, len(sg.events), bad, asm


def mine(f):
    if f.q.split("::")[0] not in FIELDS or f.q.split("::")[-1] not in FIELDS:
        return None
    return lambda e: not own(e)


def own(e):
    """A write to the object under construction itself."""
    l = e.loc if e.kind == "write" else e.obj if e.kind == "call" else None
    if l is None:
        return False
    x, hit = l, False
    while x[0] in ("fld", "el", "ld", "it"):
        hit |= x[0] == "ld"
        x = x[1]
    return x == ("arg", "this") and not hit


def private(P, R):
    """Field classes: the space is held by value and only its address is handed on."""
    byvalue = set()
    for c in FIELDS:
        r = P.records.get(c)
        if r is None:
            continue
        sp_ = [f for f in r["fields"] if re.search(r"\bSpace\b", f["t"])]
        where = "%s:%s" % (r.get("file", c), sp_[0]["line"] if sp_ else 0)
        val = bool(sp_) and all("*" not in f["t"] and "&" not in f["t"] and "ptr" not in f["t"] for f in sp_)
        if val:
            byvalue.add(c)
            R.ok("private", "%s holds its space by value" % c)
        for f in P.fns.values():
            if f.cls != c or not f.blocks:
                continue
            sg = SG(P, f, inline=lambda g, cc, c=c: g.cls == c, maxdepth=4, maythrow=lambda k: False, assume=lambda t: None)
            for e in sg.events:
                if e.kind != "call" or e.inl is not None or not e.args:
                    continue
                d = decl_of(sg, e) or {}
                for p, a in zip(d.get("params") or [], e.args):
                    t = p["t"] if isinstance(p, dict) else p
                    if not re.search(r"\b(Space|TBody)\b", t) or not ("*" in t or "&" in t or isinstance(p, dict) and p.get("ref")) or t.lstrip().startswith("const "):
                        continue
                    if not isinstance(a, tuple) or not is_term_loc(a):
                        continue
                    ok = root(a) == ("arg", "this") and any(ch.startswith(c + "::") and any(x["name"] == ch.split("::")[1] for x in sp_) for ch in (chain(a) or ()) if isinstance(ch, str)) and val
                    ok = ok or root(a)[0] == "loc" and not foreign(sg, a)
                    R.check(ok, "private", e.where(), "%s %s" % (f.q, e.q), "%s hands %s to %s, not its own copy of the space" % (f.q, show(norm(a)), e.q),
                            "%s: %s works on the private copy" % (f.q, e.q))
    R.need(len(byvalue) + len([c for c in FIELDS if c in P.records and c not in byvalue]), 4, "field classes")
    return byvalue


def deep(P, R):
    cc = [f for f in P.by_q.get("Space::Space", []) if f.blocks and len(f.params) == 1 and "Space" in f.params[0]["t"] and not f.params[0]["t"].endswith("&&")]
    if not cc:
        R.bad("deep", "libvvhd/headers/TSpace.hpp:1", "Space", "the copy of a space is not written out: it shares its bodies with the original")
        return
    f = cc[0]
    src = ("arg", f.params[0]["name"])
    sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO) and g.cls not in ("TBody", "TEval", "TVec", "TTime") and g.q != "Space::get_body_index", maxdepth=5, maythrow=lambda k: False,
            assume=lambda t: None)
    n = 0
    def from_src(t):
        return isinstance(t, tuple) and any(x == src or x[:1] == ("ld",) and x[1:] == (src,) for x in subterms(t)) and not any(x[0] == "new" for x in subterms(t) if isinstance(x, tuple) and x)
    for e in sg.events:
        vals = []
        if e.kind == "write" and isinstance(e.loc, tuple) and root(e.loc) == ("arg", "this") and "Space::BodyList" in (chain(e.loc) or ()) and not any(c.startswith("TBody::") for c in chain(e.loc) if isinstance(c, str)):
            vals = [e.val]
        elif e.kind == "call" and e.inl is None and e.obj is not None and root(e.obj) == ("arg", "this") and (chain(e.obj) or ())[-1:] == ("Space::BodyList",) and e.q.split("::")[-1] in (
                "push_back", "emplace_back", "insert", "assign", "operator=", "swap", "emplace"):
            vals = list(e.args or ())
        for v in vals:
            if not isinstance(v, tuple):
                continue
            if v[0] == "loc":
                v = prestate(sg, e.n).get(v) or v
            vs = [y for x in (sg.expand(v) if v[0] == "phi" else [v]) for y in alts(x)]
            shared = any(from_src(x) for x in vs)
            new = any(x[0] == "new" for x in vs)
            if shared:
                R.bad("deep", e.where(), "BodyList", "the copy of a space shares its bodies with the original: it takes over %s" % show(norm(v)))
            elif new:
                n += 1
                R.ok("deep", "bodies of the copy are new (%s)" % e.where())
    tb = [e for e in sg.events if e.kind == "call" and e.q == "TBody::operator="]
    for e in tb:
        n += 1
    R.need(n, 1, "bodies made by the copy of a space")


def alts(t):
    if t[0] == "ite":
        return alts(t[2]) + alts(t[3])
    return [t]


def tools(P, R):
    mains = []
    for f in P.fns.values():
        if not f.blocks or not ("/utils/vvplot/" in f.file or "/utils/vvxtract/" in f.file):
            continue
        if any((d or {}).get("q") in ("Space::load", "Space::load_hdf") for _, _, d in f.calls()):
            mains.append(f)
    R.need(len(mains), 2, "tools that load a flow")
    loadish = ("Space::load", "Space::load_hdf", "Space::load_v13")
    def inl2(g, c):
        return g.file.startswith(REPO) and g.q not in loadish and g.cls not in FIELDS and g.cls != "TEval"
    for f in mains:
        sg = SG(P, f, inline=inl2, maxdepth=8, maythrow=lambda k: False, assume=lambda t: None)
        loads = [e for e in sg.events if e.kind == "call" and e.q in loadish and e.obj is not None]
        n = 0
        for ld in loads:
            o = ld.obj
            after = sg.reach([ld.n])
            for e in sg.events:
                if e.n not in after or e.n == ld.n:
                    continue
                bad = None
                def on(l):
                    if not isinstance(l, tuple):
                        return False
                    x = l
                    while True:
                        if x == o:
                            return True
                        if x[0] not in ("fld", "el", "ld", "it"):
                            if x[0] == "phi" and isinstance(x[2], tuple):
                                x = x[2]
                                continue
                            return False
                        x = x[1]
                n += 1
                if e.kind in ("write", "delete"):
                    l = e.loc if e.kind == "write" else e.val
                    if on(l) and not any(c.startswith(EXEMPT) for c in chain(l) or () if isinstance(c, str)) and l != o:
                        bad = "writes %s" % show(norm(l))
                elif e.kind == "call" and e.inl is None and e.q not in loadish:
                    nm = e.q.split("::")[-1]
                    d = decl_of(sg, e) or {}
                    if on(e.obj) and not d.get("const") and nm not in ACCESS and not nm.startswith("~"):
                        bad = "calls %s on %s" % (e.q, show(norm(e.obj)))
                    for p, a in zip(d.get("params") or [], e.args or ()):
                        t = p["t"] if isinstance(p, dict) else p
                        if on(a) and ("*" in t or "&" in t or isinstance(p, dict) and p.get("ref") or nm in MUTALG) and not t.lstrip().startswith("const ") and "&&" not in t and not (e.q.startswith(("std::", "__gnu_cxx::")) and nm not in MUTALG):
                            if e.q.split("::")[0] in ("stree", "MConvectiveFast", "MEpsilonFast", "MDiffusiveFast", "MFlowmove") and "::" in e.q and nm == e.q.split("::")[-2]:
                                continue
                            bad = "hands %s to %s, which may change it" % (show(norm(a)), e.q)
                if bad:
                    R.bad("tool", e.where(), "%s %s" % (f.q, bad.split(" ")[-1]), "%s changes the flow it shows: it %s" % (f.q, bad))
        R.need(n, 20, "events after loading in %s (%s)" % (f.q, f.file.split("/")[-1]))
        R.ok("tool", "%s: %d events after loading" % (f.q, n))
    # the snapshot file itself
    k = 0
    for f in P.fns.values():
        if not f.blocks or not ("/utils/vvplot/" in f.file or "/utils/vvxtract/" in f.file or f.q in loadish):
            continue
        for nid, nd, d in f.calls():
            q = (d or {}).get("q") or ""
            if re.match(r"H5(Fcreate|[ADGLO](create|write|delete|unlink|link|move|copy|set)\w*)", q):
                R.bad("file", f.where(nid), "%s %s" % (f.q, q), "%s, part of a tool that only reads snapshots, calls %s" % (f.q, q))
        if any((d or {}).get("q") == "H5Fopen" for _, _, d in f.calls()):
            sg = SG(P, f, inline=lambda g, c: False, maxdepth=1, maythrow=lambda k: False)
            for e in sg.events:
                if e.kind == "call" and e.q == "H5Fopen":
                    k += 1
                    R.check(isinstance(e.args[1], tuple) and rdonly(e.args[1]), "file", e.where(), f.q, "%s opens the snapshot for writing (%s)" % (f.q, show(e.args[1])), "%s opens read-only" % f.q)
    R.need(k, 2, "snapshots opened for reading")


def rdonly(t):
    """H5F_ACC_RDONLY is (H5check(), 0)."""
    v = decide(t, lambda x: None)
    return v == 0 or t == ("c", 0) or t[0] == "c" and not int(t[1])
