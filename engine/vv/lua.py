"""The script interpreter's stack along a path: what every stack slot holds at
every call of the interpreter's interface.

Slot values
  ('arg', i)            argument i of the C function (1-based)
  ('num'|'int'|'bool'|'str'|'light', term)   pushed native values
  ('nil',) ('fn', term, upvalues)
  ('ud', n) ('tab', n)  user data / table created by call n
  ('geti', v, k) ('get', v, k)  element of a table
  ('meta', tag) ('res', n, i) ('fstr', n) ('top',)
Values read back from the stack are the terms
  ('L', what, slot)     what: num int str bool ud isnum isint type len check:TAG test:TAG cnum cint cstr
"""
from .paths import paths, _resolve
from .sg import SG, decide, show, is_term_loc, subterms, root
from .prog import AnalysisError

LUA_NIL = 0


class LuaError(Exception):
    pass


class Run:
    """A path with its interpreter operations: ops is a list of (op, event, {...})."""
    def __init__(self, path):
        self.path = path
        self.end = path.end
        self.ops = []
        self.stack = []
        self.bind = {}
        self.meta = {}      # user data -> metatable tag
        self.bad = []

    def content(self, loc, n):
        """What a local object holds at node n of the run."""
        st = self.sg.outs[n]
        v = self.path.over.get(loc)
        if v is None:
            v = st.get(loc)
        if v is None:
            return None
        return self.val(self.path.resolve(v, st))

    def val(self, t, d=0):
        """Resolves results of interpreter calls in a term."""
        if d > 60 or not isinstance(t, tuple) or not t:
            return t
        v = self.bind.get(t)
        if v is not None:
            return v
        if t[0] in ("c", "s", "fn", "loc", "tmp", "g", "arg", "undef", "zero"):
            return t
        return tuple(self.val(x, d + 1) if isinstance(x, tuple) else x for x in t)


def sim(path, nargs, sg):
    r = Run(path)
    st = [("arg", i + 1) for i in range(nargs)] if nargs is not None else []
    base = nargs
    pend = None
    for e in path.evs:
        if e.kind == "br":
            if pend is not None and e.label is not None and e.label[0] == "br":
                n, push, cls = pend
                t = [decide(e.e.val, lambda x, k=k: k if x == ("ret", n) else None) for k in (0, 1)]
                if None not in t and bool(t[0]) != bool(t[1]):
                    got = bool(t[1]) == e.label[1]
                    if got:
                        st = st + push
                    pend = None
            r.ops.append(("br", e, {"val": r.val(e.val), "label": e.label}))
            continue
        if e.kind == "write":
            r.ops.append(("write", e, {"loc": r.val(e.loc), "val": r.val(e.val)}))
            continue
        if e.kind in ("ret",):
            r.ops.append(("ret", e, {"val": r.val(e.val) if e.val else None, "stack": list(st), "ctx": e.e.ctx}))
            continue
        if e.kind == "eh":
            r.ops.append(("eh", e, {}))
            continue
        if e.kind in ("new", "delete", "throw", "dtor"):
            r.ops.append((e.kind, e, {}))
            continue
        if e.kind != "call":
            continue
        q = e.q
        a = [r.val(x) for x in e.args]
        if not (q.startswith("lua_") or q.startswith("luaL_")) or e.inl is not None:
            r.ops.append(("call", e, {"q": q, "args": a, "obj": r.val(e.obj) if e.obj is not None else None}))
            continue
        me = ("ret", e.n)

        def idx(t):
            if t[0] != "c":
                if t[0] == "phi" or True:
                    return ("argv", t)
            i = t[1]
            if i <= -1001000:
                return ("registry",)
            if i > 0:
                if nargs is not None and i <= len(st):
                    return st[i - 1]
                if nargs is None:
                    return ("arg", i)
                r.bad.append((e, "stack index %d beyond the top" % i))
                return ("top",)
            if i < 0 and -i <= len(st):
                return st[i]
            return ("top",)

        def pop(n):
            for _ in range(n):
                if st:
                    st.pop()
                else:
                    r.bad.append((e, "pops more than the stack holds"))

        info = {}
        name = q
        if q == "lua_pushnil":
            st.append(("nil",))
        elif q == "lua_pushnumber":
            st.append(("num", a[1]))
        elif q == "lua_pushinteger" or q == "lua_pushunsigned":
            st.append(("int", a[1]))
        elif q in ("lua_pushstring", "lua_pushlstring"):
            st.append(("str", a[1]))
            r.bind[me] = a[1]
        elif q in ("lua_pushfstring", "lua_pushvfstring"):
            st.append(("fstr", e.n))
        elif q == "lua_pushboolean":
            st.append(("bool", a[1]))
        elif q == "lua_pushlightuserdata":
            st.append(("light", a[1]))
        elif q == "lua_pushcclosure":
            n = a[2][1] if a[2][0] == "c" else 0
            up = tuple(st[len(st) - n:]) if n else ()
            pop(n)
            st.append(("fn", a[1], up))
        elif q == "lua_pushvalue":
            st.append(idx(a[1]))
        elif q in ("lua_newuserdata", "lua_newuserdatauv"):
            st.append(("ud", e.n))
            r.bind[me] = ("L", "new", ("ud", e.n))
            info["size"] = a[1]
        elif q in ("lua_createtable",):
            st.append(("tab", e.n))
        elif q == "luaL_newmetatable":
            st.append(("meta", a[1][1] if a[1][0] == "s" else "?"))
        elif q == "lua_getfield":
            b = idx(a[1])
            st.append(("meta", a[2][1] if a[2][0] == "s" else "?") if b == ("registry",) else ("get", b, a[2]))
            r.bind[me] = ("L", "type", st[-1])
        elif q == "lua_getglobal":
            st.append(("glob", a[1]))
            r.bind[me] = ("L", "type", st[-1])
        elif q in ("lua_gettable", "lua_rawget"):
            b = idx(a[1])
            k = st.pop() if st else ("top",)
            st.append(("get", b, k))
            r.bind[me] = ("L", "type", st[-1])
        elif q == "lua_rawgeti" or q == "lua_geti":
            st.append(("geti", idx(a[1]), a[2]))
            r.bind[me] = ("L", "type", st[-1])
        elif q == "lua_next":
            b = idx(a[1])
            pop(1)
            pend = (e.n, [("key", b), ("value", b)], None)
        elif q in ("luaL_getmetafield",):
            pend = (e.n, [("get", ("meta?", idx(a[1])), a[2])], None)
        elif q == "lua_getmetatable":
            pend = (e.n, [("meta?", idx(a[1]))], None)
        elif q == "lua_setfield":
            info.update(tab=idx(a[1]), key=a[2], value=st[-1] if st else None)
            pop(1)
        elif q in ("lua_rawseti", "lua_seti"):
            info.update(tab=idx(a[1]), key=a[2], value=st[-1] if st else None)
            pop(1)
        elif q in ("lua_settable", "lua_rawset"):
            info.update(tab=idx(a[1]), key=st[-2] if len(st) > 1 else None, value=st[-1] if st else None)
            pop(2)
        elif q == "lua_setglobal":
            info.update(name=a[1], value=st[-1] if st else None)
            pop(1)
        elif q == "lua_setmetatable":
            tgt = idx(a[1])
            m = st[-1] if st else ("top",)
            info.update(target=tgt, meta=m)
            r.meta[tgt] = m
            pop(1)
        elif q == "luaL_setmetatable":
            tgt = st[-1] if st else ("top",)
            m = ("meta", a[1][1] if a[1][0] == "s" else "?")
            info.update(target=tgt, meta=m)
            r.meta[tgt] = m
        elif q == "lua_settop":
            if a[1][0] == "c":
                i = a[1][1]
                if i < 0:
                    pop(-i - 1)
                elif nargs is not None:
                    del st[i:]
                    while len(st) < i:
                        st.append(("nil",))
        elif q in ("lua_callk", "lua_pcallk"):
            n = a[1][1] if a[1][0] == "c" else 0
            k = a[2][1] if a[2][0] == "c" else 0
            args = st[len(st) - n:] if n else []
            fn = st[len(st) - n - 1] if len(st) > n else ("top",)
            info.update(fn=fn, cargs=args, nres=k)
            pop(n + 1)
            for i in range(max(k, 0)):
                st.append(("res", e.n, i))
        elif q == "luaL_setfuncs":
            n = a[2][1] if a[2][0] == "c" else 0
            pop(n)
            info.update(tab=st[-1] if st else None, lib=a[1])
        elif q == "luaL_where":
            st.append(("str", ("L", "where", ("c", 0))))
        elif q == "lua_concat":
            n = a[1][1] if a[1][0] == "c" else 0
            parts = st[len(st) - n:] if n else []
            pop(n)
            st.append(("concat", tuple(parts)))
        elif q == "luaL_requiref":
            st.append(("mod", a[1]))
        elif q in ("luaL_loadfilex", "luaL_loadbufferx", "luaL_loadstring"):
            st.append(("chunk", e.n))
        elif q == "luaL_tolstring":
            st.append(("str", ("L", "tostr", idx(a[1]))))
            r.bind[me] = ("L", "tostr", st[-1][1])
        elif q == "luaL_traceback":
            st.append(("str", ("L", "traceback", ("c", 0))))
        elif q == "lua_touserdata":
            v = idx(a[1])
            r.bind[me] = v[1] if v[0] == "light" else ("L", "ud", v)
        elif q in ("luaL_checkudata", "luaL_testudata"):
            r.bind[me] = ("L", ("check:" if q == "luaL_checkudata" else "test:") + (a[2][1] if a[2][0] == "s" else "?"), idx(a[1]))
        elif q in ("lua_tonumberx", "lua_tointegerx", "lua_tounsignedx"):
            v = idx(a[1])
            w = "num" if q == "lua_tonumberx" else "int"
            r.bind[me] = v[1] if v[0] in ("num", "int") and v[0] == w else ("L", w, v)
            r.bind[("out", e.n, 2)] = ("L", "is" + w, v)
            info["checked"] = a[2] != ("c", 0)
        elif q == "lua_tolstring":
            v = idx(a[1])
            r.bind[me] = ("L", "str", v)
        elif q in ("luaL_checknumber", "luaL_checkinteger", "luaL_optinteger", "luaL_optnumber"):
            r.bind[me] = ("L", "cnum" if q.endswith("number") else "cint", idx(a[1]))
        elif q in ("luaL_checklstring", "luaL_optlstring"):
            r.bind[me] = ("L", "cstr", idx(a[1]))
        elif q == "lua_toboolean":
            r.bind[me] = ("L", "bool", idx(a[1]))
        elif q == "lua_type":
            v = idx(a[1])
            r.bind[me] = ("c", 0) if v == ("nil",) else ("L", "type", v)
        elif q in ("lua_isnumber", "lua_isstring", "lua_isinteger", "lua_isuserdata", "lua_iscfunction"):
            r.bind[me] = ("L", q[4:], idx(a[1]))
        elif q in ("lua_rawlen", "luaL_len"):
            r.bind[me] = ("L", "len", idx(a[1]))
        elif q == "lua_typename":
            r.bind[me] = ("L", "typename", a[1])
        elif q == "lua_gettop":
            r.bind[me] = ("c", nargs) if nargs is not None and len(st) == nargs else ("L", "top", ("c", 0))
        elif q in ("luaL_error", "lua_error", "luaL_argerror"):
            info["args"] = a
        elif q in ("luaL_checkversion_", "luaL_openlibs", "luaL_checktype", "luaL_checkany", "luaL_checkstack", "lua_gc", "lua_close",
                   "luaL_newstate", "lua_checkstack", "lua_rawequal", "lua_compare", "lua_getinfo", "lua_getstack", "lua_atpanic", "lua_status"):
            pass
        elif q in ("lua_rotate",):
            i = a[1][1] if a[1][0] == "c" else 0
            n = a[2][1] if a[2][0] == "c" else 0
            j = i - 1 if i > 0 else len(st) + i
            seg = st[j:]
            if seg:
                n %= len(seg)
                st[j:] = seg[-n:] + seg[:-n] if n else seg
        elif q == "lua_copy":
            pass
        else:
            r.bad.append((e, "operation %s is not modelled" % q))
        r.ops.append((name, e, dict(info, args=a, stack=list(st))))
    r.stack = st
    return r


def runs(P, f, nargs, env=None, inline=None, keep=None, assume=None, limit=20000):
    """All simulated paths of script-callable function f."""
    sg = SG(P, f, inline=inline or (lambda g, c: True), maxdepth=8, assume=assume)
    out = []
    for p in paths(sg, env=env, keep=keep, limit=limit):
        out.append(sim(p, nargs, sg))
    return sg, out


def ginit(P, key):
    """Rows of a constant table of structures: list of lists of terms."""
    g = P.globals.get(key)
    if g is None or not g.get("nodes"):
        return None
    ns = g["nodes"]

    def val(i):
        n = ns[i]
        k = n["k"]
        if k == "InitListExpr":
            return [val(x) for x in n.get("inits", n["c"])]
        if k == "StringLiteral":
            return ("s", n.get("s", ""))
        if n.get("fn"):
            return ("fn", n["fn"])
        if k == "OffsetOfExpr":
            return ("f", "offsetof", ("s", n["argt"]), ("s", n["path"]))
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr", "ImplicitValueInitExpr"):
            return ("c", 0)
        if k == "IntegerLiteral":
            return ("c", int(n["v"]))
        if n.get("c"):
            return val(n["c"][0])
        if "cv" in n:
            return ("c", int(n["cv"]))
        return ("e", k)
    return val(g["init"])
