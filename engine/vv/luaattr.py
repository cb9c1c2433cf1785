"""Script attributes: which native quantity each attribute name reads and writes."""
import math
from .lib import *
from .lua import *
from .paths import paths

# documented attributes: tag -> {name: (kind, path below the object)}
DOC = {
    "S": ("Space", {
        "caption": ("string", "caption"), "re": ("double", "re"), "finish": ("double", "finish"), "inf_g": ("double", "inf_g"),
        "inf_vx": ("TEval", "inf_vx"), "inf_vy": ("TEval", "inf_vy"), "gravity": ("TVec", "gravity"),
        "time": ("TTime", "time"), "dt": ("TTime", "dt"), "dt_save": ("TTime", "dt_save"), "dt_streak": ("TTime", "dt_streak"),
        "dt_profile": ("TTime", "dt_profile"),
        "body_list": ("BodyList", "BodyList"), "vort_list": ("ObjList", "VortexList"), "sink_list": ("ObjList", "SourceList"),
        "streak_source_list": ("ObjList", "StreakSourceList"), "streak_domain_list": ("ObjList", "StreakList")}),
    "TBody": ("TBody", {
        "label": ("string", "label"), "holder_pos": ("TVec3D", "holder"), "delta_pos": ("TVec3D", "dpos"), "speed": ("TVec3D", "speed_slae"),
        "collision_min": ("TVec3D", "collision_min"), "collision_max": ("TVec3D", "collision_max"), "spring_const": ("TVec3D", "kspring"),
        "spring_damping": ("TVec3D", "damping"), "holder_vx": ("TEval", "speed_x"), "holder_vy": ("TEval", "speed_y"),
        "holder_vo": ("TEval", "speed_o"), "holder_mo": ("TEval", "force_o"), "density": ("double", "density"), "bounce": ("double", "bounce"),
        "special_segment": ("int32", "special_segment_no"), "slip": ("slip", ""), "root": ("root", "root_body")}),
    "TVec": ("TVec", {"x": ("double", "x"), "y": ("double", "y")}),
    "TVec3D": ("TVec3D", {"r": ("TVec", "r"), "o": ("double", "o"), "d": ("degree", "o")}),
    "TObj": ("TObj", {"r": ("TVec", "r"), "g": ("double", "g"), "v": ("TVec", "v")}),
}
READONLY = ("BodyList", "ObjList")
# native type the record member must have for its kind
NATIVE = {"string": ("std::string", "std::basic_string<char>"), "double": ("double",), "degree": ("double",), "int32": ("int", "int32_t"),
          "TVec": ("TVec",), "TVec3D": ("TVec3D",), "TEval": ("TEval",), "TTime": ("TTime",)}
TAGOF = {"TVec": "TVec", "TVec3D": "TVec3D", "TEval": "TEval", "BodyList": "BodyList", "ObjList": "ObjList"}


def inl(g, c):
    return "/utils/vvflow/" in g.file or (g.cls in ("TTime", "TVec", "TVec3D", "TObj", "TAtt") and g.file.endswith((".h", ".hpp")))


def strip_ld(t):
    while t[0] == "ld":
        t = t[1]
    return t


def tables_in(sg, t):
    """Constant tables a row pointer may point into."""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == "g":
            out.add(x[1])
        if x[0] == "phi":
            st.extend(sg.phis.get(x, ()))
        else:
            st.extend(y for y in x[1:] if isinstance(y, tuple))
    return out


class Access:
    """What one access function does for one name: ways = [(function, pointer, other args, ends)]"""
    def __init__(self):
        self.ways = []
        self.missing = False
        self.problems = []


def rows(P, key):
    r = ginit(P, key)
    if not isinstance(r, list):
        return None
    return [x for x in r if isinstance(x, list) and x and isinstance(x[0], tuple) and x[0][0] == "s"]


def row_fields(P, struct):
    r = P.records.get(struct)
    return [f["name"] for f in r["fields"]] if r else []


def table_field(P, sg, t, name):
    """A field of a table row -> the value it has in the row of that name; None if t is something else."""
    if t[0] == "ld" and t[1][0] == "fld":
        struct, f = t[1][2].rsplit("::", 1)
        if struct not in ("luavvd_member", "luavvd_method", "luaL_Reg"):
            return None
        tabs = {k for k in tables_in(sg, t[1][1]) if rows(P, k) is not None}
        vals = set()
        for k in tabs:
            i = row_fields(P, struct).index(f)
            hit = [r for r in rows(P, k) if r[0][1] == name]
            vals.add(hit[0][i] if hit else None)
        if len(vals) == 1:
            return vals.pop() or ("none",)
        vals.discard(None)
        return vals.pop() if len(vals) == 1 else ("none",)
    return None


def name_env(P, sg, name):
    def env(t):
        if t[0] == "f" and t[1] in ("strcmp", "std::strcmp", "strcasecmp"):
            for x in t[2:]:
                if x[0] == "s":
                    return 0 if x[1] == name else 1
            for x in t[2:]:
                v = table_field(P, sg, x, name)
                if v is not None:
                    return 1 if v == ("none",) else 0
        if len(t) == 4 and (t[0] == "f" and t[1] in ("std::operator==", "std::operator!=") or t[0] == "op" and t[1] in ("==", "!=")):
            eq = t[1].endswith("==")
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if y[0] not in ("ret", "ld", "L", "loc", "f"):
                    continue
                if x[0] == "s":
                    return int((x[1] == name) == eq)
                v = table_field(P, sg, x, name)
                if v is not None and x[1][2].endswith("::name"):
                    return int((v != ("none",)) == eq)
        v = table_field(P, sg, t, name)
        if v is not None:
            return None if v == ("none",) else 0 if v == ("c", 0) else 1
        if t[0] in ("phi", "el") and into_table(P, sg, t):
            return 1
        return None
    return env


def into_table(P, sg, t):
    """The term can only be the address of an element of a constant table."""
    c = sg.__dict__.setdefault("_intab", {})
    if t in c:
        return c[t]
    seen, st = set(), [t]
    r = True
    n = 0
    while st and r:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == "phi":
            st.extend(sg.phis.get(x, (("undef",),)))
        elif x[0] == "el":
            st.append(x[1])
        elif x[0] == "op" and x[1] in ("+", "-"):
            st.extend([y for y in x[2:] if y[0] != "c"][:1])
        elif x[0] == "g" and x[1] in P.globals and rows(P, x[1]) is not None:
            n += 1
        else:
            r = False
    c[t] = r and n > 0
    return c[t]


def subst_rows(P, sg, t, name):
    if not isinstance(t, tuple) or not t:
        return t
    v = table_field(P, sg, t, name)
    if v is not None:
        return v
    return tuple(subst_rows(P, sg, x, name) if isinstance(x, tuple) else x for x in t)


def consistent(run, env, upto=None):
    """May the run happen when interpreter values have the given values?"""
    for o in run.ops:
        if upto is not None and o[1] is upto:
            break
        if o[0] != "br" or not o[2]["label"]:
            continue
        v = decide(o[2]["val"], env)
        l = o[2]["label"]
        if v is None:
            continue
        if l[0] == "br" and bool(v) != l[1]:
            return False
        if l[0] == "case" and l[1] is not None and int(l[1]) != int(v):
            return False
        if l[0] == "default":
            nd = o[1]
            labs = [k for _, k in run.sg.nodes[o[1].n].succ if isinstance(k, tuple)]
            if any(k[0] == "case" and k[1] is not None and int(k[1]) == int(v) for k in labs):
                return False
    return True


def split_ptr(t):
    """(object term, path or offset) of a member pointer."""
    if t[0] == "op" and t[1] == "+":
        offs = [x for x in t[2:] if x[0] == "f" and x[1] == "offsetof" or x[0] == "c"]
        rest = [x for x in t[2:] if x not in offs]
        if len(offs) == 1 and len(rest) == 1:
            o = offs[0]
            if o[0] == "c":
                return rest[0], (None, "" if o[1] == 0 else "?")
            return rest[0], (o[2][1], o[3][1].lstrip("."))
    if t[0] == "el" and t[2][0] == "f" and t[2][1] == "offsetof":
        return t[1], (t[2][2][1], t[2][3][1].lstrip("."))
    path = []
    x = t
    while x[0] == "fld":
        path.append(x[2])
        x = x[1]
    path.reverse()
    return x, (path[0].rsplit("::", 1)[0] if path else None, ".".join(p.split("::")[-1] for p in path))


def access(P, f, name, nargs, sgc):
    """Runs of an access metamethod for one attribute name."""
    if f.key not in sgc:
        sgc[f.key] = SG(P, f, inline=inl, maxdepth=8)
    sg = sgc[f.key]
    out = []
    for p in paths(sg, env=name_env(P, sg, name)):
        r = sim(p, nargs, sg)
        r.sg = sg
        out.append(r)
    return sg, out


def dispatch(P, sg, r, name):
    """The interpreter call through which a run reaches the accessor:
    (op index, function key, pointer term, further arguments, call node)."""
    for k, (op, e, i) in enumerate(r.ops):
        if op in ("lua_callk", "lua_pcallk") and i["fn"][0] == "fn":
            fk = subst_rows(P, sg, r.path.resolve(i["fn"][1]), name)
            cargs = [tuple(subst_rows(P, sg, x, name) if isinstance(x, tuple) else x for x in c) for c in i["cargs"]]
            return k, fk, cargs, e
    return None


def libs(P):
    """tag -> {metamethod: function key}, from the functions that set up metatables."""
    out, order = {}, []
    for f in P.fns.values():
        if not any((d or {}).get("q") == "luaL_newmetatable" for _, _, d in f.calls()):
            continue
        sg, rs = runs(P, f, 0, inline=inl)
        for r in rs:
            for op, e, i in r.ops:
                if op == "luaL_setfuncs" and i.get("tab") and i["tab"][0] == "meta" and i["lib"][0] in ("g", "el"):
                    g = i["lib"] if i["lib"][0] == "g" else i["lib"][1]
                    for row in rows(P, g[1]) or []:
                        out.setdefault(i["tab"][1], {})[row[0][1]] = row[1][1] if row[1][0] == "fn" else None
                if op == "lua_setfield" and i.get("tab") and i["tab"][0] == "meta" and i["key"][0] == "s":
                    v = i["value"]
                    out.setdefault(i["tab"][1], {}).setdefault(i["key"][1], v[1][1] if v and v[0] == "fn" and v[1][0] == "fn" else ("table", e.n))
                if op == "luaL_newmetatable":
                    order.append((e.args[1][1] if e.args[1][0] == "s" else "?", f.q, e))
                    out.setdefault(order[-1][0], {})
    return out, order
