"""C07 script attributes: name -> accessor pair -> native quantity."""
import math
from vv.luaattr import *

TECHNIQUE = "constant-table evaluation and path-sensitive value flow through the script accessors, with an abstract model of the interpreter's stack"
NOTE = """Decides, for every documented attribute of the script's space, body, vector and particle objects, which native member each access path reads and writes and
in which form, for all values. The interpreter itself and the numeric conversion of its own values (number to int32) are trusted."""


def leafvals(r, ptr):
    out = {}
    for k, v in r.path.final(r.sg, ptr).items():
        out[sp(k)] = r.val(v)
    for k, v in list(out.items()):
        if v[0] == "loc":
            st = r.sg.outs[r.path.last]
            w = r.path.over.get(v) or st.get(v)
            if w is not None:
                out[k] = r.val(r.path.resolve(w, st))
    return out


def num_of(t, vals):
    def env(x):
        if x in vals:
            return vals[x]
        if x[0] == "g" or x[0] == "ld" and x[1][0] == "g":
            n = x[-1][-1] if x[0] == "ld" else x[1]
            if "C_PI" in n:
                return math.pi
        if x[0] == "f" and x[1] in ("lround", "llround", "round", "rint", "std::round", "floor"):
            return decide(x[2], env)
        return None
    return decide(t, env)


def close(a, b):
    return a is not None and b is not None and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def geti(k):
    return ("geti", ("arg", 2), ("c", k))


COMP = {"TVec": ["x", "y"], "TVec3D": ["r.x", "r.y", "o"], "TObj": ["r.x", "r.y", "g"]}


def setter_kind(P, f, R=None):
    """What a setter does: set of kinds its successful runs agree with."""
    sg, rs = runs(P, f, 2, inline=inl)
    per = []
    nok = 0
    notes = []
    for r in rs:
        r.sg = sg
        if r.end[0] != "ret" or r.end[1] != ("c", 0):
            continue
        nok += 1
        # where did it write?
        ptr = [("ret", o[1].n) for o in r.ops if o[0] == "lua_touserdata"]
        P1 = ("L", "ud", ("arg", 1))
        lv = {}
        for p in ptr:
            if r.bind.get(p) == P1:
                lv.update(leafvals(r, p))
        k = set()
        if not lv:
            # element-wise writes or assignments of classes with their own operator=
            for op, e, i in r.ops:
                if op == "write" and root(i["loc"])[0] == "L" and root(i["loc"])[1:] == P1[1:]:
                    k |= {("w", sp(chain(i["loc"])), i["val"])}
            for op, e, i in r.ops:
                if op == "call" and i["obj"] == P1 and i["q"].split("::")[-1] == "operator=":
                    a = i["args"][0]
                    a = (r.content(a, e.n) or a) if a[0] in ("loc", "tmp") else a
                    if a[0] == "ret":
                        c = [o[2]["obj"] for o in r.ops if o[0] == "call" and o[1].n == a[1] and o[2]["q"].startswith("TEval::")]
                        a = c[0] if c else a
                    k |= {("assign", i["q"].split("::")[0], a)}
        per.append((r, lv, k))
    kinds = None
    wrote_slip = False
    for r, lv, k in per:
        mine = set()
        # a member left at its own old value is not written
        lv = {c: v for c, v in lv.items() if not (v[0] == "ld" and root(strip_ld(v)) == ("L", "ud", ("arg", 1)) and sp(chain(v)) == c)}
        src = ("L", "num", ("arg", 2))
        if set(lv) == {""}:
            v = lv[""]
            if v == src:
                mine.add("double")
            if v == ("L", "int", ("arg", 2)):
                mine.add("int32")
            if v == ("L", "str", ("arg", 2)):
                mine.add("string")
            if all(close(num_of(v, {src: x}), x * math.pi / 180) for x in (1.0, 90.0)):
                mine.add("degree")
            if v == ("c", 0) or ("L", "check:TBody", ("arg", 2)) in list(subterms(v)) or v == ("loc",):
                mine.add("root")
        for t, comps in COMP.items():
            m = {c: v for c, v in lv.items() if c in comps}
            if set(m) == set(comps):
                if all(m[c] == ("L", "num", geti(j + 1)) for j, c in enumerate(comps)):
                    mine.add(t)
                elif all(any(x == ("L", "test:" + t, ("arg", 2)) or x == ("L", "check:" + t, ("arg", 2)) for x in subterms(m[c])) and m[c][0] == "ld" and
                         sp(chain(m[c][1])) == c for c in comps):
                    mine.add(t)
        if set(lv) in ({"alist[].slip"}, {"alist.[].slip"}) and set(lv.values()) == {("L", "bool", ("arg", 2))}:
            mine.add("slip")
            wrote_slip = True
        if {"value", "timescale"} <= set(lv):
            v, s = lv["value"], lv["timescale"]
            if v == ("L", "int", geti(1)) and s == ("L", "int", geti(2)):
                mine.add("TTime")
            if v[0] == "out" and s[0] == "out" and v[1] == s[1]:
                for op, e, i in r.ops:
                    if op == "call" and e.n == v[1] and i["q"] in ("sscanf", "std::sscanf") and i["args"][0] == ("L", "str", ("arg", 2)):
                        if i["args"][1][0] == "s" and i["args"][1][1].replace(" ", "").startswith(("%d/%u", "%i/%u", "%d/%d", "%i/%i")) and (v[2], s[2]) == (2, 3):
                            mine.add("TTime")
            if src in list(subterms(v)):
                if close(num_of(v, {s: 1000, src: 0.25}), 250) and src not in list(subterms(s)):
                    mine.add("TTime")
                elif s[0] == "c" and close(num_of(v, {src: 0.25}), 0.25 * s[1]):
                    mine.add("TTime")
        for x in k:
            if x[0] == "assign" and x[1] == "TEval":
                a = x[2]
                if a == ("L", "str", ("arg", 2)) or any(y == ("L", "test:TEval", ("arg", 2)) for y in subterms(a)):
                    mine.add("TEval")
            if x[0] == "w" and x[1] == "alist.[].slip" or x[0] == "w" and x[1] == "alist[].slip":
                if x[2] == ("L", "bool", ("arg", 2)):
                    mine.add("slip")
                    wrote_slip = True
        if not lv and not k and not any(
                op == "br" and i["label"] == ("br", True) and any(x[0] == "it" and x[-1] == "*" for x in subterms(i["val"])) for op, e, i in r.ops):
            # a loop over no elements
            mine.add("slip")
        kinds = mine if kinds is None else kinds & mine
    if kinds and not wrote_slip:
        kinds.discard("slip")
    return (kinds or set()), nok


def getter_kind(P, f):
    sg, rs = runs(P, f, 1, inline=lambda g, c: inl(g, c))
    P1 = ("L", "ud", ("arg", 1))
    kinds = None
    n = 0
    for r in rs:
        r.sg = sg
        if r.end[0] != "ret":
            continue
        n += 1
        mine = set()
        top = r.stack[-1] if r.stack else ("top",)
        if r.end[1] != ("c", 1):
            kinds = set()
            continue
        if top[0] == "num":
            v = r.val(r.path.resolve(top[1]))
            d = ("ld", P1)
            if v == d:
                mine.add("double")
            if all(close(num_of(v, {d: x}), x * 180 / math.pi) for x in (1.0, 2.0)):
                mine.add("degree")
            fv = {("ld", ("fld", P1, "TTime::value")): 6, ("ld", ("fld", P1, "TTime::timescale")): 4}
            if close(num_of(v, fv), 1.5):
                mine.add("TTime")
        if top[0] == "int" and r.val(r.path.resolve(top[1])) == ("ld", P1):
            mine.add("int32")
        if top[0] == "str" and strip_ld(r.val(r.path.resolve(top[1]))) == P1:
            mine.add("string")
        if top[0] == "bool":
            v = r.val(r.path.resolve(top[1]))
            if sp(chain(v)) in ("alist.[].slip", "alist[].slip", "alist.[front].slip") and root(strip_ld(v)) == P1:
                mine.add("slip")
        if top[0] == "nil":
            mine |= {"slip", "root"}
        if top[0] == "ud":
            m = r.meta.get(top)
            tag = m[1] if m and m[0] == "meta" else None
            stored = None
            for op, e, i in r.ops:
                if op == "write" and i["loc"] == ("L", "new", top):
                    stored = i["val"]
                if op == "call" and i["q"].startswith("std::shared_ptr::shared_ptr") and tag == "TBody":
                    for a in i["args"]:
                        w = r.val(r.path.resolve(("ld", a), sg.outs[e.n])) if a[0] in ("loc", "tmp") else a
                        if any(y == P1 for y in subterms(w)):
                            stored = "weak"
            for k, t in TAGOF.items():
                if tag == t and stored == P1:
                    mine.add(k)
            if tag == "TBody" and stored == "weak":
                mine.add("root")
        kinds = mine if kinds is None else kinds & mine
    return (kinds or set()), n


def run(P, R, tier):
    R.rule("write", "assigning attribute <name> hands the assigned value to a setter of the documented type for exactly the documented member")
    R.rule("read", "reading attribute <name> hands exactly the documented member to a getter of the documented type")
    R.rule("setter", "a setter stores the assigned value, component by component, and nothing else")
    R.rule("getter", "a getter returns the member it is given")
    R.rule("native", "the documented member has the native type its accessors work on")
    R.rule("result", "the access function returns what the getter returned, and ends normally exactly when the setter reported no error")
    lib, _ = libs(P)
    R.need(len(lib), 6, "script object types with access tables")
    sgc, kindc = {}, {}

    def kind(fk, which):
        if (fk, which) not in kindc:
            f = P.fns.get(fk)
            kindc[(fk, which)] = (setter_kind if which == "set" else getter_kind)(P, f) if f is not None and f.blocks else (set(), 0)
        return kindc[(fk, which)]

    n = 0
    for tag, (cls, attrs) in DOC.items():
        mt = lib.get(tag, {})
        rec = P.records.get(cls)
        for which, meta, nargs in (("set", "__newindex", 3), ("get", "__index", 2)):
            f = P.fns.get(mt.get(meta)) if isinstance(mt.get(meta), str) else None
            if not R.check(f is not None, "write" if which == "set" else "read", "utils/vvflow", "%s %s" % (tag, meta), "objects tagged %s have no %s function" % (tag, meta)):
                continue
            for name, (kd, path) in attrs.items():
                rule = "write" if which == "set" else "read"
                key = "%s.%s %s" % (tag, name, which)
                sg, rs = access(P, f, name, nargs, sgc)
                if which == "set" and kd in READONLY:
                    R.check(all(r.end[0] == "raise" for r in rs), rule, f.where(), key, "assigning %s.%s is accepted" % (tag, name))
                    continue
                n += 1
                good = None
                bad = None
                for r in rs:
                    d = dispatch(P, sg, r, name)
                    if d is None:
                        if r.end[0] == "raise" and not any(o[0] in ("luaL_error",) for o in r.ops):
                            continue
                        bad = "the name %s.%s is not accepted (%s)" % (tag, name, "an error is raised" if r.end[0] == "raise" else "nothing is done")
                        continue
                    k, fk, cargs, e = d
                    if fk[0] != "fn":
                        bad = "%s.%s is dispatched to no function" % (tag, name)
                        continue
                    acc = P.fns.get(fk[1])
                    if not cargs or cargs[0][0] != "light":
                        bad = "the accessor of %s.%s is called with something other than a member pointer" % (tag, name)
                        continue
                    obj, (c, p) = split_ptr(r.val(r.path.resolve(cargs[0][1])) if False else cargs[0][1])
                    c, p = resolve_path(P, c, p)
                    b = [x for x in subterms(obj) if x[0] == "L" and str(x[1]).startswith("check:")]
                    if not b or b[0] != ("L", "check:" + tag, ("arg", 1)):
                        bad = "the member of %s.%s is not taken from the object that is accessed" % (tag, name)
                        continue
                    if p != path or c not in (None, cls):
                        bad = "%s.%s goes to %s::%s instead of %s::%s" % (tag, name, c or cls, p or "(the object)", cls, path or "(the object)")
                        continue
                    kk, nn = kind(fk[1], which)
                    if kd not in kk:
                        bad = "%s.%s uses %s, which does not %s a %s" % (tag, name, acc.q if acc else "?", which, kd)
                        continue
                    if which == "set":
                        if len(cargs) != 2 or cargs[1] != ("arg", 3):
                            bad = "the setter of %s.%s is not given the assigned value" % (tag, name)
                            continue
                        res = ("res", e.n, 0)
                        fine = lambda v: (lambda x: v if x == ("L", "type", res) else 0 if x == ("L", "isnil", res) and v else None)
                        for v, want in ((0, "ret"), (4, "raise")):
                            if consistent(r, fine(v)) and r.end[0] != want:
                                R.bad("result", e.where(), key, "%s.%s: the assignment %s when the setter %s" % (
                                    tag, name, "ends normally" if r.end[0] == "ret" else "fails", "reports an error" if v else "succeeds"))
                            else:
                                R.ok("result")
                    else:
                        ok = r.end == ("ret", ("c", 1)) and r.stack and r.stack[-1] == ("res", e.n, 0)
                        R.check(ok, "result", e.where(), key, "%s.%s does not return what its getter returned" % (tag, name))
                    good = (acc.q, p)
                R.check(good is not None and bad is None, rule, f.where(), key, bad or "the name %s.%s is not accepted" % (tag, name), "%s.%s -> %s via %s" % (
                    tag, name, good[1] if good else "", good[0] if good else ""))
            # native types
        for name, (kd, path) in attrs.items():
            if kd in NATIVE and rec:
                t = next((x["t"] for x in rec["fields"] if x["name"] == path), None)
                R.check(t is not None and base_type(t) in NATIVE[kd], "native", "libvvhd/headers", "%s.%s" % (tag, name), "%s::%s is a %s, accessed as %s" % (cls, path, t, kd))
            if kd in ("BodyList", "ObjList") and rec:
                t = next((x["t"] for x in rec["fields"] if x["name"] == path), "")
                R.check("vector<" in t and ("TBody" in t) == (kd == "BodyList"), "native", "libvvhd/headers", "%s.%s" % (tag, name), "%s::%s is a %s" % (cls, path, t))
    for (fk, which), (kk, nn) in kindc.items():
        f = P.fns.get(fk)
        if f is None:
            continue
        R.check(bool(kk) and nn > 0, "setter" if which == "set" else "getter", f.where(), f.q, "%s does not %s the value of any documented type" % (f.q, which), "%s: %s" % (f.q, ",".join(sorted(kk))))
    R.need(n, 60, "attribute accesses")


def resolve_path(P, c, p):
    return c, p
