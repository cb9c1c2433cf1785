"""C22 text: formats and buffers."""
import re
from vv.lib import *
from vv.prog import REPO
from vv.poly import Poly, poly, TooBig
from vv.sg import SG, subterms, show

TECHNIQUE = "taint of format arguments to a fixpoint over the call graph, and a symbolic comparison of the size and the worst-case length of every text with the capacity of its buffer"
NOTE = """Decides, for every call of a formatting, scanning, copying or reading function in the repository, that the format is constant text of this program (or a parameter that only gets such text),
that conversions and arguments agree, that the size given fits the buffer, that a text cannot be cut (or that this is looked at), and that what is used as text is terminated."""

# name: (index of the format, index of the first value)
PRINT = {"printf": (0, 1), "fprintf": (1, 2), "sprintf": (1, 2), "snprintf": (2, 3), "asprintf": (1, 2), "dprintf": (1, 2), "syslog": (1, 2), "errx": (1, 2), "err": (1, 2), "warnx": (0, 1), "warn": (0, 1)}
VPRINT = {"vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2, "vasprintf": 1}
LUA = {"lua_pushfstring": (1, 2), "luaL_error": (1, 2)}
LUAV = {"lua_pushvfstring": 1}
SCAN = {"scanf": (0, 1), "fscanf": (1, 2), "sscanf": (1, 2)}
TIME = {"strftime": 2, "std::put_time": 1}
# name: (index of the buffer, indices of the factors of the size)
SINK = {"snprintf": (0, (1,)), "vsnprintf": (0, (1,)), "fgets": (0, (1,)), "fread": (0, (1, 2)), "read": (1, (2,)), "strncpy": (0, (2,)), "memcpy": (0, (2,)), "memmove": (0, (2,)), "memset": (0, (2,)),
        "strftime": (0, (1,)), "archive_read_data": (1, (2,)), "readlink": (1, (2,)), "getcwd": (0, (1,)), "gethostname": (0, (1,)), "std::basic_istream::read": (0, (1,)), "std::basic_istream::getline": (0, (1,)),
        "std::basic_istream::get": (0, (1,)), "pread": (1, (2,)), "recv": (1, (2,)), "strerror_r": (1, (2,)), "ctime_r": (1, ()), "bcopy": (1, (2,)), "std::basic_string::copy": (0, (1,)), "strlcpy": (0, (2,))}
# functions that leave no terminator
RAW = ("fread", "read", "strncpy", "memcpy", "memmove", "archive_read_data", "readlink", "std::basic_istream::read", "pread", "recv", "std::basic_string::copy")
UNBOUNDED = {"sprintf": 0, "vsprintf": 0, "strcpy": 0, "strcat": 0, "stpcpy": 0, "gets": 0, "strncat": 0}
SIZES = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4, "long": 8, "unsigned long": 8, "long long": 8,
         "unsigned long long": 8, "double": 8, "TVec": 16, "TVec3D": 24, "TTime": 8, "TObj": 0, "long double": 16}
CANON = {"int32_t": "int", "uint32_t": "unsigned int", "int64_t": "long", "uint64_t": "unsigned long", "size_t": "unsigned long", "ssize_t": "long", "hsize_t": "unsigned long", "hid_t": "long",
         "std::size_t": "unsigned long", "uint8_t": "unsigned char", "int8_t": "signed char", "uint16_t": "unsigned short", "int16_t": "short", "lua_Integer": "long long", "lua_Number": "double",
         "time_t": "long", "off_t": "long", "herr_t": "int", "htri_t": "int", "ptrdiff_t": "long", "hssize_t": "long"}


def run(P, R, tier):
    R.rule("format", "a format is constant text of the program, never text from a user or a file")
    R.rule("match", "conversions and values agree in number, kind and width")
    R.rule("fits", "the size a function may fill fits the buffer it is given")
    R.rule("bound", "nothing is copied or formatted without a bound")
    R.rule("cut", "a text cannot be longer than the buffer it is formatted to, or the length is looked at")
    R.rule("ends", "a buffer that is used as text is terminated")
    R.rule("pattern", "text that is put into a file-name pattern stands for itself")
    R.rule("h5", "texts in result files have variable length")
    fs = [f for f in P.fns.values() if f.nodes and f.file.startswith(REPO) and "/test/" not in f.file]
    formats(P, R, fs)
    buffers(P, R, fs)
    pattern(P, R, fs)


def cname(P, nd, f):
    c = nd.get("callee") or ""
    return (f.decls.get(c) or {}).get("q") or (P.fns[c].q if c in P.fns else c)


def strip(f, i):
    while i is not None and i >= 0:
        nd = f.nodes[i]
        if nd["k"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXFunctionalCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr") and nd["c"]:
            i = nd["c"][0]
            continue
        return i
    return i


def ctype(t):
    t = t.replace("const ", "").replace(" const", "").replace("volatile ", "").replace(" &", "").strip()
    return CANON.get(t, t)


def literal(P, f, i, depth=0):
    """Constant texts that node i may be, or None; ('param', k) for a parameter."""
    i = strip(f, i)
    nd = f.nodes[i]
    if nd["k"] == "StringLiteral":
        return [nd["s"]]
    if nd["k"] in ("ConditionalOperator", "BinaryConditionalOperator"):
        out = []
        for c in nd["c"][-2:]:
            x = literal(P, f, c, depth + 1)
            if x is None:
                return None
            out += x
        return out
    if nd["k"] == "CXXNullPtrLiteralExpr" or nd.get("cv") == "0":
        return []
    if nd["k"] == "DeclRefExpr":
        for k, p in enumerate(f.params):
            if p["d"] == nd.get("d"):
                return [("param", k)]
        g = P.globals.get(nd.get("d")) or P.globals.get((nd.get("d") or "")[2:])
        if g is not None and g.get("nodes") and "const" in (g.get("t") or g.get("type") or "const") and g.get("init") is not None and g["init"] >= 0:
            j = g["init"]
            ns = g["nodes"]
            while ns[j]["k"] != "StringLiteral" and ns[j].get("c"):
                j = ns[j]["c"][0]
            if ns[j]["k"] == "StringLiteral":
                return [ns[j]["s"]]
            return None
        # a local that is only ever set to constant texts
        if depth < 4 and "d" in nd and nd["d"].startswith("l:"):
            out, found = [], False
            for x in f.nodes:
                for v in x.get("vars", ()):
                    if v["d"] == nd["d"]:
                        found = True
                        if v.get("init", -1) >= 0:
                            y = literal(P, f, v["init"], depth + 1)
                            if y is None:
                                return None
                            out += y
                if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x.get("op", "").endswith("=") and x.get("op") not in ("==", "!=", "<=", ">="):
                    l = f.nodes[strip(f, x["c"][0])]
                    if l.get("d") == nd["d"]:
                        y = literal(P, f, x["c"][1], depth + 1) if x["op"] == "=" else None
                        if y is None:
                            return None
                        out += y
                if x["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and "[" in nd.get("t", ""):
                    for a in x.get("args", ()):
                        l = f.nodes[strip(f, a)]
                        if l.get("d") == nd["d"] and not x is nd and cname(P, x, f) in SINK:
                            return None
            return out if found else None
    return None


CONV = re.compile(r"%(?P<fl>[-+ #0']*)(?P<w>\*|[0-9]+)?(?:\.(?P<p>\*|[0-9]*))?(?P<len>hh|h|ll|l|j|z|t|L|q)?(?P<c>[a-zA-Z%\[])")


def parse(fmt, scan=False):
    out = []
    pos = 0
    while True:
        i = fmt.find("%", pos)
        if i < 0:
            return out
        if scan:
            m = re.compile(r"%(?P<w>\*?[0-9]*)(?P<len>hh|h|ll|l|j|z|t|L)?(?P<c>[a-zA-Z%]|\[\^?\]?[^\]]*\])").match(fmt, i)
        else:
            m = CONV.match(fmt, i)
        if m is None:
            out.append(None)
            pos = i + 1
            continue
        pos = m.end()
        if m.group("c") == "%":
            continue
        out.append(m.groupdict())


def kind(t):
    t = ctype(t)
    if t.endswith("*") or "[" in t:
        b = t.rstrip("* ").split("[")[0].strip()
        return "s" if b in ("char", "signed char", "unsigned char") else "p"
    if t in ("float", "double", "long double"):
        return "f"
    if t.startswith("std::") or t in ("TVec", "TObj", "TTime"):
        return "?"
    return "i"


def formats(P, R, fs):
    """Fixpoint over functions that hand their own parameter on as a format."""
    fwd = {}
    n = 0
    work = True
    seen = set()
    while work:
        work = False
        for f in fs:
            for i, nd in enumerate(f.nodes):
                if not nd.get("callee") or "args" not in nd:
                    continue
                q = cname(P, nd, f)
                idx = None
                for tab in (PRINT, LUA, SCAN):
                    if q in tab:
                        idx = tab[q][0]
                for tab in (VPRINT, LUAV, TIME):
                    if q in tab:
                        idx = tab[q]
                if nd["callee"] in fwd:     # its own parameter goes on as a format
                    idx = fwd[nd["callee"]][0]
                if idx is None or idx >= len(nd["args"]) or (f.key, i) in seen:
                    continue
                x = literal(P, f, nd["args"][idx])
                seen.add((f.key, i))
                n += 1
                a = f.nodes[strip(f, nd["args"][idx])]
                if x is None:
                    R.bad("format", f.where(i), "%s:%s:%s" % (f.q, q, a.get("name", a["k"])), "%s uses %s as the format of %s: a %% in it would be taken for a conversion" % (f.q, a.get("name") or "a text that is not constant", q))
                    continue
                R.ok("format", "%s: %s(%s)" % (f.q, q, ", ".join(repr(y) for y in x[:1])))
                for y in x:
                    if isinstance(y, tuple):
                        table = PRINT.get(q) or LUA.get(q) or SCAN.get(q)
                        if f.key not in fwd:
                            fwd[f.key] = (y[1], q)
                            work = True
                            # calls seen before the function was known to forward
                    else:
                        arguments(P, R, f, i, nd, q, y, fwd)
    called = {nd.get("callee") for f in fs for nd in f.nodes}
    for k in fwd:
        if k not in called:
            g = P.fns[k]
            R.bad("format", g.where(), "%s:%s" % (g.q, g.params[fwd[k][0]]["name"]), "%s uses its parameter %s as the format of %s, whatever it is called with" % (g.q, g.params[fwd[k][0]]["name"], fwd[k][1]))
    R.need(n, 100, "calls with a format")
    R.count("functions that hand a format on", len(fwd))


def arguments(P, R, f, i, nd, q, text, fwd):
    scan = q in SCAN
    if q in TIME or q in VPRINT or q in LUAV:
        return
    first = (PRINT.get(q) or LUA.get(q) or SCAN.get(q) or (None, None))[1]
    if first is None:
        first = fwd[nd["callee"]][0] + 1
    vals = [a for a in nd["args"][first:]]
    cs = parse(text, scan)
    if None in cs:
        R.bad("match", f.where(i), "%s:%s" % (f.q, q), "%s: the format %r of %s has a conversion that does not exist" % (f.q, text, q))
        return
    want = []
    for c in cs:
        if scan:
            if c["w"].startswith("*"):
                continue
            want.append(c)
        else:
            want += [{"c": "d", "len": None}] * ((c["w"] == "*") + (c["p"] == "*")) + [c]
    where, key = f.where(i), "%s:%s:%s" % (f.q, q, text[:30])
    R.check(len(want) == len(vals), "match", where, key, "%s: the format %r of %s has %d conversions for %d values" % (f.q, text, q, len(want), len(vals)), sample="%r" % text)
    lua = q in LUA
    for c, a in zip(want, vals):
        s = strip(f, a)
        t = f.nodes[a].get("t", "")
        if f.nodes[a]["k"] == "ImplicitCastExpr" and f.nodes[a].get("cast") in ("IntegralCast", "FloatingCast") and f.nodes[f.nodes[a]["c"][0]].get("t"):
            t = f.nodes[a]["t"]
        if scan:
            scanned(P, R, f, i, q, c, a, text)
            continue
        k = kind(t)
        conv = c["c"]
        if lua:
            ok = {"s": "s", "d": "i", "I": "i", "f": "f", "p": "ps", "c": "i", "U": "i"}.get(conv, "")
        else:
            ok = "i" if conv in "diouxXc" else "f" if conv in "eEfFgGaA" else "s" if conv == "s" else "ps" if conv == "p" else ""
        if k == "?" or not ok or k not in ok:
            R.bad("match", where, key + ":" + conv, "%s: %%%s of the format %r of %s gets a value of type %s" % (f.q, conv, text, q, t))
            continue
        if not lua and conv in "diouxX" and ctype(t) in SIZES:
            w = {None: 4, "h": 4, "hh": 4, "l": 8, "ll": 8, "z": 8, "j": 8, "t": 8, "q": 8}.get(c["len"], 8)
            R.check(max(4, SIZES[ctype(t)]) == w, "match", where, key + ":" + conv, "%s: %%%s%s of the format %r of %s gets a value of %d bytes" % (f.q, c["len"] or "", conv, text, q, SIZES[ctype(t)]))


def scanned(P, R, f, i, q, c, a, text):
    where, key = f.where(i), "%s:%s:%s:%s" % (f.q, q, text[:30], c["c"][:1])
    t = f.nodes[a].get("t", "")
    s = strip(f, a)
    inner = f.nodes[s]
    if c["c"] in ("s",) or c["c"].startswith("["):
        cap = None
        if "asize" in inner or "[" in inner.get("t", ""):
            m = re.search(r"\[(\d+)\]", inner.get("t", ""))
            cap = int(m.group(1)) if m else None
        R.check(c["w"].isdigit() and cap is not None and int(c["w"]) < cap, "bound", where, key, "%s: %%%s of the format %r of %s may fill more than its buffer of %s bytes" % (f.q, c["c"], text, q, cap if cap is not None else "unknown"))
        return
    tt = t.replace("const ", "")
    if inner.get("t", "").replace("const ", "").endswith("*"):
        tt = inner["t"].replace("const ", "")       # without explicit casts
    if not tt.endswith("*"):
        R.bad("match", where, key, "%s: %%%s of the format %r of %s does not get an address" % (f.q, c["c"], text, q))
        return
    b = ctype(tt[:-1].strip())
    if c["c"] in "diouxXn":
        w = {None: 4, "h": 2, "hh": 1, "l": 8, "ll": 8, "z": 8, "j": 8, "t": 8}.get(c["len"], 8)
        ok = kind(b) == "i" and SIZES.get(b, w) == w
    elif c["c"] in "eEfFgGaA":
        w = {None: 4, "l": 8, "L": 16}.get(c["len"])
        ok = kind(b) == "f" and SIZES.get(b) == w
    elif c["c"] == "c":
        w = int(c["w"] or 1)
        ok = SIZES.get(b) == 1 and w == 1
    else:
        return
    R.check(ok, "match", where, key, "%s: %%%s%s of the format %r of %s is stored to a variable of type %s" % (f.q, c["len"] or "", c["c"], text, q, b), sample="%r" % text)


# ---------------------------------------------------------------- buffers
def lenmax(text, vals, sg, caps):
    """Most characters that the format can give for the argument terms, or None."""
    cs = parse(text)
    lit = len(CONV.sub("", text)) + len(re.findall("%%", text))
    total = lit
    vals = list(vals)
    for c in cs:
        if c is None or c["w"] == "*" or c["p"] == "*" or not vals:
            return None
        v = vals.pop(0)
        w = int(c["w"] or 0)
        k = c["c"]
        if k in "di":
            n = {None: 11, "h": 6, "hh": 4}.get(c["len"], 20)
        elif k in "u":
            n = {None: 10, "h": 5, "hh": 3}.get(c["len"], 20)
        elif k in "xX":
            n = {None: 10, "h": 6, "hh": 4}.get(c["len"], 18)
        elif k == "o":
            n = {None: 12}.get(c["len"], 23)
        elif k == "c":
            n = 1
        elif k in "eE":
            n = int(c["p"] or 6) + 8
        elif k in "gG":
            n = max(1, int(c["p"] or 6)) + 7
        elif k in "fF":
            n = int(c["p"] or 6) + 311
        elif k == "p":
            n = 18
        elif k == "s":
            n = None
            if v[0] == "s":
                n = len(v[1])
            elif v[0] == "loc":
                cap = caps(v)
                n = None if cap is None else int(cap) - 1
            if c["p"]:
                n = int(c["p"]) if n is None else min(n, int(c["p"]))
            if n is None:
                return None
        else:
            return None
        if k in "diu" and c["p"]:
            n = max(n, int(c["p"]) + 1)
        total += max(n, w)
    return total


def const(p):
    if p is None:
        return None
    if not p.m:
        return 0
    if set(p.m) == {()}:
        return p.m[()]
    return None


def pp(t):
    try:
        return poly(t, lambda x: Poly.atom(("t", x)) if x[0] not in ("c", "op", "op1") else None)
    except TooBig:
        return None


def buffers(P, R, fs):
    names = set(SINK) | set(UNBOUNDED) | {"H5Tset_size"}
    n = 0
    todo = []
    for f in fs:
        if any(nd.get("callee") and (cname(P, nd, f) in names) for nd in f.nodes) or chararrays(f) or helper(P, f, names):
            todo.append(f)
    for f in todo:
        try:
            sg = SG(P, f, inline=lambda g, c: g.file.startswith(REPO) and len(g.nodes) < 90 and any(x.get("callee") and cname(P, x, g) in names for x in g.nodes), maxdepth=3)
        except Exception as e:
            R.assume("%s: not analysed (%s)" % (f.q, type(e).__name__))
            continue
        n += one(P, R, f, sg)
    R.need(n, 15, "calls that fill a buffer")


def atmost(sg, n, size):
    """Upper bound of a size that is one quantity and a constant, from the tests on the way."""
    at = [k for k in size.m if k != ()]
    if len(at) != 1 or len(at[0]) != 1 or at[0][0][1] != 1 or size.m[at[0]] != 1:
        return None
    t = at[0][0][0][1]
    off = size.m.get((), 0)
    best = None
    for b, l in guards(sg, n):
        if not (isinstance(l, tuple) and l[0] == "br"):
            continue
        v, tr = b.val, l[1]
        while v[0] == "op1" and v[1] == "!":
            v, tr = v[2], not tr
        if v[0] != "op" or len(v) != 4:
            continue
        o, x, y = v[1], v[2], v[3]
        if x[0] == "c" and y == t:
            o, x, y = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}.get(o, "?"), y, x
        if x != t or y[0] != "c" or not isinstance(y[1], (int, float)):
            continue
        if not tr:
            o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}.get(o, "?")
        u = {"<": y[1] - 1, "<=": y[1], "==": y[1]}.get(o)
        if u is not None:
            best = u if best is None else min(best, u)
    return None if best is None else best + off


def chararrays(f):
    return any(v.get("asize") and ctype(v["t"].split("[")[0].strip()) in ("char", "unsigned char") for nd in f.nodes for v in nd.get("vars", ()))


def helper(P, f, names):
    """Functions that call a small function of the repository which fills what it gets."""
    for nd in f.nodes:
        g = P.fns.get(nd.get("callee") or "")
        if g is not None and g.nodes and g.file.startswith(REPO) and len(g.nodes) < 90 and any(x.get("callee") and cname(P, x, g) in names for x in g.nodes):
            return True
    return False


def one(P, R, f, sg):
    fnof = {e.ctx: e.fn for e in sg.events}
    decls = {}
    for k, g in fnof.items():
        for nd in g.nodes:
            for v in nd.get("vars", ()):
                decls[("loc", k, v["d"])] = (g, v)
    news = {e.val: e for e in sg.events if e.kind == "new" and e.info}

    def capacity(t):
        """(polynomial of bytes, base) behind the address t."""
        off = Poly({})
        while t[0] == "el" or t[0] == "op" and t[1] == "+" and len(t) == 4 and (t[2][0] in ("loc", "new") or t[3][0] in ("loc", "new")):
            if t[0] == "el":
                i = pp(t[2]) if isinstance(t[2], tuple) else None
                if i is None:
                    return None, t
                if t[1][0] == "loc" and t[1] in decls and "vector" in decls[t[1]][1]["t"] or t[1][0] in ("loc", "new"):
                    off = off + i
                    t = t[1]
                    continue
                return None, t
            a, b = t[2], t[3]
            if b[0] in ("loc", "new"):
                a, b = b, a
            i = pp(b)
            if i is None:
                return None, t
            off = off + i
            t = a
        if t[0] == "new" and t in news:
            e = news[t]
            sz = SIZES.get(ctype(e.t))
            p = pp(e.info[1])
            return (None if p is None or not sz else (p - off) * Poly.const(sz)), t
        if t[0] == "loc" and t in decls:
            g, v = decls[t]
            if v.get("asize"):
                sz = SIZES.get(ctype(v["t"].split("[")[0].strip()))
                return (None if not sz else (Poly.const(int(v["asize"])) - off) * Poly.const(sz)), t
            if "vector<" in v["t"]:
                el = re.search(r"vector<([^,<>]+)", v["t"])
                sz = SIZES.get(ctype(el.group(1).strip())) if el else None
                c = ctor(sg, g, t, v)
                if sz and c is not None and c.args and len(c.args) >= 2 and not resized(sg, t):
                    p = pp(c.args[0])
                    return (None if p is None else (p - off) * Poly.const(sz)), t
                return None, t
            if "*" not in v["t"]:
                sz = SIZES.get(ctype(v["t"]))
                return (Poly.const(sz) if sz and not off.m else None), t
        if t[0] == "fld":
            ft = fieldtype(P, t[2])
            m = re.match(r"(.*)\[(\d+)\]$", ft or "")
            if m and SIZES.get(ctype(m.group(1).strip())):
                return (Poly.const(int(m.group(2))) - off) * Poly.const(SIZES[ctype(m.group(1).strip())]), t
        return None, t

    def bytes_of(t):
        p, b = capacity(t)
        return const(p)
    n = 0
    raw = {}
    used = {x for e in sg.events for x in ([e.val] if e.val is not None else []) if e.kind == "br"}
    usedret = {y for v in used for y in subterms(v) if y[0] == "ret"}
    sized = {y for e in news.values() for y in subterms(e.info[1]) if y[0] == "ret"}
    for e in sg.events:
        if e.kind != "call" or e.inl is not None or not e.fn.file.startswith(REPO):
            continue
        q = e.q
        if e.ctx != 0 and e.fn.key == f.key:
            continue
        if q in UNBOUNDED and e.args:
            n += 1
            cap = bytes_of(e.args[0])
            ln = None
            if q == "sprintf" and len(e.args) > 1 and e.args[1][0] == "s":
                ln = lenmax(e.args[1][1], e.args[2:], sg, bytes_of)
            elif q in ("strcpy", "stpcpy") and e.args[1][0] == "s":
                ln = len(e.args[1][1])
            p, base = capacity(e.args[0])
            if ln is None and p is not None and q in ("strcpy", "stpcpy"):
                # room made for the length of the text
                ls = [x for x in subterms(news[base].info[1])] if base in news else []
                if any(x[0] == "ret" and callof(sg, x, "strlen", e.args[1]) or x[0] == "f" and x[1] == "strlen" and e.args[1] in x for x in ls):
                    d = const(p - pp([x for x in ls if x[0] in ("ret", "f")][0])) if p is not None else None
                    R.check(d is None or d >= 1, "bound", e.where(), "%s:%s" % (e.fn.q, q), "%s makes no room for the terminator of the text it copies" % e.fn.q)
                    continue
            R.check(ln is not None and cap is not None and ln < cap, "bound", e.where(), "%s:%s" % (e.fn.q, q), "%s fills its buffer%s by %s, whatever the length of the text" % (e.fn.q, " of %s bytes" % cap if cap is not None else "", q))
            continue
        if q == "H5Tset_size" and len(e.args or ()) > 1:
            n += 1
            v = e.args[1]
            var = v[0] == "c" and v[1] in (-1, 2 ** 64 - 1)
            if v[0] == "c" and not var:
                R.bad("h5", e.where(), "%s" % e.fn.q, "%s stores texts in %s bytes, and cuts longer ones" % (e.fn.q, v[1]))
            elif var:
                R.ok("h5", "%s: texts of any length" % e.fn.q)
            else:
                R.assume("%s: the size %s of stored texts" % (e.fn.q, show(v)))
            continue
        if q not in SINK or not e.args:
            continue
        bi, si = SINK[q]
        if bi >= len(e.args) or any(s >= len(e.args) for s in si):
            continue
        dst = e.args[bi]
        size = Poly.const(1)
        for s in si:
            p = pp(e.args[s])
            size = None if p is None or size is None else size * p
        if q == "ctime_r":
            size = Poly.const(26)
        if dst[0] == "c":
            continue
        n += 1
        cap, base = capacity(dst)
        key = "%s:%s:%s" % (e.fn.q, q, show(base)[:40])
        if cap is None or size is None:
            R.count("buffers of unknown size", 1)
        else:
            d = const(cap - size)
            if d is None and const(cap) is not None:
                most = atmost(sg, e.n, size)
                src = {y[0] for k in size.m for (a, x) in k for y in subterms(a[1])}
                if most is not None:
                    d = const(cap) - most
                elif src & {"out", "ret"}:
                    R.bad("fits", e.where(), key, "%s lets %s fill %s, whose %s bytes are fixed, with a number of bytes that has no bound" % (e.fn.q, q, show(base), const(cap)))
                    continue
            if d is None:
                R.count("buffers not compared", 1)
            else:
                R.check(d >= 0, "fits", e.where(), key, "%s lets %s fill %s bytes more than its buffer has" % (e.fn.q, q, -d), sample="%s: %s to %s" % (e.fn.q, q, show(base)))
        if q in RAW and base[0] in ("loc", "new"):
            raw.setdefault(base, []).append((e, size, cap))
        if q == "snprintf" and e.args[2][0] == "s":
            sz = const(size) if size is not None else None
            ln = lenmax(e.args[2][1], e.args[3:], sg, bytes_of)
            looked = ("ret", e.n) in usedret or ("ret", e.n) in sized
            if sz is not None:
                R.check(ln is not None and ln < sz or looked, "cut", e.where(), key, "%s formats %r to %d bytes: a longer text is cut without an error" % (e.fn.q, e.args[2][1], sz),
                        sample="%s: %r gives at most %s" % (e.fn.q, e.args[2][1], ln))
            elif size is not None and not measured(sg, e, size):
                R.assume("%s: the size %s for %r" % (e.fn.q, show(e.args[1]), e.args[2][1]))
        elif q == "snprintf" and size is not None and const(size) is None:
            R.check(measured(sg, e, size) is not False, "cut", e.where(), key, "%s formats to a buffer with no room for the whole text and its end" % e.fn.q, sample="%s: room for the measured text" % e.fn.q)
        elif q == "snprintf":
            R.check(("ret", e.n) in usedret or ("ret", e.n) in sized, "cut", e.where(), key, "%s formats to a buffer of fixed size, and a longer text is cut without an error" % e.fn.q)
        if q in ("strncpy", "strlcpy") and e.args[1][0] != "s" and const(size) is not None:
            R.check(False, "cut", e.where(), key + ":cut", "%s copies a text of any length to %s bytes: a longer one is cut without an error" % (e.fn.q, const(size)))
    # termination
    for base, es in sorted(raw.items(), key=repr):
        texts = []
        for e in sg.events:
            if e.kind != "call" or e.inl is not None or not e.args:
                continue
            for k, a in enumerate(e.args):
                b = a[1] if a[0] == "el" and a[2] == ("c", 0) else a
                if b == base and astext(P, e, k):
                    texts.append(e)
        g, v = decls.get(base, (None, None))
        for e, size, cap in es:
            for t in texts:
                if t.n not in sg.reach([e.n]) or t.n == e.n:
                    continue
                zero = v is not None and (v.get("init", -1) is not None and v.get("init", -1) >= 0 and zeroinit(sg, g, v, base)) or any(w.kind == "write" and w.loc is not None and w.loc[0] == "el" and w.loc[1] == base and w.val == ("c", 0) for w in sg.events)
                room = None if cap is None or size is None else const(cap - size)
                R.check(zero and (room is None or room >= 1), "ends", e.where(), "%s:%s" % (e.fn.q, show(base)), "%s uses what %s put to %s as text, which has no terminator%s" % (e.fn.q, e.q, show(base), "" if zero else ": it is not cleared before"),
                        sample="%s: %s is cleared and has room" % (e.fn.q, show(base)))
                break
    # an index given by how much was read
    for e in sg.events:
        if e.kind != "write" or e.loc is None or e.loc[0] != "el" or e.loc[1] not in decls:
            continue
        g, v = decls[e.loc[1]]
        if not v.get("asize") or not isinstance(e.loc[2], tuple):
            continue
        i = e.loc[2]
        asz = int(v["asize"])
        if i[0] == "c" and isinstance(i[1], int):
            R.check(0 <= i[1] < asz, "fits", e.where(), "%s:%s" % (e.fn.q, show(e.loc)), "%s writes to element %d of %d" % (e.fn.q, i[1], asz))
        for r, size, cap in raw.get(e.loc[1], ()):
            if i == ("ret", r.n) and const(size) is not None and const(size) >= asz:
                R.bad("fits", e.where(), "%s:%s" % (e.fn.q, show(e.loc)), "%s writes behind the %d bytes of %s when it was filled" % (e.fn.q, asz, show(e.loc[1])))
    return n


def fieldtype(P, q):
    for r in getattr(P, "records", {}).values():
        for x in r.get("fields", ()):
            if "%s::%s" % (r.get("q"), x.get("name")) == q:
                return x.get("t")
    return None


def callof(sg, r, q, arg):
    return any(c.kind == "call" and c.n == r[1] and c.q == q and c.args and c.args[0] == arg for c in sg.events)


def ctor(sg, g, loc, v):
    """The constructor call of a local."""
    i = v.get("init", -1)
    sub, st = set(), [i]
    while st:
        j = st.pop()
        if j is None or j < 0 or j in sub:
            continue
        sub.add(j)
        st.extend(g.nodes[j]["c"])
    return next((e for e in sg.events if e.kind == "call" and e.fn is g and e.ctx == loc[1] and e.nid in sub and e.q.endswith("::vector")), None)


def resized(sg, loc):
    return any(e.kind == "call" and e.obj == loc and e.q.split("::")[-1] in ("resize", "clear", "assign", "swap", "pop_back", "push_back", "erase", "insert") for e in sg.events)


def zeroinit(sg, g, v, base):
    if "vector<" in v["t"]:
        c = ctor(sg, g, base, v)
        return c is not None
    return True


def measured(sg, e, size):
    """The size is what an earlier snprintf of the same text measured, and one for the end."""
    for x in subterms(e.args[1]):
        if x[0] == "ret":
            c = next((y for y in sg.events if y.kind == "call" and y.n == x[1]), None)
            if c is not None and c.q == "snprintf" and c.args[0][0] == "c" and c.args[2:] == e.args[2:]:
                d = const(size - Poly.atom(("t", x)))
                return d is not None and d >= 1
    return None


def astext(P, e, k):
    """Argument k of the call is read up to a terminator."""
    q = e.q
    last = q.split("::")[-1]
    if q in ("strlen", "strcmp", "strdup", "strcpy", "strcat", "strchr", "strstr", "atoi", "atof", "strtol", "strtod", "fopen", "puts", "perror", "strcasecmp", "sscanf"):
        return True
    if q in PRINT or q in LUA:
        return k >= 2
    nd = e.fn.nodes[e.nid] if e.nid is not None and e.nid >= 0 else {}
    if last in ("basic_string", "append", "assign") and q.startswith("std::"):
        a = nd.get("args", ())
        nx = e.args[k + 1] if k + 1 < len(e.args) else None
        if nx is None:
            return True
        t = e.fn.nodes[a[k + 1]].get("t", "") if k + 1 < len(a) else ""
        return "allocator" in t
    if last in ("operator=", "operator+=", "operator+", "operator==", "operator<<") and "char" in "".join(e.fn.nodes[a].get("t", "") for a in nd.get("args", ())):
        return True
    g = P.fns.get(e.key)
    if g is not None and k < len(g.params) and ctype(g.params[k]["t"]).replace(" ", "") == "char*":
        return not any(p["t"] in ("size_t", "int", "unsigned long") for p in g.params[k + 1:k + 2])
    return False


# ---------------------------------------------------------------- file-name patterns
def pattern(P, R, fs):
    """Who hands a pattern to Space::save or Space::open_file."""
    n = 0
    for f in fs:
        for i, nd in enumerate(f.nodes):
            if not nd.get("callee") or cname(P, nd, f) not in ("Space::save", "Space::open_file") or not nd.get("args"):
                continue
            n += 1
            a = strip(f, nd["args"][0])
            x = f.nodes[a]
            if x["k"] == "CXXMemberCallExpr" and cname(P, x, f).split("::")[-1] in ("c_str", "data"):
                a = strip(f, x["obj"])
                x = f.nodes[a]
            if literal(P, f, a) is not None:
                R.ok("pattern", "%s: constant text" % f.q)
                continue
            # the documented pattern of a script
            src = source(P, f, a)
            if src == "script":
                R.ok("pattern", "%s: the pattern of a script" % f.q)
                continue
            if x["k"] != "DeclRefExpr" or not x.get("d", "").startswith("l:"):
                bad = embeds(P, f, a)
                if bad:
                    R.bad("pattern", f.where(i), "%s:%s" % (f.q, bad), "%s puts %s into a file-name pattern as it is: a %% in it is taken for a conversion" % (f.q, bad))
                else:
                    R.assume("%s: the file-name pattern is not resolved" % f.q)
                continue
            g = f
            if not any(v["d"] == x["d"] for nd2 in f.nodes for v in nd2.get("vars", ())):
                # a variable of the function around the lambda
                g = next((h for h in fs if h is not f and h.file == f.file and h.line <= f.line and f.endline <= h.endline and any(v["d"] == x["d"] for nd2 in h.nodes for v in nd2.get("vars", ()))), None)
                if g is None:
                    R.assume("%s: the file-name pattern is not resolved" % f.q)
                    continue
                v = next(v for nd2 in g.nodes for v in nd2.get("vars", ()) if v["d"] == x["d"])
                if v.get("init", -1) >= 0 and source(P, g, v["init"]) == "script":
                    R.ok("pattern", "%s: the pattern of a script" % f.q)
                    continue
            judge(P, R, g, i if g is f else g.body or 0, x["d"], x.get("name"))
    R.need(n, 2, "uses of a file-name pattern")


def source(P, f, a, depth=0):
    x = f.nodes[strip(f, a)]
    if x.get("callee") and cname(P, x, f) in ("luaL_checklstring", "lua_tolstring", "luaL_optlstring"):
        return "script"
    if x["k"] == "DeclRefExpr" and depth < 3:
        for nd in f.nodes:
            for v in nd.get("vars", ()):
                if v["d"] == x.get("d") and v.get("init", -1) >= 0:
                    return source(P, f, v["init"], depth + 1)
    return None


def embeds(P, f, a):
    """A text quantity under node a."""
    st, seen = [a], set()
    while st:
        j = st.pop()
        if j in seen or j is None or j < 0:
            continue
        seen.add(j)
        nd = f.nodes[j]
        if nd["k"] == "MemberExpr" and "string" in nd.get("t", "") and "fn" not in nd:
            return nd.get("m")
        if nd["k"] == "DeclRefExpr" and ("string" in nd.get("t", "") or nd.get("t", "").replace("const ", "") in ("char *",)) and "fn" not in nd:
            return nd.get("name")
        g = P.fns.get(nd.get("callee") or "")
        if g is not None and g.nodes and any(x["k"] == "CharacterLiteral" and (x.get("cv") == "37" or x.get("v") == 37) or x["k"] == "StringLiteral" and x.get("s") == "%%" for x in g.nodes):
            continue        # escapes it
        st.extend(nd["c"])
    return None


def judge(P, R, f, i, d, name):
    """The pattern is a local text: everything but constant text goes in character by character, with % doubled."""
    sg = SG(P, f, inline=lambda g, c: False, maxdepth=1)
    loc = ("loc", 0, d)
    chars, whole, pairs = [], [], []
    init = next((v for nd in f.nodes for v in nd.get("vars", ()) if v["d"] == d), None)
    if init is not None and init.get("init", -1) >= 0:
        b = embeds(P, f, init["init"])
        if b:
            whole.append((f.where(i), b))
    for e in sg.events:
        if e.kind != "call" or e.obj != loc or e.q.split("::")[-1] not in ("operator+=", "append", "push_back", "insert", "assign", "operator="):
            continue
        nd = f.nodes[e.nid]
        args = [a for a in nd.get("args", ())]
        if nd["k"] == "CXXOperatorCallExpr" and len(args) == 2:
            args = args[1:]
        if not args:
            continue
        a = args[-1]
        t = ctype(f.nodes[a].get("t", ""))
        if t in ("char",):
            chars.append(e)
        elif literal(P, f, a) is not None:
            if literal(P, f, a) == ["%%"]:
                pairs.append(e)
            continue
        else:
            b = embeds(P, f, a)
            whole.append((e.where(), b or "a text"))
    for w, b in whole:
        R.bad("pattern", w, "%s:%s" % (f.q, b), "%s puts %s into a file-name pattern as it is: a %% in it is taken for a conversion" % (f.q, b))
    doubled = plain = False
    for e in chars:
        g = [(b, l) for b, l in guards(sg, e.n)]
        per = [(b, l) for b, l in g if any(x == ("c", 37) for x in subterms(b.val))]
        if per and pairs and any((b.val[1] == "==") != bool(l[1]) for b, l in per if b.val[0] == "op" and b.val[1] in ("==", "!=")):
            plain = True        # the others, and a pair for each %
            doubled = doubled or any(x == ("c", 37) and (b.val[1] == "==") == bool(l[1]) for y in pairs for b, l in guards(sg, y.n) if b.val[0] == "op" for x in b.val[2:])
        elif per:
            doubled = doubled or any((b.val[1] == "==") == bool(l[1]) for b, l in per if b.val[0] == "op" and b.val[1] in ("==", "!="))
        else:
            plain = True
    if chars:
        R.check(doubled and plain, "pattern", chars[0].where(), f.q, "%s copies a text into a file-name pattern without doubling %%" % f.q, sample="%s: %% is doubled" % f.q)
    elif not whole:
        R.ok("pattern", "%s: constant text" % f.q)
