"""C05 raw layouts: described layouts are those of the objects in memory."""
import re
from vv.h5 import *

TECHNIQUE = "layout queries: described offsets, sizes and strides (value numbering) against the compiler's record layouts"
NOTE = """Offsets, sizes, memory types, strides and raw byte counts of every transfer are resolved by value numbering over the
inlined callers and compared with clang's record layouts for the target. Trusts the HDF5 library's definition of its types."""

SCAL = {"H5T_NATIVE_DOUBLE_g": "double", "H5T_IEEE_F64LE_g": "double", "H5T_NATIVE_FLOAT_g": "float", "H5T_IEEE_F32LE_g": "float",
        "H5T_NATIVE_INT_g": "int", "H5T_NATIVE_INT32_g": "int", "H5T_STD_I32LE_g": "int",
        "H5T_NATIVE_UINT_g": "unsigned int", "H5T_NATIVE_UINT32_g": "unsigned int", "H5T_STD_U32LE_g": "unsigned int",
        "H5T_NATIVE_UINT64_g": "unsigned long", "H5T_STD_U64LE_g": "unsigned long", "H5T_NATIVE_INT64_g": "long", "H5T_STD_I64LE_g": "long"}
SIZE = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": 1, "signed char": 1, "unsigned char": 1,
        "short": 2, "unsigned short": 2, "bool": 1}
# the documented place of each component
ORDER = {"TVec": ["x", "y"], "TVec3D": ["x", "y", "o"], "TTime": ["value", "timescale"]}
ALIAS = {"int32_t": "int", "uint32_t": "unsigned int", "float": "float", "double": "double", "uint64_t": "unsigned long", "hsize_t": "unsigned long"}


def canon(t):
    t = base_type(t)
    t = ALIAS.get(t, t)
    t = re.sub(r"\bconst\b", "", t)
    return re.sub(r"\s+", " ", t).strip().replace(" *", "*")


def leaf_offsets(P, t, pre="", off=0):
    """[(leaf name, offset, size, type)] of a record."""
    out = []
    r = P.records[t]
    for b in r["bases"]:
        out += leaf_offsets(P, base_type(b["t"]), pre, off + b.get("offset", 0))
    for f in r["fields"]:
        ft = canon(f["t"])
        if ft in P.records and not f["t"].endswith("*"):
            out += leaf_offsets(P, ft, pre + f["name"] + ".", off + f["offset"])
        else:
            out.append((pre + f["name"], off + f["offset"], f["size"], ft))
    return out


def sizeof(P, t):
    t = canon(t)
    if t in SIZE:
        return SIZE[t]
    if t.endswith("*"):
        return 8
    if t in P.records:
        return P.records[t]["size"]
    m = re.match(r"std::array<(.*), (\d+)>$", t)
    if m:
        s = sizeof(P, m.group(1))
        return s and s * int(m.group(2))
    m = re.match(r"(.*?)\s*((?:\[\d+\])+)$", t)
    if m:
        s = sizeof(P, m.group(1))
        for d in re.findall(r"\[(\d+)\]", m.group(2)):
            s = s and s * int(d)
        return s
    return None


def dtype(sg, t):
    """C++ types a memory-type argument denotes."""
    out = set()
    st, seen = list(sg.expand(t)), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == "phi":
            st += sg.expand(x)
            continue
        g = None
        for y in subterms(x):
            if y[0] == "g":
                g = y[1]
        if x[0] in ("ld", "g") and g:
            n = g[2:].split("@")[0]
            m = re.match(r"h5t<(.*)>::id$", n)
            out.add(canon(m.group(1)) if m else SCAL.get(n.split("::")[-1], "?" + n))
        elif x[0] == "ret":
            nd = sg.nodes[x[1]]
            c = nd.fn.nodes[nd.nid].get("callee") or ""
            m = re.match(r"_ZN3h5tI(?:(\d+)(\w+?)|(PKc)|([ijd]))E4initEv", c)
            if m:
                out.add(canon(m.group(2)[:int(m.group(1))] if m.group(2) else {"PKc": "char*", "i": "int", "j": "unsigned int", "d": "double"}[m.group(3) or m.group(4)]))
            # result of a constructor of the type itself: described by the globals it is stored in
        elif x == ("c", -1) or x[0] == "undef":
            pass
    return out


def num(t):
    return t[1] if t[0] == "c" and isinstance(t[1], (int, float)) else None


def run(P, R, tier):
    R.rule("composite", "the described members of a composite type are the members of the object, at their offsets, with its size")
    R.rule("members", "every member of the object is described")
    R.rule("scalar", "the type id of a scalar denotes that scalar type")
    R.rule("buffer", "the declared memory type of a transfer is the type of the transferred buffer")
    R.rule("rows", "rows of a raw transfer have the number of components of the row object")
    R.rule("stride", "particles are transferred by position and strength at the stride of the particle object")
    R.rule("bytes", "raw byte counts cover exactly the object they are read into or written from")
    composites(P, R)
    transfers(P, R)
    raw(P, R)


def composites(P, R):
    n = 0
    for f in sorted(P.by_q.get("h5t::init", []), key=lambda f: f.key):
        m = re.search(r"h5tI(\d+)(\w+)E4initEv$", f.key)
        if not m or not f.blocks:
            continue
        T = m.group(2)[:int(m.group(1))]
        if T not in P.records:
            continue
        sg = SG(P, f, inline=inline(), maythrow=may_throw)
        h = H5(sg)
        cr = [e for e in sg.calls({"H5Tcreate"})]
        for e in cr:
            R.check(num(e.args[1]) == P.records[T]["size"] or "sizeof" in show(e.args[1]) and T in show(e.args[1]), "composite", e.where(), T + " size",
                    "%s is described with %s bytes, the object has %d" % (T, show(e.args[1]), P.records[T]["size"]))
        leaves_ = leaf_offsets(P, T)
        seen = {}
        for e in sg.calls({"H5Tinsert"}):
            nm = h.name(e.args[1])
            off = num(e.args[2])
            cand = [l for l in leaves_ if l[0].split(".")[-1] == nm]
            if off is None and e.args[2][0] == "f" and e.args[2][1] == "offsetof":
                pth = e.args[2][3][1]
                o = [l for l in leaves_ if l[0] == pth or l[0].replace(".", "") == pth.replace(".", "")]
                off = o[0][1] if o else None
            ts = dtype(sg, e.args[3])
            ok = len(cand) == 1 and cand[0][1] == off and ts == {cand[0][3]}
            n += 1
            R.check(ok, "composite", e.where(), "%s.%s" % (T, nm), "member %s of %s is described at offset %s as %s; in the object it is at %s as %s" %
                    (nm, T, off, sorted(ts), cand[0][1] if cand else "?", cand[0][3] if cand else "?"))
            if cand:
                seen[cand[0][0]] = e.n
        for l in leaves_:
            nm = l[0].split(".")[-1]
            hit = l[0] in seen
            if hit:     # on every path that publishes a new id
                for w in sg.writes(lambda w: w.loc[0] == "g" and "::id" in w.loc[1] and w.val[0] != "c"):
                    hit = hit and any(sg.must_pass(c.n, w.n, {seen[l[0]]}) for c in cr)
            R.check(hit, "members", f.where(), "%s.%s" % (T, nm), "member %s of %s is not described on every path" % (nm, T))
        for nm in ORDER.get(T, []):
            R.check(any(l.split(".")[-1] == nm for l in seen), "members", f.where(), "%s has %s" % (T, nm), "%s has no member named %s" % (T, nm))
        # the published id is the described type
        for w in sg.writes(lambda w: w.loc[0] == "g" and "::id" in w.loc[1]):
            m2 = re.match(r"g:h5t<(.*)>::id", w.loc[1])
            R.check(m2 and canon(m2.group(1)) == T, "composite", w.where(), T + " id", "the description of %s is published as %s" % (T, w.loc[1]))
    R.need(n, 7, "described members")
    for k, g in sorted(P.globals.items()):
        m = re.match(r"g:h5t<(.*)>::id", k)
        if not m or canon(m.group(1)) not in SIZE:
            continue
        T = canon(m.group(1))
        js = str([n.get("d") for n in g["nodes"]])
        ns = set(re.findall(r"H5T_\w+_g", js))
        ns = {x for x in ns if x in SCAL}
        ok = not ns or {SCAL[x] for x in ns} == {T}
        R.check(ok, "scalar", rel_(g), T, "the id of %s is %s" % (T, sorted(ns)))


def rel_(g):
    from vv.prog import rel
    return "%s:%s" % (rel(g.get("file") or g.get("unit") or "?"), g.get("line", 0))


def roots(P):
    out = [P.fn("Space::save"), P.fn("Space::load")]
    out += [f for f in P.by_q.get("Stepdata::Stepdata", []) if f.blocks and len(f.params) >= 3]
    out += [f for f in P.by_q.get("Stepdata::write", []) if f.blocks]
    return out


def tobj_row(P):
    """leaves of a particle in memory order as doubles"""
    return [(l[0], l[1]) for l in leaf_offsets(P, "TObj")]


def transfers(P, R):
    n = 0
    for f in roots(P):
        sg = SG(P, f, inline=inline(), maythrow=may_throw)
        h = H5(sg)
        for e in sg.calls({"H5Dread", "H5Dwrite", "H5Aread", "H5Awrite"}):
            bi = 5 if e.q[2] == "D" else 2
            nd = e.fn.nodes[e.nid]
            a = e.fn.strip(nd["args"][bi])
            bt = canon(e.fn.nodes[a]["t"])
            bt = canon(bt[:-1]) if bt.endswith("*") else bt
            if bt == "void":
                lt = loc_type(sg, e.args[bi])
                bt = canon(lt) if lt else "?"
            ts = dtype(sg, e.args[1])
            sc = canon(scalar_of(bt))
            nm = None
            for o in h.call_of(e.args[0], "H5"):
                nm = h.name(o.args[1])
            key = "%s %s %s<%s" % (f.q, e.q, nm or "", bt)
            n += 1
            if "TObj" in bt:
                R.check(ts == {"double"}, "buffer", e.where(), key, "particles are transferred as %s" % sorted(ts))
                stride(P, R, sg, h, e, key)
                continue
            R.check(ts <= {sc, bt} and bool(ts) or "?" in bt, "buffer", e.where(), key, "buffer of %s is transferred as %s" % (bt, sorted(ts)))
            # row objects
            m = re.match(r"std::array<\w+, (\d+)>$|.*\[(\d+)\]$", bt)
            if m and e.q in ("H5Dread", "H5Dwrite") and e.args[bi][0] == "el":
                k = int(m.group(1) or m.group(2))
                if e.q == "H5Dwrite":
                    for o in h.call_of(e.args[0], "H5Dcreate"):
                        for s in h.call_of(o.args[3], "H5Screate_simple"):
                            d1 = sg.load(prestate(sg, s.n), ("el", s.args[1], ("c", 1)))
                            R.check(num(d1) == k, "rows", e.where(), key, "rows of %d values are written to a dataset with %s columns" % (k, show(d1)))
                else:
                    R.check(col_guard(sg, h, e, k), "rows", e.where(), key, "rows of %d values are read without checking that the dataset has %d columns" % (k, k))
    R.need(n, 60, "raw transfers")


def col_guard(sg, h, e, k):
    """A check of the number of columns against k lies on every path to the read."""
    for g in sg.events:
        if g.kind != "br":
            continue
        for t in subterms(g.val):
            if t[0] == "op" and t[1] in ("==", "!=") and ("c", k) in t[2:]:
                if any("H5Sget_simple_extent_dims" in _q(sg, y) for z in t[2:] for y in subterms(z)):
                    fail = [s for s, l in sg.nodes[g.n].succ if l == ("br", t[1] == "!=")]
                    if e.n not in sg.reach(fail) and sg.must_pass(sg.entry.i, e.n, {g.n}):
                        return True
    return False


def cols(sg, h, e, t):
    """Number of columns a term stands for: a constant, or the checked extent of the dataset."""
    if num(t) is None and any("H5Sget_simple_extent_dims" in _q(sg, y) for x in sg.expand(t) for y in subterms(x)):
        return 3 if col_guard(sg, h, e, 3) else None
    return num(t)


def _q(sg, y):
    if y[0] == "out" and isinstance(y[1], int):
        nd = sg.nodes[y[1]]
        c = nd.fn.nodes[nd.nid].get("callee")
        return (nd.fn.decls.get(c) or {}).get("q", "")
    return ""


def stride(P, R, sg, h, e, key):
    size = P.records["TObj"]["size"]
    row = tobj_row(P)
    mems = h.call_of(e.args[2], "H5Screate_simple")
    if not mems:
        R.bad("stride", e.where(), key, "particles are transferred without a described stride")
        return
    for s in mems:
        st = prestate(sg, s.n)
        m = cols(sg, h, e, sg.load(st, ("el", s.args[1], ("c", 1))))
        d0 = sg.load(st, ("el", s.args[1], ("c", 0)))
        for c in sg.calls("H5Sselect_hyperslab"):
            if not any(x.n == s.n for x in h.call_of(c.args[0], "H5Screate_simple")):
                continue
            st = prestate(sg, c.n)
            g = lambda i, j: sg.load(st, ("el", c.args[i], ("c", j)))
            off = [num(g(2, 0)), num(g(2, 1))]
            k = [num(g(3, 0)), num(g(3, 1))]
            cnt1 = g(4, 1)
            w = cols(sg, h, e, cnt1)
            ok = off == [0, 0] and k[1] == 1 and k[0] and m and k[0] * m * 8 == size
            R.check(ok, "stride", c.where(), key, "particles are selected from %s every %s rows of %s values; a particle has %d bytes" % (off, k, m, size))
            R.check(w == 3, "stride", c.where(), key + " width", "%s values are transferred per particle" % show(cnt1))
            names = [l for l, o in row if o < 8 * (w or 0)]
            R.check(names == ["r.x", "r.y", "g"] and [o for l, o in row][:3] == [0, 8, 16], "stride", c.where(), key + " order",
                    "the values transferred per particle are %s" % names)
            # the described memory covers every particle: k rows each
            cnt0 = g(4, 0)
            d0n = d0[0] == "op" and d0[1] == "*" and ("c", k[0]) in d0[2:] and cnt0 in d0[2:]
            d0n = d0n or d0 == cnt0 and k[0] == 1
            R.check(d0n, "stride", c.where(), key + " extent", "memory of %s rows is described for %s particles" % (show(d0), show(cnt0)))


def raw(P, R):
    """read(p, n) / write(p, n) of streams and fread/fwrite: n is the size of what p points to."""
    n = 0
    names = {"std::basic_istream::read": (0, 1), "std::basic_ostream::write": (0, 1), "fread": (0, (1, 2)), "fwrite": (0, (1, 2)),
             "memcpy": None}
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if "/libvvhd/" not in f.file and "/utils/" not in f.file or f.file.endswith("linenoise.c"):
            continue
        sg = None
        for nid, nd, d in f.calls():
            q = (d or {}).get("q")
            gen = d and nd.get("callee") in P.fns and [canon(x) for x in d.get("params", [])] in (["void*", "unsigned long"], ["void*", "size_t"])
            if not gen and (q not in names or names[q] is None or q in ("fread", "fwrite")):
                continue
            a = f.strip(nd["args"][0])
            t = canon(f.nodes[a]["t"])
            inner = f.nodes[a]
            single = None
            if inner["k"] == "UnaryOperator" and inner.get("op") == "&":
                c0 = f.nodes[f.strip(inner["c"][0])]
                if c0["k"] in ("DeclRefExpr", "MemberExpr"):
                    single = canon(c0["t"])
                else:
                    t = canon(c0["t"]) + "*"
            if t in ("void*", "char*") and single is None or re.match(r"(unsigned )?char( ?\[\d+\])?\*?$", single or t):
                continue
            if sg is None:
                try:
                    sg = SG(P, f)
                except AnalysisError:
                    break
            ev = [e for e in sg.calls(q) if e.nid == nid]
            if not ev:
                continue
            v = ev[0].args[1]
            n += 1
            key = "%s %s" % (f.q, single or t)
            if single:
                sz = sizeof(P, single)
                k = num(v)
                ok = k is not None and k == sz
                if not ok and k is not None and single in P.records:
                    # a prefix of the object that ends at a member boundary, holding exactly position and strength
                    pre = [l for l in leaf_offsets(P, single) if l[1] + l[2] <= k]
                    ok = sum(l[2] for l in pre) == k and (single != "TObj" or [l[0] for l in pre] == ["r.x", "r.y", "g"])
                R.check(ok, "bytes", f.where(nid), key, "%s bytes are transferred to or from a %s of %s bytes" % (show(v), single, sz))
            else:
                et = elem_type(t) or t
                ez = sizeof(P, et)
                ok = ez and (num(v) is not None and num(v) % ez == 0 or factor(v, ez))
                am = re.match(r".*\[(\d+)\]$", t)
                if am and num(v) is not None:
                    ok = num(v) == sizeof(P, t)
                for y in f.walk(nd["args"][1]):
                    if f.nodes[y]["k"] == "UnaryExprOrTypeTraitExpr" and f.nodes[y].get("argt"):
                        ok = ok and sizeof(P, f.nodes[y]["argt"]) in ((ez, sizeof(P, t)) if am else (ez,))
                R.check(ok, "bytes", f.where(nid), key, "%s bytes are transferred to or from elements %s of %s bytes" % (show(v), et, ez))
    R.need(n, 8, "raw byte transfers")


def factor(v, k):
    if v[0] == "c":
        return isinstance(v[1], int) and v[1] % k == 0
    if v[0] == "op" and v[1] == "*":
        return any(factor(x, k) for x in v[2:]) or False
    if v[0] == "op" and v[1] in ("+", "-"):
        return all(factor(x, k) for x in v[2:])
    return False
