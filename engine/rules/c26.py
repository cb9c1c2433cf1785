"""C26 the extraction tool prints the quantity that was asked for."""
import math, re
from vv.lib import *
from vv.luaattr import DOC

TECHNIQUE = "value-flow analysis of every printed line: the key in the (evaluated) format against the access path of the value printed, and exit status on every failure path"
NOTE = """Decides, for every key that the tool prints, that the value printed is the member that scripts and snapshots know under that name (all components, in order, of the body
addressed), that the header and cells of extracted data address the same data set, row and column, and that an unreadable file or data set ends the tool with a non-zero status. Number formatting is not judged."""

SPEC = re.compile(r"%(?:%|[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z])")
HEADER = {"caption": "caption", "created": "time_local", "version": "git_info", "git_rev": "git_rev", "git_diff": "git_diff"}
LISTS = {"body_list", "vort_list", "sink_list", "streak_source_list", "streak_domain_list"}
METHODS = {"get_axis": 2, "get_cofm": 2, "get_slen": 1, "get_area": 1, "get_moi_cofm": 1, "get_moi_axis": 1}


def flat(sg, args):
    """[text or ('v', term)]: the format with constant strings put in."""
    fm = args[0]
    if fm[0] != "s":
        return None
    out, i, k = [], 0, 1
    s = fm[1]
    for m in SPEC.finditer(s):
        if m.start() > i:
            out.append(s[i:m.start()])
        i = m.end()
        if m.group(0) == "%%":
            out.append("%")
            continue
        if k >= len(args):
            return None
        a = args[k]
        k += 1
        if m.group(0).endswith("s") and a[0] == "s":
            out.append(a[1])
        else:
            out.append(("v", a, m.group(0)))
    if i < len(s):
        out.append(s[i:])
    j = []
    for x in out:
        if isinstance(x, str) and j and isinstance(j[-1], str):
            j[-1] += x
        else:
            j.append(x)
    return j


def vpath(t):
    """(base, member names) of a value."""
    while t[0] == "ld":
        t = t[1]
    if t[0] == "fv":
        q = t[2]
        q = (q,) if isinstance(q, str) else tuple(x for x in q if isinstance(x, str))
        return t[1], q
    out = []
    while t[0] == "fld":
        out.append(t[2])
        t = t[1]
        if t[0] == "ld" and t[1][0] == "fld" and not t[1][2].startswith(("Space::", "TBody::")):
            t = t[1]
    return t, tuple(reversed(out))


class Out:
    def __init__(self, P, R, sg):
        self.P, self.R, self.sg = P, R, sg
        self.call = {e.n: e for e in sg.events if e.kind == "call" and e.inl is None}
        self.seen = {}

    def bases(self, t):
        sg = self.sg
        out = set()
        for x in sg.expand(t):
            while x[0] == "ld" and False:
                x = x[1]
            if x[0] == "ld":
                y = sg.phis.get(x[1])
                if y:
                    out |= set(self.bases(("phi_", x[1])) if False else {("ld", z) for z in sg.expand(x[1])})
                    continue
            out.add(x)
        return frozenset(out)

    def body_of(self, t):
        """The bodies (resolved) whose members a value reads."""
        out = set()
        for x in subterms(t):
            if x[0] == "fld" and x[2].startswith("TBody::"):
                out |= self.bases(x[1])
            if x[0] == "ret" and x[1] in self.call:
                e = self.call[x[1]]
                if e.q.endswith("::get_body_name") and e.args:
                    out |= self.bases(e.args[0])
                elif e.obj is not None and e.q.startswith("TBody::"):
                    out |= self.bases(e.obj)
                elif e.obj is not None:
                    out |= self.body_of(e.obj)
        return out

    def addressed(self, t):
        out = set()
        for x in self.sg.expand(t):
            out |= self.body_of(x)
        return out

    def path_is(self, t, cls, want):
        """The value is the member path want (dotted) of an object of class cls."""
        for x in self.sg.expand(t):
            if x[0] == "ret" and x[1] in self.call and self.call[x[1]].obj is not None and "operator basic_string" in self.call[x[1]].q:
                x = self.call[x[1]].obj
            b, p = vpath(x)
            names = [q.split("::")[-1] for q in p]
            own = [i for i, q in enumerate(p) if q.startswith(cls + "::")]
            if not own:
                return False
            if names[own[-1]:] != want.split("."):
                return False
        return True

    def eq_num(self, t, leaf, f):
        """Term t computes f(v) of the member path leaf, whatever v."""
        for v in (1.0, -0.37):
            def env(x):
                if x[0] in ("ld", "fv"):
                    b, p = vpath(x)
                    if p and ".".join(q.split("::")[-1] for q in p).endswith(leaf):
                        return v
                    if x[0] == "ld" and x[1][0] == "g" and "C_PI" in x[1][1]:
                        return math.pi
                return None
            r = decide(t, env)
            if r is None or abs(r - f(v)) > 1e-9:
                return False
        return True

    def values(self, cls, kind, path, vals, e, key):
        R = self.R
        w = e.where()

        def want(i, leaf):
            if i >= len(vals):
                R.bad("value", w, key + " count", "%s prints only %d of its values" % (key, len(vals)))
                return
            R.check(self.path_is(vals[i], cls, leaf), "value", w, "%s %d" % (key, i + 1), "%s prints %s where %s.%s belongs" % (key, self.show(vals[i]), cls, leaf), "%s: %s.%s" % (key, cls, leaf))
        if kind in ("double", "string", "TEval", "int32"):
            want(0, path)
            n = 1
        elif kind == "TVec":
            want(0, path + ".x")
            want(1, path + ".y")
            n = 2
        elif kind == "TVec3D":
            want(0, path + ".r.x")
            want(1, path + ".r.y")
            want(2, path + ".o")
            n = 3
            if len(vals) > 3:
                n = 4
                R.check(self.eq_num(vals[3], path + ".o", lambda v: v * 180 / math.pi), "value", w, key + " degrees", "%s prints %s as degrees" % (key, self.show(vals[3])), "%s: degrees" % key)
        elif kind == "TTime":
            want(0, path + ".value")
            want(1, path + ".timescale")
            n = 2
            if len(vals) > 2:
                n = 3
                d = vals[2]
                ok = d[0] == "op" and d[1] == "/" and self.path_is(d[2], cls, path + ".value") and self.path_is(d[3], cls, path + ".timescale")
                if d[0] == "ret" and d[1] in self.call:
                    c = self.call[d[1]]
                    ok = c.q == "TTime::operator double" and c.obj is not None and self.path_is(c.obj, cls, path)
                R.check(ok, "value", w, key + " seconds", "%s prints %s as its value" % (key, self.show(d)), "%s: seconds" % key)
        else:
            return
        R.check(len(vals) <= n, "value", w, key + " count", "%s prints %d values, has %d" % (key, len(vals), n))

    def show(self, t):
        if t[0] == "ret" and t[1] in self.call:
            e = self.call[t[1]]
            return "%s(%s)" % (e.q, show(e.obj) if e.obj is not None else ",".join(show(a) for a in e.args))
        return show(t)[:80]


def run(P, R, tier):
    R.rule("value", "each printed key shows the member known under that name, every component in order")
    R.rule("object", "the body whose values are printed is the body whose name is printed")
    R.rule("key", "every documented attribute is printed")
    R.rule("header", "the general information shows the attribute of the file that it names")
    R.rule("cell", "extracted data: header and cells address the same data set, row and column, missing rows are blank")
    R.rule("status", "an unreadable file or data set, or one of another shape, ends the tool with a non-zero status")
    mains = [f for f in P.fns.values() if f.q == "main" and f.blocks and "/utils/vvxtract/" in f.file]
    R.need(len(mains), 1, "main functions of the tool")
    f = mains[0]
    sg = SG(P, f, inline=lambda g, c: g.file.endswith("vvxtract.cpp") or g.q == "TTime::operator double", maxdepth=6)
    O = Out(P, R, sg)
    seen = {}
    npr = 0
    for e in sg.events:
        if not (e.kind == "call" and e.inl is None and e.q in ("printf", "fprintf", "std::printf", "std::fprintf")):
            continue
        args = list(e.args)
        if e.q.endswith("fprintf"):
            if "stderr" in show(args[0]):
                continue
            args = args[1:]
        fl = flat(sg, args)
        if fl is None:
            R.assume("format at %s is not constant" % e.where())
            continue
        npr += 1
        keyline(P, R, O, sg, e, fl, seen)
    R.need(npr, 40, "printed lines")
    for obj, cls in (("S", "Space"), ("TBody", "TBody")):
        for a, (kind, path) in DOC[obj][1].items():
            if (obj, a) == ("S", "caption"):
                continue
            R.check((obj, a) in seen, "key", f.where(), "%s.%s" % (obj, a), "the tool does not print %s.%s" % (obj, a), "%s.%s" % (obj, a))
    for m in METHODS:
        R.check(("M", m) in seen, "key", f.where(), m, "the tool does not print %s()" % m, m)
    for h in HEADER:
        R.check(("H", h) in seen, "key", f.where(), "header " + h, "the tool does not print the %s" % h, h)
    cells(P, R, O, sg, f)
    status(P, R, sg, f)


def keyline(P, R, O, sg, e, fl, seen):
    vals = [x[1] for x in fl if not isinstance(x, str)]
    text = "".join(x if isinstance(x, str) else "\1" for x in fl)
    text = text.strip()
    m = re.match(r"^(\w+): \1?\x01?$", text)
    m = re.match(r"^(caption|created|version|git_rev|git_diff): \x01$", text)
    if m:
        seen[("H", m.group(1))] = 1
        c = O.call.get(vals[0][1]) if vals[0][0] == "ret" else None
        if c is None:
            R.assume("value at %s not resolved" % e.where())
            return
        R.check(len(c.args) > 1 and c.args[1] == ("s", HEADER[m.group(1)]), "header", e.where(), m.group(1), "%s shows the file attribute %s" % (m.group(1), show(c.args[1]) if len(c.args) > 1 else "?"), "%s: %s" % (m.group(1), HEADER[m.group(1)]))
        return
    m = re.match(r"^-- #S\.(\w+) = \x01", text)
    if m:
        a = m.group(1)
        seen[("S", a)] = 1
        d = DOC["S"][1].get(a)
        if not R.check(d is not None, "value", e.where(), "S." + a, "the tool prints an undocumented list %s" % a):
            return
        t = vals[0]
        ok = t[0] == "f" and t[1] == "size" and vpath(t[2])[1][-1:] == ("Space::" + d[1],)
        if t[0] == "ret" and t[1] in O.call:
            c = O.call[t[1]]
            ok = c.q.endswith("::size") and c.obj is not None and vpath(c.obj)[1][-1:] == ("Space::" + d[1],)
        R.check(ok, "value", e.where(), "S." + a, "the size of S.%s prints %s" % (a, O.show(t)), "#S.%s" % a)
        return
    m = re.match(r"^S\.(\w+) = ['{]?\x01", text)
    if m:
        a = m.group(1)
        seen[("S", a)] = 1
        d = DOC["S"][1].get(a)
        if R.check(d is not None, "value", e.where(), "S." + a, "the tool prints an undocumented attribute S.%s" % a):
            O.values("Space", d[0], d[1], vals, e, "S." + a)
        return
    m = re.match(r"^-- #\x01 = \x01", text)
    if m:
        t = vals[1]
        c = O.call.get(t[1]) if t[0] == "ret" else None
        ok = c is not None and c.q == "TBody::size" or t[0] == "f" and t[1] == "size" and vpath(t[2])[1][-1:] == ("TBody::alist",)
        R.check(ok, "value", e.where(), "#body", "the number of segments prints %s" % O.show(t), "#body")
        same(R, O, e, vals[0], vals[1:], "#body")
        return
    m = re.match(r"^-- \x01\.(get_\w+)\(\) = (.*)", text)
    if m:
        name = m.group(1)
        seen[("M", name)] = 1
        n = METHODS.get(name)
        if not R.check(n is not None, "value", e.where(), name, "the tool prints an unknown property %s()" % name):
            return
        got = vals[1:]
        R.check(len(got) == n, "value", e.where(), name + " count", "%s() prints %d values" % (name, len(got)))
        for i, t in enumerate(got[:n]):
            comp = None
            x = t
            while x[0] in ("ld", "fld", "fv"):
                if x[0] == "fld":
                    comp = x[2]
                if x[0] == "fv":
                    comp = x[2] if isinstance(x[2], str) else x[2][-1]
                x = x[1]
            c = O.call.get(x[1]) if x[0] == "ret" else None
            if x[0] == "f" and "TBody" in x[1]:
                c = None
            if c is None:
                R.assume("value at %s not resolved" % e.where())
                continue
            R.check(c.q == "TBody::" + name and (n == 1 or comp == ("TVec::x", "TVec::y")[i]), "value", e.where(), "%s %d" % (name, i + 1), "%s() prints %s%s" % (name, c.q, " " + comp if comp else ""), "%s" % name)
        same(R, O, e, vals[0], got, name)
        return
    m = re.match(r"^\x01\.(\w+) = (.*)", text)
    if m and vals:
        a = m.group(1)
        d = DOC["TBody"][1].get(a)
        if not R.check(d is not None, "value", e.where(), "body." + a, "the tool prints an undocumented attribute %s of a body" % a):
            return
        if a == "root":
            seen[("TBody", a)] = 1
            g = guards(sg, e.n)
            exp = None
            for b, l in g:
                for x in subterms(b.val):
                    if x[0] == "ret" and x[1] in O.call and O.call[x[1]].q.endswith("::expired"):
                        t = decide(b.val, lambda y, x=x: 1 if y == x else None)
                        u = decide(b.val, lambda y, x=x: 0 if y == x else None)
                        if t is not None and u is not None and bool(t) != bool(u):
                            exp = bool(t) == l[1]
            if exp is not None:
                R.check(exp == (len(vals) == 1 and "nil" in text), "value", e.where(), "root %s" % ("nil" if len(vals) == 1 else "label"), "a body %s root prints %s" % ("without a" if exp else "with a", text.replace("\1", "...")), "root")
            if len(vals) > 1:
                for x in sg.expand(vals[1]):
                    ok = any(y[0] == "fld" and y[2] == "TBody::root_body" for y in subterms(x))
                    if x[0] == "ret" and x[1] in O.call:
                        ok = any(y[0] == "fld" and y[2] == "TBody::root_body" for z in O.call[x[1]].args for y in subterms(z))
                    R.check(ok, "value", e.where(), "root", "the root of a body prints %s" % O.show(x), "root")
            return
        seen[("TBody", a)] = 1
        if a == "slip":
            t = vals[1]
            ph = [x for x in subterms(t) if x[0] in ("phi", "ld")]
            if not ph:
                R.assume("slip text at %s not resolved" % e.where())
                return
            for v, word in ((0, "false"), (1, "true"), (3, "nil")):
                x = t
                while x[0] == "ite":
                    c = decide(x[1], lambda y: v if y == ph[0] else None)
                    if c is None:
                        x = ("?",)
                        break
                    x = x[2] if c else x[3]
                if x[0] != "s":
                    R.assume("slip text at %s not resolved" % e.where())
                    continue
                R.check(x[1].startswith(word), "value", e.where(), "slip %d" % v, "a body whose segments have slip %d is shown as %s" % (v, x[1]), "slip %d: %s" % (v, word))
            src = {q for x in ph for y in sg.expand(x) for z in subterms(y) if z[0] == "fld" for q in [z[2]]}
            R.check("TAtt::slip" in src, "value", e.where(), "slip source", "slip is computed from %s" % ", ".join(sorted(src)))
            return
        O.values("TBody", d[0], d[1], vals[1:], e, "body." + a)
        same(R, O, e, vals[0], vals[1:], a)


def same(R, O, e, name, vals, key):
    a = O.addressed(name)
    if not a:
        R.assume("name printed at %s not resolved" % e.where())
        return
    for v in vals:
        b = set()
        for x in O.sg.expand(v):
            b |= O.body_of(x)
        if not b:
            continue
        R.check(bool(a & b), "object", e.where(), key, "%s is printed of another body than the one named" % key, key)


def cells(P, R, O, sg, f):
    n = 0
    for e in sg.events:
        if not (e.kind == "call" and e.inl is None and e.q in ("printf", "std::printf")):
            continue
        fl = flat(sg, e.args)
        if not fl:
            continue
        vs = [x for x in fl if not isinstance(x, str)]
        if len(vs) != 1 or not vs[0][2].endswith(("e", "g", "f")):
            continue
        t = vs[0][1]
        if not (t[0] == "ld" and t[1][0] == "el"):
            continue
        n += 1
        idx, arr = t[1][2], t[1][1]
        owner = arr[1] if arr[0] == "fld" else None
        phis = [x for x in subterms(idx) if x[0] == "phi"]
        col = row = None
        rowsf = colsf = None
        for ph in phis:
            starts, steps, bounds = index_cover(sg, ph)
            for op, b in bounds:
                names = {x[2].split("::")[-1] for x in subterms(b) if x[0] == "fld"}
                if "cols" in names:
                    col = ph
                    R.check(starts == [("c", 0)] and steps == {("+", 1)} and op in ("<", "!="), "cell", e.where(), "columns", "not every column of a data set is printed", "columns 0..cols-1")
                else:
                    row = row or ph
        if col is None or len(set(phis)) != 2:
            R.assume("cell index at %s not resolved" % e.where())
            continue
        row = [p for p in set(phis) if p != col][0]
        starts, steps, bounds = index_cover(sg, row)
        R.check(starts == [("c", 0)] and steps == {("+", 1)}, "cell", e.where(), "rows", "not every row is printed", "rows from 0 by 1")

        def env(x, owner=owner):
            if x == col:
                return 3
            if x == row:
                return 7
            if x[0] == "ld" and x[1][0] == "fld":
                nm = x[1][2].split("::")[-1]
                if nm == "cols":
                    return 1000 if x[1][1] == owner else -77
                if nm == "rows":
                    return 500
            return None
        R.check(decide(idx, env) == 7003, "cell", e.where(), "index", "the cell of row r, column c is taken from %s" % show(idx), "cell index row*cols+col")
        ok = False
        for b, l in guards(sg, e.n):
            v = [decide(b.val, lambda x, k=k: k if x == row else 500 if x[0] == "ld" and x[1][0] == "fld" and x[1][2].endswith("::rows") and x[1][1] == owner else None) for k in (499, 500)]
            if None not in v and bool(v[0]) != bool(v[1]):
                ok = bool(v[0]) == l[1]
        R.check(ok, "cell", e.where(), "blank", "a cell of a shorter data set is printed without a check that the row exists", "rows beyond the end are blank")
        for op, b in bounds:
            rowmax(R, sg, e, b)
    R.check(n > 0, "cell", f.where(), "cells", "no data are printed")
    # header
    for e in sg.events:
        if e.kind == "call" and e.inl is None and e.q == "printf":
            fl = flat(sg, e.args)
            if fl and "".join(x if isinstance(x, str) else "\1" for x in fl) == "[\1]":
                v = [x[1] for x in fl if not isinstance(x, str)][0]
                ph = [x for x in subterms(v) if x[0] == "phi"]
                R.check(len(ph) == 1 and decide(v, lambda x: 3 if x == ph[0] else None) == 4, "cell", e.where(), "column number", "column c is labelled [%s]" % show(v), "column labels count from 1")
    # what is read
    for e in sg.events:
        if e.kind == "write" and e.loc[0] == "fld" and e.loc[2].split("::")[-1] in ("rows", "cols") and e.fn.q == "main":
            k = ("rows", "cols").index(e.loc[2].split("::")[-1])
            v = e.val
            i = None
            if v[0] == "fv":
                i = v[2][1] if isinstance(v[2], tuple) and v[2][0] == "c" else None
            elif v[0] == "ld" and v[1][0] == "el" and v[1][2][0] == "c":
                i = v[1][2][1]
            if i is None:
                R.assume("extent at %s not resolved" % e.where())
                continue
            R.check(i == k, "cell", e.where(), "extent " + e.loc[2].split("::")[-1], "%s is taken from extent %d of the data set" % (e.loc[2].split("::")[-1], i), "extent %d" % k)
    for e in sg.events:
        if e.kind == "call" and e.q == "H5Dread":
            R.check("DOUBLE" in show(e.args[1]), "cell", e.where(), "type", "data are read as %s and printed as floating point" % show(e.args[1]), "read as double")


def rowmax(R, sg, e, b):
    """The number of rows is the largest of all data sets."""
    srcs = [v for ph in subterms(b) if ph[0] == "phi" for v in sg.expand(ph)] or [b]
    ws = [w for w in sg.events if w.kind == "write" and w.loc[0] == "loc" and w.op not in ("decl",) and any(ph[0] == "phi" and ph[2] == w.loc for ph in subterms(b))]
    for w in ws:
        rows = [x for x in subterms(w.val) if x[0] == "ld" and x[1][0] == "fld" and x[1][2].endswith("::rows") or x[0] == "fv"]
        old = [x for x in subterms(w.val) if x[0] == "phi" and x[2] == w.loc]
        g = guards(sg, w.n)

        def sel(o, r):
            def env(x):
                if x[0] == "phi" and x[2] == w.loc or x == ("ld", w.loc):
                    return o
                if x[0] == "ld" and x[1][0] == "fld" and x[1][2].endswith("::rows") or x[0] == "fv":
                    return r
                return None
            for br, l in g:
                v = decide(br.val, env)
                if v is not None and bool(v) != l[1]:
                    return o
            return decide(w.val, env)
        r = [sel(5, 9), sel(9, 5)]
        if None in r:
            R.assume("row count at %s not resolved" % w.where())
            continue
        R.check(r == [9, 9], "cell", w.where(), "row count", "the number of rows printed is not the largest of the data sets", "rows = largest")


def status(P, R, sg, f):
    n = 0
    rets = {}
    for e in sg.events:
        if e.kind == "ret" and e.ctx == 0:
            rets[e.n] = e.val
    exits = [e for e in sg.events if e.kind == "call" and e.q in ("exit", "_exit", "std::exit", "abort")]
    for e in sg.events:
        if not (e.kind == "call" and e.inl is None and e.q in ("H5Fopen", "H5Dopen2", "H5Dget_space", "H5Sget_simple_extent_ndims", "H5Sget_simple_extent_dims", "H5Dread", "H5Ovisit", "H5Ovisit1", "H5Ovisit2", "H5Ovisit3", "H5Literate", "H5Literate1", "H5Literate2")) or e.ctx != 0:
            continue
        n += 1
        bad = [-1] + ([1, 3] if e.q.endswith("ndims") else [])
        for v in bad:
            came = sg.follow(e.n, {("ret", e.n): v})
            got = [rets[x] for x in came if x in rets]
            wrong = [x for x in got if not (x is not None and x[0] == "c" and x[1] % 256)]
            R.check(not wrong, "status", e.where(), "%s %d" % (e.q, v), "the tool may return %s when %s %s" % (show(wrong[0]) if wrong and wrong[0] else "0", e.q, "fails" if v < 0 else "is %d" % v), "%s -> status" % e.q)
    R.need(n, 6, "ways reading can fail")
