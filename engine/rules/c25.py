"""C25 command-line values are accepted only when fully valid."""
import math, re
from vv.lib import *
from vv.prog import rel

TECHNIQUE = "path-sensitive dataflow over the option parsers with an abstract domain of scan outcomes (conversions done x rest of text x class of value), option tables and documentation checked from the syntax tree, and value flow of every setting into the plotting code"
NOTE = """For every option of both parsers, every abstract outcome of scanning its argument (how many conversions succeed, whether text is left, for each value: negative, zero, positive, out of order,
infinite, not a number, another letter) is propagated through the parser's branches: an outcome that the documentation makes invalid must end in exit with a non-zero status, a valid one must be accepted and must leave
exactly the option's own settings changed. Accuracy of number scanning and integers beyond 32 bits are the C library's and not judged; an infinite --eps is not judged."""

NAN, INF = float("nan"), float("inf")
OK = object()
BOOL = ["B", "V", "S", "G", "P", "U", "colorbox"]

# what the documentation of vvplot says: option -> ((setting, scanf class, separator), valid(values), fixed settings)
def fin(v):
    return all(math.isfinite(x) for x in v)


def spec_vvplot():
    G = {"opt::G": 1, "opt::P": 0, "opt::U": 0, "opt::colorbox": 1}
    Pp = {"opt::G": 0, "opt::P": 1, "opt::U": 0, "opt::colorbox": 1}
    U = {"opt::G": 0, "opt::P": 0, "opt::colorbox": 1}
    S = {}
    S["-B"] = ([], None, {"opt::B": 1})
    S["-V"] = ([], None, {"opt::V": 1})
    S["-S"] = ([], None, {"opt::S": 1})
    S["-P"] = ([], None, Pp)
    S["-G"] = ([], None, G)
    S["--V"] = (["opt::Vsize"], lambda v: v[0] >= 0, {"opt::V": 1})
    S["--S"] = (["opt::Smin", "opt::Smax", "opt::Sstep"], lambda v: fin(v) and v[1] >= v[0] and v[2] > 0, {"opt::S": 1})
    S["--G"] = (["opt::Gmax"], lambda v: fin(v) and v[0] >= 0, G)
    S["--P"] = (["opt::Pmin", "opt::Pmax"], lambda v: fin(v) and v[1] >= v[0], Pp)
    S["--Ux"] = (["opt::Umin", "opt::Umax"], lambda v: fin(v) and v[1] >= v[0], dict(U, **{"opt::U": ord("x")}))
    S["--Uy"] = (["opt::Umin", "opt::Umax"], lambda v: fin(v) and v[1] >= v[0], dict(U, **{"opt::U": ord("y")}))
    S["-U"] = (["opt::U"], lambda v: chr(v[0]) in "xy", U)
    S["-x"] = (["opt::rect.xmin", "opt::rect.xmax"], lambda v: not any(map(math.isinf, v)), {})
    S["-y"] = (["opt::rect.ymin", "opt::rect.ymax"], lambda v: not any(map(math.isinf, v)), {})
    for o in ("--size", "-s"):
        S[o] = (["opt::width", "opt::height"], lambda v: v[0] >= 0 and v[1] >= 0, {})
    S["--res-hi"] = (["opt::mesh_hi.xres"], lambda v: v[0] > 0, {})
    S["--res-lo"] = (["opt::mesh_lo.xres"], lambda v: v[0] > 0, {})
    S["--eps"] = (["opt::eps_mult"], lambda v: v[0] > 0 if v[0] != INF else None, {})
    S["--ref-xy"] = (["opt::ref_xy"], {"o": "o", "f": "f", "b": "b", "bxy": "b", "bx": "x", "by": "y"}, {})
    S["--ref-S"] = (["opt::ref_S"], {"o": "o", "b": "b", "f": "f"}, {})
    S["--ref-P"] = (["opt::ref_P"], {"o": "o", "b": "b", "f": "f", "s": "s"}, {})
    S["--load-field"] = (["opt::load_field"], "text", {})
    for o in ("gray", "colorbox", "timelabel", "holder", "spring"):
        S["--" + o] = ([], None, {"opt::" + o: 1})
        S["--no-" + o] = ([], None, {"opt::" + o: 0})
    S["--png"] = ([], None, {"opt::ofmt": "png"})
    S["--tar"] = ([], None, {"opt::ofmt": "tar"})
    return S


def spec_vvxtract():
    return {"-i": ([], None, {"opt::b_info": 1}), "--info": ([], None, {"opt::b_info": 1}), "-l": ([], None, {"opt::b_list": 1}),
            "--list": ([], None, {"opt::b_list": 1})}


DEFAULTS = {"opt::Vsize": 4, "opt::Pmin": -1.5, "opt::Pmax": 1, "opt::width": 1280, "opt::height": 720, "opt::eps_mult": 2, "opt::ref_xy": ord("o"), "opt::ref_S": ord("o"),
            "opt::ref_P": ord("s"), "opt::gray": 0, "opt::timelabel": 1, "opt::holder": 0, "opt::spring": 0, "opt::B": 0, "opt::V": 0, "opt::S": 0, "opt::G": 0, "opt::P": 0, "opt::U": 0,
            "opt::colorbox": 0, "opt::Gmax": 0}
VALID = dict(DEFAULTS, **{"opt::Smin": 0.0, "opt::Smax": 1.0, "opt::Sstep": 0.1, "opt::Umin": 0.0, "opt::Umax": 1.0, "opt::rect.xmin": 0.0, "opt::rect.xmax": 0.0, "opt::rect.ymin": 0.0,
                          "opt::rect.ymax": 0.0, "opt::mesh_hi.xres": 640, "opt::mesh_lo.xres": 256})
INTS = {"opt::Vsize", "opt::width", "opt::height", "opt::mesh_hi.xres", "opt::mesh_lo.xres"}
CHARS = {"opt::U", "opt::ref_xy", "opt::ref_S", "opt::ref_P"}
SEP = {"--size": "x", "-s": "x"}
EXITS = {"exit", "_exit", "std::exit", "quick_exit", "abort", "std::abort"}
ROOTS = {"_exit": None}


def doc_options(text):
    """{option: takes an argument} of the documented option lines."""
    out = {}
    for ln in text.split("\n"):
        m = re.match(r"^ {1,4}(-.*)$", ln)
        if not m:
            continue
        m = re.match(r"((?:--?[\w\[\]-]+(?:, )?)+)( <)?", m.group(1))
        s, arg = m.group(1), bool(m.group(2))
        for o in re.findall(r"(?<![\w<>])(--?[\w\[\]-]+)", s):
            if "[no-]" in o:
                out[o.replace("[no-]", "")] = False
                out[o.replace("[no-]", "no-")] = False
            else:
                out[o] = arg
    return out


def string_of(P, f, name):
    for k, g in P.globals.items():
        if g["q"] == name and g["file"] == f.file and g["nodes"]:
            n = g["nodes"][g["init"]]
            while n["k"] != "StringLiteral" and n.get("c"):
                n = g["nodes"][n["c"][0]]
            return n.get("s")
    return None


class Parser:
    def __init__(self, P, R, f):
        self.P, self.R, self.f = P, R, f
        files = {g.file for g in P.fns.values()} if hasattr(P, "fns") else set()
        d = f.file.rsplit("/", 1)[0]
        self.sg = SG(P, f, inline=lambda g, c: g.file.startswith(d) and not g.q.startswith("main"), maxdepth=4, maythrow=lambda k: False)
        self.tool = d.split("/")[-1]
        go = self.sg.calls(("getopt_long", "getopt_long_only", "getopt"))
        R.need(len(go), 1, "calls of getopt_long in " + self.tool)
        self.go = go[0]
        self.calls = {e.n: e for e in self.sg.events if e.kind == "call" and e.inl is None}
        self.refs = {}
        for k, g in P.globals.items():
            if g["file"] == f.file and g["t"].rstrip().endswith("&") and g["nodes"]:
                p = self.path(g, g["init"])
                if p:
                    self.refs[k] = p
        self.table()

    def path(self, g, i):
        n = g["nodes"][i]
        if n["k"] == "MemberExpr":
            p = self.path(g, n["c"][0])
            return p and p + "." + n["m"]
        if n["k"] == "DeclRefExpr":
            return n["d"][2:].split("@")[0].split("~")[0] if n["d"].startswith("g:") else None
        if n["k"] in ("ImplicitCastExpr", "ParenExpr"):
            return self.path(g, n["c"][0])
        return None

    def setting(self, loc):
        """Name of the setting at loc, None when it is none."""
        if loc[0] == "g":
            if loc[1] in self.refs:
                return self.refs[loc[1]]
            q = loc[1][2:].split("@")[0].split("~")[0] if loc[1].startswith("g:") else ""
            return q if q.startswith("opt::") else None
        if loc[0] == "ld" and loc[1][0] == "g":
            return self.refs.get(loc[1][1])
        if loc[0] == "fld":
            b = self.setting(loc[1])
            return b and b + "." + loc[2].split("::")[-1]
        return None

    def table(self):
        f, R, P = self.f, self.R, self.P
        self.rows, self.arr = [], None
        a = self.go.args[3] if len(self.go.args) > 3 else None
        init, nodes, var = None, f.nodes, None
        if a is not None and a[0] == "g":
            self.arr = a
            nm = a[1].split(":l:")[-1].rsplit(":", 1)[0] if ":l:" in a[1] else None
            if nm:
                for x in f.nodes:
                    if x and x["k"] == "DeclStmt":
                        for v in x["vars"]:
                            if v["name"] == nm and v.get("init") is not None:
                                init = v["init"]
            elif a[1] in P.globals and P.globals[a[1]]["nodes"]:
                nodes, init = P.globals[a[1]]["nodes"], P.globals[a[1]]["init"]
        if init is not None:
            def cv(i):
                n = nodes[i]
                if n.get("cv") is not None:
                    return int(n["cv"])
                return cv(n["c"][0]) if n.get("c") else 0

            def leaf(i, k):
                n = nodes[i]
                if n["k"] == k:
                    return n
                for c in n.get("c") or []:
                    r = leaf(c, k)
                    if r:
                        return r
                return None
            while nodes[init]["k"] != "InitListExpr" and nodes[init].get("c"):
                init = nodes[init]["c"][0]
            for r in nodes[init].get("c") or nodes[init].get("inits") or []:
                row = nodes[r].get("c") or nodes[r].get("inits") or []
                if len(row) < 4:
                    continue
                s = leaf(row[0], "StringLiteral")
                if s is None:
                    self.rows.append(None)
                    continue
                d = leaf(row[2], "DeclRefExpr")
                self.rows.append({"name": s["s"], "arg": cv(row[1]), "flag": d and d["d"][2:].split("@")[0].split("~")[0], "val": cv(row[3]), "line": nodes[r].get("l")})
        R.need(len([r for r in self.rows if r]), 4, "rows of the table of long options of " + self.tool)
        self.short = {}
        o = self.go.args[2]
        if o[0] == "s":
            s = o[1].lstrip("+-:")
            for i, ch in enumerate(s):
                if ch != ":":
                    self.short[ch] = 0 if s[i + 1:i + 2] != ":" else 2 if s[i + 2:i + 3] == ":" else 1

    # ---------------------------------------------------------------- walks
    def run(self, code, ix=0, arg=None, base=None):
        """Outcomes of handling one option.  arg: None or a dict describing the argument.  Returns a list of
        ('exit', status) / ('next', {setting: value}) / ('end', {...}) with a flag telling that every branch was decided."""
        sg, go = self.sg, self.go
        out = []
        st = sg.outs.get(go.n, {})
        b = {("ret", go.n): code}
        if len(go.args) > 4:
            b[("out", go.n, 4)] = ix
        OA = ("ld", ("g", "g:optarg"))
        oas = {OA, st.get(("g", "g:optarg"), OA)}
        for x in oas:
            b[x] = 4096 if arg is not None else 0
        arg = arg or {}
        for s, l in self.locs():
            v = (arg or {}).get("old", {}).get(s, VALID.get(s))
            if v is not None:
                b.setdefault(("ld", l), v)
                b.setdefault(st.get(l, ("ld", l)), v)
        if base:
            b.update(base)

        def row(t):
            """value of a member of the table row chosen"""
            if t[0] == "ld" and t[1][0] == "fld" and t[1][1][0] == "el" and t[1][1][1] == self.arr:
                i = decide(t[1][1][2], lambda u: b.get(u))
                if i is None or not 0 <= int(i) < len(self.rows) or self.rows[int(i)] is None:
                    return None
                return self.rows[int(i)], t[1][2].split("::")[-1]
            return None

        def leafval(t, env):
            r = row(t)
            if r:
                return {"flag": 8192 if r[0]["flag"] else 0, "has_arg": r[0]["arg"], "val": r[0]["val"], "name": 16384}.get(r[1])
            if t[0] == "ld" and t[1][0] == "el":
                r = row(t[1][1])
                if r and r[1] == "name" and t[1][2][0] == "c":
                    s = r[0]["name"] + "\0"
                    return ord(s[t[1][2][1]]) if t[1][2][1] < len(s) else None
                if t[1][1] in oas:
                    i = decide(t[1][2], env)
                    if i is None:
                        return None
                    s = arg.get("text")
                    if s is not None:
                        return ord((s + "\0")[int(i)]) if i <= len(s) else None
                    return 0 if i == arg["len"] else ord("z") if 0 <= i < arg["len"] else None
            if t[0] == "ld" and t[1] in oas:
                return leafval(("ld", ("el", t[1], ("c", 0))), env)
            if t[0] == "f" and t[1] in ("strlen", "std::strlen") and t[2] in oas:
                return len(arg["text"]) if arg.get("text") is not None else arg["len"]
            if t[0] == "f" and t[1] in ("strcmp", "std::strcmp", "strcasecmp", "strncmp", "std::strncmp") and len(t) >= 4:
                x, y = (t[2], t[3]) if t[2] in oas else (t[3], t[2])
                if x in oas and y[0] == "s":
                    s, l = arg.get("text"), y[1]
                    if s is None:
                        return 1
                    if len(t) > 4:
                        k = decide(t[4], env)
                        if k is None:
                            return None
                        s, l = s[:int(k)], l[:int(k)]
                    if "case" in t[1]:
                        s, l = s.lower(), l.lower()
                    return int(s != l)
            if t[0] == "f" and t[1] in ("strchr", "std::strchr") and len(t) == 4 and t[2][0] == "s":
                c = decide(t[3], env)
                return None if c is None else int(c == 0 or chr(int(c)) in t[2][1])
            if t[0] == "f" and t[1] in ("std::isnan", "isnan", "std::isinf", "isinf", "std::isfinite", "isfinite") and len(t) == 3:
                x = decide(t[2], env)
                return None if x is None else int(getattr(math, t[1].split("::")[-1])(x))
            return None

        def extra(e, env):
            m = {}

            def deepval(t):
                def env2(u):
                    v = env(u)
                    if v is None:
                        v = m.get(u)
                    if v is None:
                        v = leafval(u, env2)
                    return v
                return decide(t, env2)
            if e.kind == "br":
                for t in subterms(e.val):
                    if t[0] in ("ld", "f"):
                        v = leafval(t, lambda u: env(u) if env(u) is not None else m.get(u))
                        if v is not None:
                            m[t] = v
                if deepval(e.val) is None:
                    m[("undecided",)] = 1
            elif e.kind == "write":
                s = self.setting(e.loc)
                v = deepval(e.val)
                if v is None and e.val in oas:
                    v = 4096
                if s:
                    m[("W", s)] = "?" if v is None else v
                if v is not None and v != "?":
                    for t in subterms(e.val):
                        if t[0] in ("ld", "f") and t not in m:
                            w = leafval(t, env)
                            if w is not None:
                                m[t] = w
            elif e.kind == "call" and e.inl is None:
                if e.q in ("sscanf", "std::sscanf", "__isoc99_sscanf") and e.args[0] in oas:
                    m.update(self.scan(e, arg, env))
                elif e.q in EXITS:
                    v = deepval(e.args[0]) if e.args else 134
                    out.append(("exit", v, env(("undecided",)) is None, e))
                else:
                    t = ("f", e.q) + tuple(e.args)
                    v = leafval(t, env)
                    if v is not None:
                        m[("ret", e.n)] = v
            return m

        def stop(n, env):
            if n == go.n:
                out.append(("next", self.settings(env), env(("undecided",)) is None, None))
                return True
            if n == sg.exit.i:
                out.append(("end", self.settings(env), env(("undecided",)) is None, None))
                return True
            return False
        sg.follow(go.n, b, stop=stop, extra=extra, consts=True)
        return out

    def settings(self, env):
        out = {}
        for s in self.names():
            v = env(("W", s))
            if v is not None:
                out[s] = v
        return out

    def locs(self):
        if not hasattr(self, "_locs"):
            ls = set()
            for e in self.sg.events:
                for l in ([e.loc] if e.kind == "write" else list(e.args or ()) if e.kind == "call" else []) + [x[1] for x in subterms(e.val or ()) if x and x[0] == "ld"]:
                    if isinstance(l, tuple) and l[0] in ("g", "fld", "ld") and self.setting(l):
                        ls.add((self.setting(l), l))
            self._locs = sorted(ls, key=str)
        return self._locs

    def names(self):
        if not hasattr(self, "_names"):
            s = set()
            for e in self.sg.events:
                if e.kind == "write":
                    s.add(self.setting(e.loc))
                elif e.kind == "call":
                    for a in e.args or ():
                        if isinstance(a, tuple) and a[0] in ("g", "fld", "ld"):
                            s.add(self.setting(a))
            s.discard(None)
            self._names = s
        return self._names

    CONV = re.compile(r"%(\*?)(\d*)(hh|h|ll|l|L|z|j|t)?([a-zA-Z]|\[[^\]]*\])")

    def scan(self, e, arg, env):
        """What a call of sscanf stores for the abstract argument."""
        m = {}
        if e.args[1][0] != "s":
            return {("undecided",): 1}
        ks = [x for x in self.CONV.finditer(e.args[1][1]) if not x.group(1)]
        conv = [x for x in ks if x.group(4) != "n"]
        n = len(conv)
        if arg.get("text") is not None and n == 1 and conv[0].group(4) == "c":
            k, vals, used = (1, [ord(arg["text"][0])], 1) if arg["text"] else (-1, [None], 0)
        else:
            # the argument offers arg['k'] values; text follows them when 'rest' is set
            k = arg.get("k", 0)
            vals = arg.get("vals", [])
            if k > n or (k == n and n < len(vals)):
                k, used = n, 2 * n - 1            # values are left over
            else:
                used = arg.get("used", 0)
        i = 0
        complete = k == n
        for j, x in enumerate(ks):
            o = ("out", e.n, j + 2)
            loc = e.args[j + 2] if j + 2 < len(e.args) else None
            if x.group(4) == "n":
                m[o] = used if complete else 0
                continue
            v = vals[i] if i < len(vals) else None
            ok = i < k
            i += 1
            s = loc is not None and self.setting(loc)
            if ok and v is not None:
                m[o] = v
                if s:
                    m[("W", s)] = v
            else:
                m[o] = arg.get("old", {}).get(s, 1) if s else 1
        m[("ret", e.n)] = k
        return m


def check_parser(P, R, f, spec):
    p = Parser(P, R, f)
    sg, go, tool = p.sg, p.go, p.tool
    where = f.where(0) if f.nodes and f.nodes[0] else rel(f.file)
    where = go.where()
    enum = {}
    for x in f.nodes:
        if x and x["k"] == "DeclRefExpr" and x.get("cv") is not None and x.get("name"):
            enum[x["name"].split("::")[-1]] = int(x["cv"])

    def val(v):
        return enum.get(v, v) if isinstance(v, str) else v

    # --- options as the tables give them
    opts = {}
    for ch, a in p.short.items():
        opts["-" + ch] = (ord(ch), 0, a, None)
    for i, r in enumerate(p.rows):
        if r is not None:
            o = "--" + r["name"]
            R.check(o not in opts, "table", "%s:%s" % (rel(f.file), r["line"]), "%s twice" % o, "%s: the option %s is listed twice" % (tool, o))
            opts[o] = (r["val"] if not r["flag"] else 0, i, r["arg"], r)
            if r["flag"]:
                want = spec.get(o, (None, None, {}))[2]
                R.check(o not in spec or (r["flag"] in want and val(want[r["flag"]]) == r["val"]), "table", "%s:%s" % (rel(f.file), r["line"]), o,
                        "%s: %s sets %s to %s, which is not the setting it names" % (tool, o, r["flag"], r["val"]), "%s: %s = %s" % (o, r["flag"], r["val"]))
    # --- documented
    text = string_of(P, f, "OPTIONS")
    docs = doc_options(text or "")
    R.need(len(docs), 4, "documented options of " + tool)
    for o, arg in docs.items():
        if o in ("-Ux", "-Uy"):
            o2, arg = "-U", True
        else:
            o2 = o
        R.check(o2 in opts and bool(opts[o2][2]) == bool(arg), "documented", where, o, "%s: the documented option %s is %s" % (tool, o, "not recognised" if o2 not in opts else
                "recognised %s an argument" % ("without" if arg else "with")), "%s recognised" % o)

    def outcome(o, arg, want, what, sets=None):
        code, ix, has, r = opts[o]
        res = p.run(code, ix, arg)
        R.count("scan_outcomes")
        if not res:
            R.assume("%s %s: no outcome found for %s" % (tool, o, what))
            return
        clear = all(x[2] for x in res)
        kinds = {x[0] for x in res}
        if want == "reject":
            bad = [x for x in res if x[0] in ("next", "end")]
            zero = [x for x in res if x[0] == "exit" and x[1] == 0]
            if bad and not clear and "exit" in kinds:
                R.assume("%s %s: %s is decided by something the analysis does not resolve" % (tool, o, what))
                return
            R.check(not bad, "reject", where, "%s %s" % (o, what), "%s: %s accepts %s" % (tool, o, what), "%s: %s ends the tool" % (o, what))
            R.check(not zero, "status", zero[0][3].where() if zero else where, "%s %s" % (o, what), "%s: %s with %s ends with status 0" % (tool, o, what))
        elif want == "exit0":
            R.check(kinds == {"exit"} and all(x[1] == 0 for x in res), "status", where, o, "%s: %s does not end the tool with status 0" % (tool, o), "%s ends with status 0" % o)
        else:
            bad = [x for x in res if x[0] == "exit"]
            if bad and not clear and "next" in kinds:
                R.assume("%s %s: %s is decided by something the analysis does not resolve" % (tool, o, what))
                return
            R.check(not bad, "accept", bad[0][3].where() if bad else where, "%s %s" % (o, what), "%s: %s refuses %s" % (tool, o, what), "%s: %s accepted" % (o, what))
            for x in res:
                if x[0] != "next":
                    continue
                for s, v in sets.items():
                    g = x[1].get(s)
                    if g is None:
                        g = DEFAULTS.get(s) if s in BOOL and DEFAULTS.get(s) == v else None
                    same = g is not None and (g == val(v) or (isinstance(g, float) and isinstance(v, float) and math.isnan(g) and math.isnan(v)))
                    if g == "?":
                        R.assume("%s %s: the value given to %s is not resolved" % (tool, o, s))
                        continue
                    R.check(same, "sets", where, "%s %s" % (o, s), "%s: %s leaves %s %s" % (tool, o, s, "unset" if g is None else "at %s instead of %s" % (g, val(v))),
                            "%s sets %s" % (o, s))
                for s, g in x[1].items():
                    R.check(s in sets, "own", where, "%s %s" % (o, s), "%s: %s also changes %s" % (tool, o, s), "%s changes only its own settings" % o)

    for o in sorted(opts):
        if o not in spec:
            if o in ("-v", "--version", "-h", "--help"):
                outcome(o, None, "exit0", "")
            continue
        names, valid, fixed = spec[o]
        code, ix, has, r = opts[o]
        R.count("options")
        if not names:
            if r is not None and r["flag"]:
                fx = {}        # getopt_long itself stores the value
            else:
                fx = fixed
            outcome(o, None, "accept", "", dict(fx))
            continue
        if not has:
            continue
        if isinstance(valid, dict) or (valid is not None and names[0] in CHARS):
            table = valid if isinstance(valid, dict) else {c: c for c in "xy"}
            for s, c in sorted(table.items()):
                outcome(o, {"text": s}, "accept", "'%s'" % s, dict(fixed, **{names[0]: ord(c)}))
            for s in ["", "ob", "xx", "bq", "ff", "so", "bxyz", "xy"] + [chr(i) for i in range(33, 127)]:
                if s not in table and s.strip() not in table:
                    outcome(o, {"text": s}, "reject", "'%s'" % s)
            continue
        if valid == "text":
            outcome(o, {"len": 5, "used": 5}, "accept", "a file name", dict(fixed, **{names[0]: 4096}))
            continue
        n = len(names)
        ints = names[0] in INTS
        good = {1: [3] if ints else [3.0], 2: [3, 5] if ints else [3.0, 5.0], 3: [1.0, 5.0, 0.5]}[n]
        old = dict(zip(names, good))
        full = 2 * n - 1

        def A(k, vals, rest=False, empty=False):
            return {"k": k, "vals": vals, "used": full, "len": 0 if empty else full + (1 if rest else 0), "old": old}
        outcome(o, A(n, good), "accept", "valid values", dict(fixed, **dict(zip(names, good))))
        outcome(o, A(n, good, rest=True), "reject", "text after the values")
        outcome(o, A(-1, good, empty=True), "reject", "an empty text")
        outcome(o, A(0, good, rest=True), "reject", "a text that is no number")
        for k in range(1, n):
            outcome(o, A(k, good, rest=True), "reject", "%d of %d values" % (k, n))
        pool = [-2, -1, 0, 3] if ints else [-2.0, 0.0, 3.0, INF, -INF, NAN]
        import itertools
        for vs in itertools.product(pool, repeat=n):
            vs = list(vs)
            ok = valid(vs)
            if ok is None:
                continue
            cls = ",".join(str(x) for x in vs)
            if ok:
                outcome(o, A(n, vs), "accept", cls, dict(fixed, **dict(zip(names, vs))))
            else:
                outcome(o, A(n, vs), "reject", cls)
    # unknown options
    for code, what in ((ord("?"), "an unknown option"),):
        res = p.run(code, 0, None)
        for x in res:
            R.check(x[0] == "exit" and x[1] not in (0, None), "unknown", where, what, "%s: %s does not end the tool with a non-zero status" % (tool, what), "%s: %s ends with %s" % (tool, what, x[1]))

    # --- formats of the scans
    for e in sg.calls(("sscanf", "std::sscanf", "__isoc99_sscanf")):
        if e.args[1][0] != "s":
            R.assume("%s: format of the scan at %s is not constant" % (tool, e.where()))
            continue
        fm = e.args[1][1]
        ks = [x for x in Parser.CONV.finditer(fm) if not x.group(1)]
        pos = 0
        prev = None
        for j, x in enumerate(ks):
            loc = e.args[j + 2] if j + 2 < len(e.args) else None
            s = loc is not None and p.setting(loc)
            lit = fm[pos:x.start()]
            pos = x.end()
            if loc is None:
                R.bad("format", e.where(), "%s %d" % (fm, j), "%s: the scan '%s' has a conversion without a target" % (tool, fm))
                continue
            t = (x.group(3) or "") + x.group(4)
            if s:
                okt = {True: ("d", "i", "u")}.get(s in INTS, ("c", "1s") if s in CHARS else ("lf", "lg", "le", "la"))
                R.check(t in okt and not x.group(2), "format", e.where(), s, "%s: %s is scanned with '%s'" % (tool, s, x.group(0)), "%s scanned as %s" % (s, t))
                own = next((o for o, sp_ in spec.items() if s in sp_[0]), None)
                if prev and own:
                    want = SEP.get(own, ",")
                    R.check(lit.strip() == want, "format", e.where(), "%s separator" % s, "%s: '%s' stands between the values of %s" % (tool, lit, own), "%s separated by '%s'" % (own, want))
                prev = s
    return p


def operands(R, p):
    """What is left after the options."""
    sg, go = p.sg, p.go
    st = sg.outs.get(go.n, {})
    argc = [e for e in sg.events if e.kind == "br" and any("optind" in str(t) for t in subterms(e.val))]
    if not argc:
        R.bad("operands", go.where(), p.tool, "%s: the number of operands is never tested" % p.tool)

    def base(n, env=None):
        b = {}
        for e in sg.events:
            for v in ([e.val] if e.kind == "br" else list(e.args or ()) if e.kind == "call" else []):
                for t in subterms(v):
                    if t[0] in ("ld", "phi"):
                        l = t[1] if t[0] == "ld" else t[2]
                        if l == ("g", "g:optind"):
                            b[t] = 3
                        elif l[0] == "loc" and l[2].startswith("l:argc:"):
                            b[t] = 3 + n
        return b
    where = argc[0].where() if argc else go.where()
    lim = (0, 1, 3, 4) if p.tool == "vvplot" else (0,)
    for n in lim:
        res = p.run(-1, 0, None, base(n))
        R.check(res and all(x[0] == "exit" and x[1] not in (0, None) for x in res), "operands", where, "%s %d" % (p.tool, n),
                "%s: %d operands do not end the tool with a non-zero status" % (p.tool, n), "%s: %d operands refused" % (p.tool, n))
    n = 2 if p.tool == "vvplot" else 1
    return base(n)


def dimensions(R, p, base):
    """One of the plot dimensions is completed from the others."""
    sg, go = p.sg, p.go
    st = sg.outs.get(go.n, {})
    locs = {}
    for e in sg.events:
        for l in ([e.loc] if e.kind == "write" else list(e.args or ()) if e.kind == "call" else []):
            if isinstance(l, tuple) and l[0] in ("g", "fld", "ld") and p.setting(l):
                locs.setdefault(p.setting(l), set()).add(l)
    H5 = sg.calls(("H5Fis_hdf5",))
    ST = sg.calls(("stat",))
    n0 = 0
    where = None
    X, Y = ("opt::rect.xmin", "opt::rect.xmax"), ("opt::rect.ymin", "opt::rect.ymax")

    def case(w, h, x, y):
        v = {"opt::width": w, "opt::height": h, X[0]: x[0], X[1]: x[1], Y[0]: y[0], Y[1]: y[1], "opt::mesh_hi.xres": 640, "opt::mesh_lo.xres": 256, "opt::ofmt": 1, "opt::Vsize": 4,
             "opt::ifmt": 0}
        b = dict(base)
        for s, k in v.items():
            for l in locs.get(s, ()):
                b[("ld", l)] = k
                if l in st:
                    b[st[l]] = k
        for e in sg.events:
            for u in ([e.val] if e.kind in ("br", "write") else []):
                for t in subterms(u):
                    if t[0] == "ld" and p.setting(t[1]) in v:
                        b.setdefault(t, v[p.setting(t[1])])
        for e in H5:
            b[("ret", e.n)] = 1
        for e in ST:
            b[("ret", e.n)] = -1
        return v, b
    table = [("width", (0, 720, (0., 4.), (0., 2.))), ("height", (1280, 0, (0., 4.), (0., 2.))), ("x centre", (1200, 600, (1., 1.), (0., 2.))), ("y centre", (1200, 600, (0., 4.), (3., 3.))),
             ("xmin", (1200, 600, (NAN, 4.), (0., 2.))), ("xmax", (1200, 600, (1., NAN), (0., 2.))), ("ymin", (1200, 600, (0., 4.), (NAN, 2.))), ("ymax", (1200, 600, (0., 4.), (1., NAN))),
             ("nothing", (1200, 900, (0., 4.), (0., 2.))), ("swapped x", (1200, 0, (4., 0.), (0., 2.))), ("swapped y", (0, 600, (0., 4.), (2., 0.)))]
    for what, c in table:
        v, b = case(*c)
        res = p.run(-1, 0, None, b)
        ends = [x for x in res if x[0] == "end"]
        if not ends or any(not x[2] for x in res):
            R.assume("vvplot: completion of the plot dimensions (%s unknown) is not resolved" % what)
            continue
        R.check(len(ends) == len(res), "dimensions", go.where(), what, "vvplot: refuses a plot with exactly %s left to compute" % what)
        for x in ends:
            g = dict(v)
            g.update({k: y for k, y in x[1].items() if k in v})
            if "?" in g.values():
                R.assume("vvplot: a completed plot dimension (%s unknown) is not resolved" % what)
                continue
            w, h, x0, x1, y0, y1 = (g[k] for k in ("opt::width", "opt::height") + X + Y)
            n0 += 1
            d = x[1]
            for m, xr in (("mesh_hi", 640), ("mesh_lo", 256)):
                dx, yr = d.get("opt::%s.dxdy" % m), d.get("opt::%s.yres" % m)
                if "?" not in (dx, yr):
                    R.check(dx is not None and yr is not None and abs(dx * xr - (x1 - x0)) < 1e-9 and abs(yr - (y1 - y0) / dx) <= 1, "dimensions", go.where(), "%s %s" % (m, what),
                            "vvplot: the mesh %s (%s by %s cells) does not cover the plotted range" % (m, xr, yr), "%s covers the plot" % m)
            vc = d.get("opt::Vcirc")
            if vc != "?":
                R.check(vc is not None and abs(vc * 2 * w - (x1 - x0) * 4) < 1e-9, "dimensions", go.where(), "Vcirc %s" % what, "vvplot: the circles of -V are not --V pixels wide", "circles --V pixels wide")
            try:
                good = abs((x1 - x0) * h - (y1 - y0) * w) <= 0.01 * abs((x1 - x0) * h) + 3 * max(x1 - x0, y1 - y0)
            except TypeError:
                good = False
            good = good and x1 > x0 and y1 > y0 and w > 0 and h > 0
            exp = {"x centre": (x0 + x1) / 2 == c[2][0], "y centre": (y0 + y1) / 2 == c[3][0], "xmin": x1 == 4 and (y0, y1) == (0, 2) and w == 1200, "xmax": x0 == 1 and (y0, y1) == (0, 2),
                   "ymin": y1 == 2 and (x0, x1) == (0, 4), "ymax": y0 == 1 and (x0, x1) == (0, 4), "width": h == 720 and (x0, x1, y0, y1) == (0, 4, 0, 2),
                   "height": w == 1280 and (x0, x1, y0, y1) == (0, 4, 0, 2), "nothing": w == 1200 and (x0, x1, y0, y1) == (0, 4, 0, 2),
                   "swapped x": (x0, x1) == (0, 4), "swapped y": (y0, y1) == (0, 2)}[what]
            R.check(good and exp, "dimensions", go.where(), what, "vvplot: with %s to be computed the plot gets %sx%s pixels for x %s..%s, y %s..%s" % (what, w, h, x0, x1, y0, y1),
                    "%s computed: %sx%s, %s..%s, %s..%s" % (what, w, h, x0, x1, y0, y1))
    for what, c in (("-x and -y", (1280, 720, (0., 0.), (0., 0.))), ("width and xmin", (0, 720, (NAN, 1.), (0., 2.))), ("width and height", (0, 0, (0., 4.), (0., 2.))),
                    ("xmin and xmax", (1280, 720, (NAN, NAN), (0., 1.))), ("ymin and -x", (1280, 720, (1., 1.), (NAN, 1.)))):
        v, b = case(*c)
        res = p.run(-1, 0, None, b)
        if not res or any(not x[2] for x in res) and any(x[0] == "exit" for x in res):
            R.assume("vvplot: completion of the plot dimensions (%s unknown) is not resolved" % what)
            continue
        R.check(all(x[0] == "exit" and x[1] not in (0, None) for x in res), "dimensions", go.where(), what, "vvplot: plots although %s are unknown" % what, "%s unknown: refused" % what)
    R.count("completed_dimensions", n0)


def defaults(P, R, f):
    glob = {}
    for k, g in P.globals.items():
        if g["q"].startswith("opt::") and g["file"].startswith(f.file.rsplit("/", 1)[0]):
            glob[g["q"]] = g

    def cv(g, i):
        n = g["nodes"][i]
        for k in ("cv", "fv"):
            if n.get(k) is not None:
                return float(n[k])
        if n["k"] == "InitListExpr":
            return [cv(g, c) for c in n.get("c") or n.get("inits") or []]
        return cv(g, n["c"][0]) if len(n.get("c") or ()) == 1 else None
    for q, v in sorted(DEFAULTS.items()):
        g = glob.get(q)
        if g is None or not g["nodes"]:
            R.assume("the initial value of %s was not found" % q)
            continue
        d = cv(g, g["init"])
        R.check(d is None or d == v, "default", "%s:%s" % (rel(g["file"]), g["line"]), q, "%s starts at %s, documented %s" % (q, d, v), "%s = %s" % (q, v))
    for q, v in (("opt::mesh_hi", 640), ("opt::mesh_lo", 256)):
        g = glob.get(q)
        d = g and g["nodes"] and cv(g, g["init"])
        if isinstance(d, list) and len(d) > 1:
            R.check(d[1] == v, "default", "%s:%s" % (rel(g["file"]), g["line"]), q, "%s starts with %s columns, documented %s" % (q, d[1], v), "%s.xres = %s" % (q, v))


# ------------------------------------------------------------------ effects
def gname(loc):
    if loc[0] == "g":
        return loc[1][2:].split("@")[0].split("~")[0]
    if loc[0] == "fld":
        b = gname(loc[1])
        return b and b + "." + loc[2].split("::")[-1]
    return None


def reads_of(t):
    return {gname(x[1]) for x in subterms(t) if x[0] == "ld" and gname(x[1]) and gname(x[1]).startswith("opt::")}


def effects(P, R):
    fns = [f for f in P.by_q.get("main_hdf", []) if "vvplot" in f.file]
    R.need(len(fns), 1, "main_hdf of vvplot")
    f = fns[0]
    d = f.file.rsplit("/", 1)[0]
    sg = SG(P, f, inline=lambda g, c: g.file == f.file, maxdepth=3, reads=True, maythrow=lambda k: False)

    # values of settings are followed back to the setting itself: a setting adjusted in place is still that setting
    def names(t, lim=40, seen=None):
        seen = set() if seen is None else seen
        out = set()
        for x in subterms(t):
            if x[0] == "ld" and gname(x[1]):
                out.add(gname(x[1]))
            elif x in sg.phis and x not in seen:
                seen.add(x)
                if gname(x[2]):
                    out.add(gname(x[2]))
                for v in sg.phis[x]:
                    out |= names(v, lim, seen)
        return {x for x in out if x.startswith("opt::")}
    brs = [e for e in sg.events if e.kind == "br"]

    def gated(flag, evs, what, val=1):
        """the events happen only when the flag is set, and happen when it is"""
        def edges(v):
            def ok(a, b, l):
                def env(t):
                    if t[0] == "ld" and gname(t[1]) == flag:
                        return v
                    if t[0] == "phi" and gname(t[2]) == flag:
                        return v
                    return None
                return not contra(sg, a, l, env)
            return ok
        off = sg.reach([sg.entry.i], edges=edges(0))
        on = sg.reach([sg.entry.i], edges=edges(val))
        R.check(evs and any(e.n in on for e in evs), "effect", f.where(f.body) if hasattr(f, "body") else evs and evs[0].where() or rel(f.file), flag,
                "vvplot: %s has no effect: nothing %s" % (flag, what), "%s: %s" % (flag, what))
        for e in evs:
            R.check(e.n not in off, "effect", e.where(), flag, "vvplot: %s although %s is not set" % (what, flag), "%s only when %s is set" % (what, flag))
    ctor = [e for e in sg.events if e.kind == "call" and e.q and e.q.split("::")[-1] in ("XVorticity", "XPressure", "XVelocity", "XStreamfunction")]
    by = {}
    for e in ctor:
        if len(e.args) >= 6:
            by.setdefault(e.q.split("::")[-1], []).append(e)
    want = {"XVorticity": ("opt::G", "mesh_hi"), "XPressure": ("opt::P", "mesh_hi"), "XVelocity": ("opt::U", "mesh_hi"), "XStreamfunction": ("opt::S", "mesh_lo")}
    one = lambda t: t[0] == "op" and t[1] == "+" and ("c", 1) in t[2:]
    for c, (flag, mesh) in want.items():
        evs = by.get(c, [])
        R.need(len(evs), 1, "constructions of " + c)
        gated(flag, evs, "computes the field (%s)" % c, ord("x") if flag == "opt::U" else 1)
        for e in evs:
            a = list(e.args)[-6:] if len(e.args) > 6 else list(e.args)
            exp = [None, "opt::rect.xmin", "opt::rect.ymin", "opt::%s.dxdy" % mesh, "opt::%s.xres" % mesh, "opt::%s.yres" % mesh]
            for i in range(1, 6):
                ns = names(a[i])
                R.check(exp[i] in ns and not (ns - {exp[i]}) & set(exp), "field", e.where(), "%s %d" % (c, i), "vvplot: %s is computed with %s where %s belongs" %
                        (c, ", ".join(sorted(ns)) or show(a[i])[:40], exp[i]), "%s: %s" % (c, exp[i]))
    # members of the fields
    mem = {("XVorticity", "eps_mult"): "opt::eps_mult", ("XPressure", "eps_mult"): "opt::eps_mult", ("XStreamfunction", "eps_mult"): "opt::eps_mult",
           ("XPressure", "ref_frame"): "opt::ref_P", ("XStreamfunction", "ref_frame"): "opt::ref_S", ("XVelocity", "ref_frame"): "opt::ref_S", ("XVelocity", "mode"): "opt::U"}
    for (c, m), s in mem.items():
        ws = [e for e in sg.events if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == c + "::" + m]
        if not ws and any(e.kind == "write" and e.loc[0] == "fld" and e.loc[2].split("::")[-1] == m and e.loc[2].split("::")[0] not in [x for x, _ in mem] for e in sg.events):
            R.assume("vvplot: %s is set through a member of another class than %s" % (m, c))
            continue
        if not ws:
            R.check(not by.get(c) or not known_member(P, c, m), "effect", by[c][0].where() if by.get(c) else rel(f.file), "%s.%s" % (c, m), "vvplot: %s is not handed to the field %s" % (s, c))
        for e in ws:
            R.check(names(e.val) == {s}, "effect", e.where(), "%s.%s" % (c, m), "vvplot: %s of %s is set from %s instead of %s" % (m, c, ", ".join(sorted(names(e.val))) or show(e.val)[:40], s),
                    "%s.%s = %s" % (c, m, s))
        # ... before it is evaluated
        for e in sg.events:
            if ws and e.kind == "call" and e.q and e.q == c + "::evaluate":
                R.check(any(dominates(sg, w.n, e.n) for w in ws), "effect", e.where(), "%s.%s before" % (c, m), "vvplot: %s is evaluated before its %s is set" % (c, m), "%s set before evaluation" % m)
    # the isolines
    for e in sg.events:
        if e.kind == "call" and e.q == "XIsoline::XIsoline" and len(e.args) >= 4:
            a = list(e.args)[-4:]
            ns = [names(x) for x in a[1:]]
            if any("opt::S" + k in n for n in ns for k in ("min", "max", "step")):
                for x, s in zip(ns, ("opt::Smin", "opt::Smax", "opt::Sstep")):
                    R.check(x == {s} or s in x and not x & ({"opt::Smin", "opt::Smax", "opt::Sstep"} - {s}) or s == "opt::Sstep" and s in x, "field", e.where(), "isolines %s" % s,
                            "vvplot: the streamlines are drawn with %s where %s belongs" % (", ".join(sorted(x)), s), "streamlines: %s" % s)
            elif any("opt::P" + k in n for n in ns for k in ("min", "max")):
                R.check(ns[0] == {"opt::Pmin"} and ns[1] == {"opt::Pmax"}, "field", e.where(), "isolines P", "vvplot: the isobars do not run from Pmin to Pmax", "isobars: Pmin to Pmax")
    # formatted settings
    fm = {"  size %d, %d": ("opt::width", "opt::height"), "set xrange [%lg:%lg]": ("opt::rect.xmin", "opt::rect.xmax"), "set yrange [%lg:%lg]": ("opt::rect.ymin", "opt::rect.ymax")}
    cb = []
    for e in sg.events:
        if e.kind != "call" or not e.args:
            continue
        for i, a in enumerate(e.args):
            if a[0] == "s":
                vals = e.args[i + 1:]
                key = a[1].strip()
                if re.match(r"size %\w+, ?%\w+", key) or re.match(r"set [xy]range \[%\w+:%\w+\]", key):
                    w = ("opt::width", "opt::height") if key.startswith("size") else tuple("opt::rect.%s%s" % (key[4], s) for s in ("min", "max"))
                    if len(vals) >= 2:
                        for v, s in zip(vals, w):
                            R.check(names(deref(v)) == {s}, "field", e.where(), key, "vvplot: '%s' is printed with %s" % (key, ", ".join(sorted(names(deref(v)))) or show(v)[:40]), "%s <- %s" % (key, s))
                elif re.match(r"set cbrange \[%\w+:%\w+\]", key) and len(vals) >= 2:
                    cb.append((e, names(deref(vals[0])), names(deref(vals[1])), deref(vals[0]), deref(vals[1])))
    for e, a, b, ta, tb in cb:
        p = {frozenset(a), frozenset(b)}
        ok = (a == {"opt::Pmin"} and b == {"opt::Pmax"}) or (a == {"opt::Umin"} and b == {"opt::Umax"}) or (a == b == {"opt::Gmax"} and neg(ta) and not neg(tb))
        R.check(ok, "field", e.where(), "cbrange", "vvplot: the colour range runs from %s to %s" % (show(ta)[:40], show(tb)[:40]), "colour range %s..%s" % (sorted(a), sorted(b)))
    R.count("colour_ranges", len(cb))
    # the reference frame of the axes
    frame(R, sg)
    # each option's setting is read by the tool
    used = set()
    for g in P.fns.values() if isinstance(P.fns, dict) else P.fns:
        if g.file.startswith(d):
            for x in g.nodes:
                if x and x["k"] == "DeclRefExpr" and str(x.get("d", "")).startswith("g:opt::") and g.q != "opt::parse":
                    used.add(x["d"][2:].split("@")[0].split("~")[0])
    for s in ("B", "V", "S", "G", "P", "U", "Vcirc", "Vsize", "gray", "colorbox", "timelabel", "holder", "spring", "ofmt", "ref_xy", "ref_S", "ref_P", "load_field", "eps_mult", "mesh_hi", "mesh_lo", "rect",
              "width", "height", "target", "input", "Gmax", "Pmin", "Pmax", "Umin", "Umax", "Smin", "Smax", "Sstep"):
        R.check("opt::" + s in used, "effect", rel(f.file), s, "vvplot: the setting opt::%s is never used" % s, "opt::%s is used" % s)
    # switches: what they switch is reachable only one way
    for s in ("opt::B", "opt::V", "opt::gray", "opt::colorbox", "opt::timelabel", "opt::holder", "opt::spring", "opt::S", "opt::load_field"):
        def mk(v):
            def ok(a, b, l):
                return not contra(sg, a, l, lambda t: v if (t[0] == "ld" and gname(t[1]) == s) or (t[0] == "phi" and gname(t[2]) == s) else None)
            return ok
        on, off = sg.reach([sg.entry.i], edges=mk(1)), sg.reach([sg.entry.i], edges=mk(0))
        only = [e for e in sg.events if e.n in on and e.n not in off and e.kind == "call"]
        R.check(bool(only), "effect", rel(f.file), s + " switch", "vvplot: nothing is done only when %s is set" % s, "%s switches %d operations" % (s, len(only)))
        if s in ("opt::gray", "opt::colorbox"):
            continue
        tag = {"opt::V": "vortex_list", "opt::timelabel": "t = %lf", "opt::B": "filledcurve", "opt::holder": "'body_holders'", "opt::spring": "'body_springs'"}.get(s)
        if tag:
            wrong = [e for e in sg.events if e.kind == "call" and e.n in off and any(a[0] == "s" and tag in a[1] for a in e.args or ())]
            right = [e for e in only if any(a[0] == "s" and tag in a[1] for a in e.args or ())]
            R.check(right and not wrong, "effect", (wrong or right or [None])[0].where() if wrong or right else rel(f.file), s + " tag", "vvplot: '%s' is not written exactly when %s is set" % (tag, s), "%s: %s" % (s, tag))
    # output
    enum = {}
    for g in P.fns.values() if isinstance(P.fns, dict) else P.fns:
        if g.file.startswith(d):
            for x in g.nodes:
                if x and x["k"] == "DeclRefExpr" and x.get("cv") is not None and x.get("enum", "").startswith("ffmt::"):
                    enum[x["name"]] = int(x["cv"])
    for q, name in (("save", "tar"), ("exec", "png")):
        evs = [e for e in sg.events if e.kind == "call" and e.q and e.q.endswith("Gnuplotter::" + q)]
        if not evs or name not in enum:
            R.assume("vvplot: %s of the plot script is not a call of Gnuplotter::%s" % (name, q))
            continue
        for v in enum.values():
            if v == enum.get("hdf"):
                continue
            r = sg.reach([sg.entry.i], edges=lambda a, b, l: not contra(sg, a, l, lambda t: v if t[0] in ("ld", "phi") and gname(t[1] if t[0] == "ld" else t[2]) == "opt::ofmt" else None) and
                         caseok(sg, a, l, "opt::ofmt", v))
            R.check(any(e.n in r for e in evs) == (v == enum[name]), "effect", evs[0].where(), "ofmt %s" % name, "vvplot: the output format %s is not the one asked for" % name, "%s -> Gnuplotter::%s" % (name, q))


def caseok(sg, a, l, name, v):
    if not (isinstance(l, tuple) and l[0] in ("case", "default")):
        return True
    for e in sg.ev_at.get(a, ()):
        if e.kind == "br" and e.val[0] in ("ld", "phi") and gname(e.val[1] if e.val[0] == "ld" else e.val[2]) == name:
            if l[0] == "case" and l[1] is not None:
                return int(l[1]) == v
            return not any(k[0] == "case" and k[1] is not None and int(k[1]) == v for _, k in sg.nodes[a].succ if isinstance(k, tuple))
    return True


def deref(v):
    return v if v[0] != "g" and v[0] != "fld" else ("ld", v)


def neg(t):
    return (t[0] == "op1" and t[1] == "-") or (t[0] == "op" and t[1] == "*" and ("c", -1) in t[2:])


def known_member(P, c, m):
    def has(r):
        rec = P.records.get(r)
        return bool(rec) and (any(x["name"] == m for x in rec["fields"]) or any(has(base_type(b["t"])) for b in rec["bases"]))
    return has(c)


def frame(R, sg):
    """--ref-xy: which limits move with which choice."""
    ws = [e for e in sg.events if e.kind == "write" and (gname(e.loc) or "").startswith("opt::rect.")]
    R.need(len(ws), 4, "shifts of the axes")
    want = {"o": "", "f": "xy", "b": "xy", "x": "x", "y": "y"}
    RX = lambda t: t[0] in ("ld", "phi") and gname(t[1] if t[0] == "ld" else t[2]) == "opt::ref_xy"
    for c, axes in want.items():
        def edges(a, b, l):
            def env(t):
                if RX(t):
                    return ord(c)
                if t[0] == "f" and t[1] in ("strchr", "std::strchr") and t[2][0] == "s":
                    return int(c in t[2][1])
                return None
            return not contra(sg, a, l, env) and caseok(sg, a, l, "opt::ref_xy", ord(c))
        r = sg.reach([sg.entry.i], edges=edges)
        got = {}
        for e in ws:
            if e.n in r:
                got.setdefault(gname(e.loc).split(".")[-1], []).append(e)
        exp = {a + m for a in axes for m in ("min", "max")}
        w = ws[0].where()
        R.check(set(got) == exp, "frame", w, c, "vvplot: --ref-xy %s moves %s instead of %s" % (c, ", ".join(sorted(got)) or "nothing", ", ".join(sorted(exp)) or "nothing"), "ref-xy %s: %s" % (c, sorted(exp)))
        for m, es in got.items():
            for e in es:
                v = e.val
                ok = v[0] == "op" and v[1] == "+"
                src, fluid = set(), False
                for x in subterms(v):
                    qs = (x[2],) if x[0] == "fld" else tuple(y for y in ((x[2],) if isinstance(x[2], str) else x[2]) if isinstance(y, str)) if x[0] == "fv" else ()
                    src |= {y.split("::")[-1] for y in qs if y.startswith("TVec::")}
                    fluid = fluid or "Space::inf_marker" in qs
                R.check(ok and src == {m[0]}, "frame", e.where(), "%s %s" % (c, m), "vvplot: --ref-xy %s moves %s by %s" % (c, m, show(v)[:60]), "%s += .%s" % (m, m[0]))
                R.check(fluid == (c == "f"), "frame", e.where(), "%s %s frame" % (c, m), "vvplot: --ref-xy %s moves %s with %s" % (c, m, "the fluid" if fluid else "something else"),
                        "%s follows the %s" % (m, "fluid" if fluid else "body"))


def effects_x(P, R):
    """vvxtract: the two switches."""
    fns = [f for f in P.by_q.get("main", []) if "vvxtract" in f.file]
    R.need(len(fns), 1, "main of vvxtract")
    f = fns[0]
    sg = SG(P, f, inline=lambda g, c: g.file == f.file, maxdepth=3, reads=True, maythrow=lambda k: False)
    for s in ("opt::b_info", "opt::b_list"):
        def mk(v):
            return lambda a, b, l: not contra(sg, a, l, lambda t: v if t[0] in ("ld", "phi") and gname(t[1] if t[0] == "ld" else t[2]) == s else None)
        on, off = sg.reach([sg.entry.i], edges=mk(1)), sg.reach([sg.entry.i], edges=mk(0))
        only = [e for e in sg.events if e.n in on and e.n not in off and e.kind == "call"]
        R.check(bool(only), "effect", rel(f.file), s + " switch", "vvxtract: nothing is done only when %s is set" % s, "%s switches %d operations" % (s, len(only)))


def run(P, R, tier):
    for r, w in (("table", "no option is listed twice, and a flag option sets the variable and value of its name"), ("documented", "every documented option is recognised, with or without an argument as documented"),
                 ("reject", "an argument that the documentation makes invalid never lets the tool go on"), ("accept", "a valid argument is never refused"), ("status", "failures end with non-zero, help and version with zero status"),
                 ("sets", "an accepted option leaves its value in its own settings"), ("own", "an option changes nothing else"), ("format", "scans convert to the setting's type, separated as documented"),
                 ("unknown", "unknown options end the tool with an error"), ("operands", "missing or surplus operands end the tool with an error"), ("dimensions", "the one missing plot dimension is completed from the others"),
                 ("default", "settings start at the documented defaults"), ("effect", "every setting changes what the tool does, as documented"), ("field", "settings reach the place they are documented for"),
                 ("frame", "--ref-xy moves the axes it names, with the frame it names")):
        R.rule(r, w)
    ps = {}
    for f in P.by_q["opt::parse"]:
        if "vvplot" in f.file:
            ps["vvplot"] = check_parser(P, R, f, spec_vvplot())
            b = operands(R, ps["vvplot"])
            dimensions(R, ps["vvplot"], b)
            defaults(P, R, f)
        elif "vvxtract" in f.file:
            ps["vvxtract"] = check_parser(P, R, f, spec_vvxtract())
            operands(R, ps["vvxtract"])
    R.need(len(ps), 2, "option parsers")
    effects(P, R)
    effects_x(P, R)
