"""Loads the facts of the whole program (every translation unit that the build
compiles) and indexes them."""
import glob, hashlib, json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.dirname(HERE)
VERIF = os.path.dirname(ENGINE)
REPO = os.environ.get("VV_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class AnalysisError(Exception):
    """The analysis cannot decide (vanished anchor, unparsable source)."""


def tool():
    src = os.path.join(ENGINE, "vvfacts.cpp")
    os.makedirs(CACHE, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(CACHE, "vvfacts-" + h)
    if not os.path.exists(exe):
        flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        flags = [f for f in flags if f != "-fno-exceptions"]
        tmp = exe + ".%d" % os.getpid()
        subprocess.check_call(
            ["clang++-18"] + flags + ["-fno-rtti", "-O1", "-w", src, "-o", tmp,
             "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
        os.rename(tmp, exe)
    return exe


def sources():
    """(file, flags) of every unit of the four build targets."""
    inc = ["-I" + REPO + "/libvvhd/headers", "-I/opt/vp/deps/lua/src",
           "-I/opt/vp/deps/hdf5/include", "-I/opt/vp/deps/libarchive/include",
           "-I" + ENGINE + "/include", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    common = ["-DNDEBUG", "-w", "-ferror-limit=5"] + inc
    out = []
    for f in sorted(glob.glob(REPO + "/libvvhd/src/*.cpp")):
        out.append((f, ["-std=c++11", "-fopenmp"] + common))
    for d in ("vvflow", "vvplot", "vvxtract"):
        for f in sorted(glob.glob(REPO + "/utils/%s/*.cpp" % d)):
            out.append((f, ["-std=c++11"] + common))
        for f in sorted(glob.glob(REPO + "/utils/%s/*.c" % d)):
            out.append((f, common))
    return out


def _headers_digest():
    h = hashlib.sha256()
    for base in ("libvvhd", "utils"):
        for dp, dn, fn in os.walk(os.path.join(REPO, base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".hpp", ".h", ".in")):
                    p = os.path.join(dp, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    h.update(open(p, "rb").read() + b"\0")
    for f in ("vvfacts.cpp", "include/omp.h"):
        h.update(open(os.path.join(ENGINE, f), "rb").read())
    return h


def _extract():
    exe = tool()
    units = sources()
    if len(units) < 30:
        raise AnalysisError("only %d translation units found under %s" % (len(units), REPO))
    hd = _headers_digest()

    def run(cmd, **kw):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

    def one(u):
        f, flags = u
        h = hd.copy()
        h.update(open(f, "rb").read())
        h.update(repr([x.replace(REPO, "@") for x in flags]).encode())
        h.update(os.path.relpath(f, REPO).encode())
        cp = os.path.join(CACHE, "tu", h.hexdigest()[:32] + ".json")
        try:
            raw = open(cp, "rb").read()
            os.utime(cp)
        except OSError:
            raw = None
        if raw is None:
            raw = extract1(exe, f, flags, run)
            raw = raw.replace(REPO.encode() + b"/", b"@REPO@/")
            fd, tmp = tempfile.mkstemp(dir=os.path.join(CACHE, "tu"))
            with os.fdopen(fd, "wb") as o:
                o.write(raw)
            os.rename(tmp, cp)
        return f, json.loads(raw.replace(b"@REPO@/", REPO.encode() + b"/"))

    os.makedirs(os.path.join(CACHE, "tu"), exist_ok=True)
    def age(p):
        try:
            return os.path.getmtime(p)
        except OSError:  # another run removed it
            return 0

    old = sorted(glob.glob(os.path.join(CACHE, "tu", "*.json")), key=age)
    for p in old[:-400]:
        try:
            os.unlink(p)
        except OSError:
            pass
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))


def extract1(exe, f, flags, run):
    cmd = [exe, REPO + "/", f, "--"] + flags
    p = run(cmd)
    err = p.stderr.decode("utf-8", "replace")
    vla = re.findall(re.escape(f) + r":(\d+):(\d+): error: variable-sized object may not be initialized", err)
    if p.returncode and vla and len(vla) == len(re.findall(r": error: ", err)):
        # g++ accepts an initialiser on a variable-length array, clang 18 does not:
        # blank the initialiser (the array is zeroed, no other fact changes).
        lines = open(f, encoding="utf-8", errors="surrogateescape").read().split("\n")
        for l, _ in vla:
            l = int(l) - 1
            lines[l] = re.sub(r"=\s*\{[^{}]*\}", lambda m: " " * len(m.group(0)), lines[l], count=1)
        with tempfile.NamedTemporaryFile("w", suffix=".cpp", encoding="utf-8", errors="surrogateescape") as t:
            t.write("\n".join(lines))
            t.flush()
            p = run(cmd, env=dict(os.environ, VVFACTS_ALT=t.name))
    if p.returncode or not p.stdout.strip():
        raise AnalysisError("cannot parse %s: %s" % (f, p.stderr.decode()[:600]))
    return p.stdout


class Fn:
    __slots__ = ("key", "q", "file", "line", "endline", "params", "nodes", "blocks", "entry", "exit",
                 "decls", "files", "cls", "const", "static", "ctorinits", "ret", "body", "_parent", "unit",
                 "_fa", "_x")

    def __init__(self, d, decls, files, unit):
        for k in ("key", "q", "file", "line", "endline", "params", "nodes", "entry", "exit", "ret", "body", "ctorinits"):
            setattr(self, k, d.get(k))
        self.cls = d.get("cls")
        self.const = d.get("const", False)
        self.static = d.get("static", False)
        self.blocks = {b["id"]: b for b in d.get("blocks", [])}
        self.decls = decls
        self.files = files
        self.unit = unit
        self._parent = None
        self._fa = None
        self._x = {}

    def __repr__(self):
        return "<Fn %s>" % self.q

    @property
    def name(self):
        return self.q.split("::")[-1]

    def where(self, nid=None):
        f = self.file
        l = self.line
        if nid is not None and nid >= 0:
            n = self.nodes[nid]
            f = self.files[n["f"]] or f
            l = n["l"] or l
        return "%s:%s" % (rel(f), l)

    @property
    def parent(self):
        if self._parent is None:
            p = {}
            for i, n in enumerate(self.nodes):
                for c in n["c"]:
                    if c >= 0 and c not in p:
                        p[c] = i
            self._parent = p
        return self._parent

    TRANSPARENT = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                   "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr",
                   "OpaqueValueExpr"}

    def strip(self, nid, casts=True):
        while nid is not None and nid >= 0:
            n = self.nodes[nid]
            if n["k"] in self.TRANSPARENT and n["c"]:
                nid = n["c"][0]
            elif casts and n["k"] in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr",
                                      "CXXReinterpretCastExpr", "CXXConstCastExpr") and n.get("cast") != "UserDefinedConversion" \
                    and n.get("cast") != "ConstructorConversion":
                nid = n["c"][0]
            else:
                break
        return nid

    def calls(self):
        """(nid, decl-info) for every call / construct expression."""
        for i, n in enumerate(self.nodes):
            if n.get("callee"):
                yield i, n, self.decls.get(n["callee"])

    def walk(self, nid):
        st = [nid]
        seen = set()
        while st:
            x = st.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(self.nodes[x]["c"])


def rel(f):
    return f[len(REPO) + 1:] if f and f.startswith(REPO + "/") else f


class Prog:
    def __init__(self, units):
        self.fns = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.decls = {}
        self.units = [u for u, _ in units]
        self._separate(units)
        for u, d in units:
            for r in d["records"]:
                self.records.setdefault(r["q"], r)
            for e in d["enums"]:
                self.enums.setdefault(e["q"] + ("@" + e["file"] + ":%d" % e["line"] if e["q"].endswith("::") or not e["q"] else ""), e)
            for g in d["globals"]:
                g["unit"] = u
                g["decls"] = d["decls"]
                old = self.globals.get(g["key"])
                if old is None or old["init"] == -1:
                    self.globals[g["key"]] = g
            for f in d["functions"]:
                if f["key"] not in self.fns:
                    self.fns[f["key"]] = Fn(f, d["decls"], d["files"], u)
            for k, v in d["decls"].items():
                if v["k"] == "fn":
                    self.decls.setdefault(k, v)
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)

    @staticmethod
    def _separate(units):
        """The tools are separate programs: an external name that two of them define
        gets the name of its program appended, everywhere it is used."""
        grp = lambda u: u.split("/utils/")[1].split("/")[0] if "/utils/" in u else ""
        where = {}
        for u, d in units:
            for f in d["functions"]:
                if "/utils/" in f["file"]:
                    where.setdefault(f["key"], set()).add(grp(f["file"]))
            for g in d["globals"]:
                if "/utils/" in g["file"]:
                    where.setdefault(g["key"], set()).add(grp(g["file"]))
        clash = {k for k, v in where.items() if len(v) > 1}
        if not clash:
            return
        for u, d in units:
            s = grp(u)
            if not s:
                continue
            ren = {k: k + "~" + s for k in clash}
            d["decls"] = {ren.get(k, k): v for k, v in d["decls"].items()}
            for x in d["functions"] + d["globals"]:
                x["key"] = ren.get(x["key"], x["key"])
                for n in x["nodes"]:
                    for f in ("callee", "fn", "d"):
                        if f in n and n[f] in ren:
                            n[f] = ren[n[f]]

    def fn(self, q, file=None, nparams=None):
        c = [f for f in self.by_q.get(q, []) if (file is None or f.file.endswith(file)) and
             (nparams is None or len(f.params) == nparams)]
        if not c:
            raise AnalysisError("anchor vanished: no function %s%s" % (q, " in " + file if file else ""))
        return c[0]

    def record(self, q):
        if q not in self.records:
            raise AnalysisError("anchor vanished: no record " + q)
        return self.records[q]

    def in_files(self, *subs):
        return [f for f in self.fns.values() if any(s in f.file for s in subs)]

    def never_returns(self, key, stack=()):
        """The function leaves only by an exception or a non-returning call."""
        c = self.__dict__.setdefault("_nret", {})
        if key in c:
            return c[key]
        f = self.fns.get(key)
        if f is None or not f.blocks or key in stack:
            return False
        seen, st = {f.entry}, [f.entry]
        while st:
            b = f.blocks[st.pop()]
            stop = b.get("noret", False)
            for e in b["e"]:
                if e[0] == "s":
                    n = f.nodes[e[1]]
                    if n["k"] == "CXXThrowExpr":
                        stop = True
                    elif n.get("callee") and self.never_returns(n["callee"], stack + (key,)):
                        stop = True
            if stop:
                continue
            for s in b["s"]:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    st.append(s)
        r = f.exit not in seen
        if not stack:
            c[key] = r
        return r

    def callers(self):
        if not hasattr(self, "_callers"):
            m = {}
            for f in self.fns.values():
                for i, n, d in f.calls():
                    m.setdefault(n["callee"], []).append((f, i))
            self._callers = m
        return self._callers


_prog = None


def load():
    global _prog
    if _prog is not None:
        return _prog
    sys.setrecursionlimit(20000)
    os.makedirs(CACHE, exist_ok=True)
    units = _extract()
    _prog = Prog(units)
    return _prog
