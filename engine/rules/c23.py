"""C23 output files: creation modes, reported failures, complete writes."""
import re
from vv.lib import *
from vv.sg import decide, subterms, norm

TECHNIQUE = "path-sensitive propagation of each output call's failure value, and must-pass analysis from every buffered write to a checked flush"
NOTE = """Decides, for every function of the library and the tools that creates, writes or closes a file through stdio, file descriptors or libarchive (and for
what vvxtract prints), that the file is created truncating (the two logs that a restart continues excepted), that each call's failure leads to an exception, an error status or a message, that after the last
buffered write both the flush and the stream's error indicator are checked, that short writes do not pass for complete ones, and that the whole buffer is handed over. HDF5 calls are C03; in-memory streams, help texts and closing in destructors are exempt."""

BUF = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "printf": None, "puts": None, "putchar": None, "vprintf": None}
FD = {"open": -1, "openat": -1, "creat": -1, "dup2": -1, "dup": -1, "write": -1, "pwrite": -1, "syscall": -1, "memfd_create": -1,
      "ftruncate": -1, "fsync": -1, "rename": -1, "execlp": -1, "execvp": -1, "execl": -1, "execv": -1, "execve": -1, "mkstemp": -1}
STDIO = {"fopen": 0, "fdopen": 0, "freopen": 0, "tmpfile": 0, "fflush": -1, "fclose": -1, "ferror": 1}
ARCH = {"archive_write_open_filename": -30, "archive_write_open_fd": -30, "archive_write_open_FILE": -30, "archive_write_header": -30, "archive_write_data": -1,
        "archive_write_finish_entry": -30, "archive_write_close": -30, "archive_write_free": -30, "archive_write_new": 0, "archive_entry_new": 0}
SKIPARCH = {"archive_write_new", "archive_entry_new"}     # out of memory
ALL = {**FD, **STDIO, **ARCH}
O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 1, 2, 0o100, 0o200, 0o1000, 0o2000
LUA = {"luaL_loadfilex": 2, "luaL_loadfile": 2, "luaL_loadstring": 2, "luaL_loadbufferx": 2, "lua_pcallk": 2, "lua_pcall": 2}


def mine(f):
    return f.blocks and "/linenoise" not in f.file and "/test/" not in f.file


def callq(d):
    q = (d or {}).get("q", "")
    return q[5:] if q.startswith("std::") else q


def issize(x):
    return x[0] == "f" and x[1] in ("size", "length") and len(x) == 3


def bare(x):
    while x[0] == "ld":
        x = x[1]
    return x


def isstd(t, name):
    return any(x[0] == "g" and x[1].split(":")[-1] == name for x in subterms(t))


def run(P, R, tier):
    R.rule("modes", "a file is created truncating what it held; only the logs that a restart continues are opened otherwise")
    R.rule("handled", "after a failed output call no path ends as if it had succeeded")
    R.rule("flushed", "after a buffered write every path that ends normally checks the flush and the stream's error indicator")
    R.rule("complete", "a short write is continued or reported")
    R.rule("whole", "the size handed over is the size of the buffer handed over")
    R.rule("status", "the simulator's exit status is non-zero when its script failed")

    # the functions that write, and the functions of the same file that use them
    direct = {}
    for f in P.fns.values():
        if not mine(f):
            continue
        for i, n, d in f.calls():
            q = callq(d)
            if q in ALL or q in BUF:
                direct.setdefault(f, []).append((q, n))
    tool = lambda f: "/vvxtract/" in f.file
    callers = P.callers()
    key = {id(f): k for k, f in P.fns.items()}
    need = set()
    for f, cs in direct.items():
        if tool(f) or any(q not in ("printf", "puts", "putchar", "fprintf", "vfprintf", "fputs", "fopen", "fclose") for q, _ in cs) or \
                any(q in ("fprintf", "fputs", "fopen", "fwrite") for q, _ in cs):
            need.add(f)
    roots, seen = [], set()

    def lift(f):
        if f in seen:
            return
        seen.add(f)
        up = [g for g, _ in callers.get(key[id(f)], ()) if g is not f and mine(g)]
        if up and all(g.file == f.file for g in up):
            for g in up:
                lift(g)
        else:
            roots.append(f)
    for f in sorted(need, key=lambda f: (f.file, f.line)):
        if f.q.split("::")[-1].startswith("~"):
            continue
        lift(f)
    prints = {key[id(f)] for f, cs in direct.items() if any(q in BUF for q, _ in cs)}
    roots = [f for f in roots if "optparse" not in f.file]
    streams = fds = 0
    opened = 0

    def one(f):
        out = []
        main = f.q == "main"
        sg = SG(P, f, inline=lambda g, c: g.file == f.file, maythrow=lambda k: False)
        cs = [e for e in sg.events if e.kind == "call" and not e.fn.q.split("::")[-1].startswith("~")]
        name = lambda e: e.q[5:] if e.q.startswith("std::") else e.q
        at = {}
        for e in cs:
            at.setdefault(e.n, []).append(e)

        def origins(t):
            return [x for y in sg.expand(t) for x in [y[1] if y[0] == "ret" else None]]

        def reading(t):
            """Is the stream (or archive) one that was opened to read?"""
            os_ = origins(t)
            if not os_ or None in os_:
                return False
            for n in os_:
                for e in at.get(n, ()):
                    if name(e) in ("fopen", "fdopen"):
                        m = e.args[1]
                        if not (m[0] == "s" and m[1].startswith("r") and "+" not in m[1]):
                            return False
            return True

        def message(x):
            q = name(x)
            return q in ("perror", "H5Eprint2") or q in ("fprintf", "vfprintf", "fputs") and any(isstd(a, "stderr") for a in x.args[:2])

        def reported(n, env):
            for x in sg.ev_at.get(n, ()):
                if x.kind == "ret" and x.ctx == 0 and x.val is not None:
                    v = decide(x.val, env)
                    if v is not None and (v != 0 if main else True) and not (v == 0 and "ret" not in str(f.q) and main):
                        if main or v < 0 or v == 0:
                            return True
                if x.kind == "call":
                    if name(x) in ("exit", "_exit", "quick_exit") and decide(x.args[0], env) not in (None, 0):
                        return True
                    if name(x) in ("abort", "terminate"):
                        return True
                    if not main and message(x):
                        return True
            return False

        status = {x.n for x in cs if name(x) in ("fflush", "fclose", "ferror")}

        def fine(x, env):
            """Calls other than the one that fails have succeeded."""
            return {("ret", x.n): 0} if x.kind == "call" and x.n in status and env(("ret", x.n)) is None else None

        def survives(e, v):
            base = {("ret", n): 0 for n in status if n != e.n}
            base[("ret", e.n)] = v
            came = sg.follow(e.n, base, stop=reported, negne=True)
            return sg.exit.i in came

        good = set()
        for e in cs:
            q = name(e)
            if q not in ALL or q in SKIPARCH:
                continue
            if q in ("fclose", "ferror") and e.args and reading(e.args[0]):
                continue
            if q == "fopen" and len(e.args) == 2 and e.args[1][0] == "s" and e.args[1][1].startswith("r") and "+" not in e.args[1][1]:
                continue
            if q == "open" and len(e.args) == 2:
                continue
            bad = survives(e, ALL[q])
            if not bad:
                good.add(e.n)
            k = "%s %s" % (q, e.fn.q)
            if q in ("ferror", "archive_write_free"):
                continue
            out.append(("handled", not bad, e.where(), k, "a failure of %s goes unreported: %s can end normally after it" % (q, f.q), q))
        # modes
        for e in cs:
            q = name(e)
            if q in ("fopen", "fdopen", "freopen"):
                ms = sg.expand(e.args[1])
                for m in ms:
                    if m[0] != "s":
                        out.append(("assume", None, e.where(), "", "the mode of %s in %s is not a constant" % (q, e.fn.q), q))
                        continue
                    s = m[1]
                    if s.startswith("r") and "+" not in s:
                        continue
                    log = e.fn.q.startswith("sensors::")
                    want = "a" if log else "w"
                    out.append(("modes", s.startswith(want) and "x" not in s, e.where(), "%s %s" % (q, e.fn.q),
                                "%s opens its output with mode '%s': %s" % (e.fn.q, s, "a restart must continue the log" if log else "what the file held before is not replaced"), q))
            if q in ("open", "openat") and len(e.args) >= 2:
                fl = decide(e.args[1 + (q == "openat")], lambda t: None)
                if fl is None:
                    out.append(("assume", None, e.where(), "", "the flags of open in %s are not constant" % e.fn.q, q))
                elif int(fl) & 3:
                    fl = int(fl)
                    out.append(("modes", bool(fl & O_CREAT and fl & O_TRUNC and not fl & (O_APPEND | O_EXCL)), e.where(), "%s %s" % (q, e.fn.q),
                                "%s opens its output with flags 0%o: what the file held before is not replaced" % (e.fn.q, fl), q))
        # buffered writes
        writes = []
        for e in cs:
            q = name(e)
            if q in BUF:
                i = BUF[q]
                t = ("ld", ("g", "g:stdout")) if i is None else e.args[i] if i < len(e.args) else None
                if t is None or isstd(t, "stderr"):
                    continue
                if isstd(t, "stdout") and not tool(f):
                    continue        # progress messages, not an output file
                writes.append((e, t))
            elif tool(f) and (any(x[0] == "fn" and x[1] in prints for a in e.args for y in sg.expand(a) for x in subterms(y)) or
                              re.match(r"H5(Ovisit|Lvisit|Literate|Aiterate|Diterate)", q) and any(k.startswith("lambda@" + f.file) or P.fns[k].file == f.file and P.fns[k] is not f for k in prints)):
                writes.append((e, ("ld", ("g", "g:stdout"))))
        argstream = lambda t: any(x[0] == "arg" and x[1] != "this" for x in subterms(t))
        for e, t in writes:
            if not isstd(t, "stdout") and not any(x[0] == "fld" for x in subterms(t)) and not any(o is not None for o in origins(t)):
                out.append(("assume", None, e.where(), "", "%s writes to a stream its caller owns" % f.q, ""))
                continue
            res = norm(t)
            fl = {x.n for x in cs if name(x) in ("fflush", "fclose") and x.n in good and x.args and
                  (norm(x.args[0]) == res or x.args[0] == ("c", 0) or isstd(x.args[0], "stdout") and isstd(t, "stdout"))}
            er = {x.n for x in cs if name(x) == "ferror" and x.n in good and x.args and (norm(x.args[0]) == res or isstd(x.args[0], "stdout") and isstd(t, "stdout"))}
            checked = name(e) in BUF and not survives(e, -1 if name(e) != "fwrite" else 0)

            def leak(via):
                def stop(n, env):
                    return n in via or reported(n, env)
                came = sg.follow(e.n, {}, stop=stop, extra=fine)
                return sg.exit.i in came
            b1 = leak(fl)
            b2 = not checked and leak(er)
            out.append(("flushed", not b1 and not b2, e.where(), "%s %s" % (name(e), e.fn.q),
                        "what %s writes here can be lost unnoticed: %s" % (f.q, "a path ends without a checked flush" if b1 else "a path ends without looking at the stream's error indicator"), "w"))
        for e in cs:
            if name(e) in ("archive_write_header", "archive_write_data"):
                ends = {x.n for x in cs if name(x) in ("archive_write_close", "archive_write_free") and x.n in good and norm(x.args[0]) == norm(e.args[0])}
                came = sg.follow(e.n, {}, stop=lambda n, env: n in ends or reported(n, env))
                out.append(("flushed", sg.exit.i not in came, e.where(), "%s %s" % (name(e), e.fn.q), "the archive that %s writes is not closed with a checked result on every path" % f.q, "w"))
        # direct writes
        for e in cs:
            q = name(e)
            if q not in ("write", "archive_write_data"):
                continue
            buf, size = norm(e.args[1]), norm(e.args[2])
            phis = {x for x in subterms(e.args[2]) if x[0] == "phi"}
            sizes = {x for x in list(subterms(e.args[2])) + [e.args[2]] if issize(x)}
            inner = {p for x in sizes for p in subterms(x[2])}
            phis -= inner
            base = {}
            if e.args[2][0] == "phi":
                base = {e.args[2]: 2}
            else:
                base = {**{p: 0 for p in phis}, **{s: 2 for s in sizes}}
            if decide(e.args[2], base.get) != 2:
                out.append(("assume", None, e.where(), "", "the size written in %s has no form that could be judged" % e.fn.q, q))
                continue
            base[("ret", e.n)] = 1

            def stop(n, env):
                # coming back to the call itself is the continued write
                return n == e.n or reported(n, env)
            came = sg.follow(e.n, base, stop=stop, consts=True)
            bad = sg.exit.i in came
            out.append(("complete", not bad, e.where(), "%s %s" % (q, e.fn.q), "a short %s is taken for a complete one: %s can end normally" % (q, f.q), q))
            # whole: base + offset against size - offset
            b, s = e.args[1], e.args[2]
            off = None
            if b[0] == "op" and b[1] == "+":
                off, b = b[3], b[2]
            okw = None
            objs = lambda t: {norm(bare(x)) for x in sg.expand(t)} | {norm(bare(t))}
            if issize(s):
                okw = off is None and bool(objs(s[2]) & objs(b))
            elif s[0] == "op" and s[1] == "-" and issize(s[2]):
                okw = off is not None and norm(off) == norm(s[3]) and bool(objs(s[2][2]) & objs(b))
                if okw and off[0] == "phi":
                    okw = any(x == ("c", 0) for x in sg.phis.get(off, ()))
            elif s[0] == "op":
                okw = False
            if okw is None:
                out.append(("assume", None, e.where(), "", "the buffer and size handed to %s in %s have no form that could be compared" % (q, e.fn.q), q))
            else:
                out.append(("whole", okw, e.where(), "%s %s" % (q, e.fn.q), "%s hands over something else than the whole buffer: %s bytes of %s" % (e.fn.q, show(s), show(e.args[1])), q))
        # the size in an archive entry's header is that of its data
        for e in cs:
            if name(e) == "archive_entry_set_size":
                ds = [x for x in cs if name(x) == "archive_write_data"]
                out.append(("whole", any(norm(x.args[2]) == norm(e.args[1]) for x in ds), e.where(), "archive_entry_set_size %s" % e.fn.q,
                            "the size in the entry's header, %s, is not the size of its data" % show(e.args[1]), "hdr"))
        return out

    res = []
    for out in forkmap(lambda i: one(roots[i]), list(range(len(roots)))):
        res += out
    for rule, ok, where, k, msg, q in res:
        if rule == "assume":
            R.assume(where + ": " + msg)
        else:
            R.check(ok, rule, where, k, msg)
    # creation of HDF5 files
    for f in P.fns.values():
        if not mine(f):
            continue
        for i, n, d in f.calls():
            q = callq(d)
            if q in ("H5Fcreate", "H5Fopen"):
                sg = SG(P, f, inline=lambda g, c: False, maythrow=lambda k: False)
                for e in sg.events:
                    if e.kind == "call" and e.nid == i and e.ctx == 0:
                        fl = decide(e.args[1], lambda t: None)
                        if fl is None:
                            fl = [decide(t, lambda t: None) for t in sg.expand(e.args[1])]
                        else:
                            fl = [fl]
                        for v in fl:
                            if v is None:
                                R.assume("%s: the flags of %s are not constant" % (e.where(), q))
                            elif q == "H5Fcreate":
                                R.check(int(v) & 2 == 2, "modes", e.where(), q + " " + f.q, "%s does not replace the file that has the name already" % f.q)
                            elif int(v) & 1:
                                R.check(f.q.startswith("Stepdata::"), "modes", e.where(), q + " " + f.q, "%s opens an existing file for writing: what it held is mixed with what is written" % f.q)
    for f in P.fns.values():
        if f.q != "main" or "/vvflow/" not in f.file.split("utils")[-1]:
            continue
        sg = SG(P, f, inline=lambda g, c: g.file == f.file, maythrow=lambda k: False)

        def stop(n, env):
            for x in sg.ev_at.get(n, ()):
                if x.kind == "ret" and x.ctx == 0 and x.val is not None and decide(x.val, env) not in (None, 0):
                    return True
                if x.kind == "call" and x.q in ("exit", "_exit", "abort") and decide(x.args[0], env) != 0:
                    return True
            return False
        for e in sg.events:
            if e.kind == "call" and e.q in LUA:
                came = sg.follow(e.n, {("ret", e.n): LUA[e.q]}, stop=stop)
                R.check(sg.exit.i not in came, "status", e.where(), "%s main" % e.q, "the simulator can end with status 0 after %s failed" % e.q)
    n = lambda r: sum(x[0] == r for x in res)
    R.need(R.rules["status"]["obligations"], 3, "script runs")
    R.need(R.rules["modes"]["obligations"], 6, "opened output files")
    R.need(n("handled"), 15, "failure values followed")
    R.need(n("flushed"), 10, "buffered writes")
    R.need(n("complete"), 3, "direct writes")
