"""C03 no failure of a file-format operation is ignored."""
import re
from vv.snap import *
from vv.sg import decide

TECHNIQUE = "path-sensitive propagation of each library call's failure value over the inlined call graph"
NOTE = """Each HDF5 call site reached from saving, loading and time-series recording is assumed to fail; following only the branches
that its negative result allows, no path may end normally. Probes for the kind of file (H5Fis_hdf5; H5Aexists in the extraction tool), error-stack bookkeeping and calls made by destructors are exempt."""

EXEMPT = ("H5open", "H5Eset_auto", "H5Eprint", "H5Epop", "H5Eget_num", "H5Fis_hdf5", "H5garbage", "H5close", "H5Eclear", "H5check_version", "H5is_library", "H5Fis_accessible", "H5free_memory", "H5Iis_valid")


def h5calls(sg):
    out = []
    for e in sg.events:
        if e.kind != "call":
            continue
        q = e.q
        if q == "?":
            q = sg_callee(sg, e)
        if q and q.startswith("H5") and not q.startswith(EXEMPT):
            if not e.fn.q.split("::")[-1].startswith("~"):
                out.append((e, q))
    return out


def sg_callee(sg, e):
    """Function an indirect call goes to, from the value of its callee expression."""
    nd = e.fn.nodes[e.nid]
    for c in nd["c"][:1]:
        v = sg.val.get((e.ctx, c))
        if v is None:
            v = sg.val.get((e.ctx, e.fn.strip(c)))
        if v is not None:
            qs = set()
            for x in sg.expand(v):
                if x[0] in ("fld", "loc"):
                    x = sg.load(prestate(sg, e.n), x)
                for y in sg.expand(x):
                    qs.add(y[1] if y[0] == "fn" else "?")
            if len(qs) == 1:
                k = qs.pop()
                for f in sg.inlined_fns:
                    d = sg.prog.fns[f].decls.get(k)
                    if d:
                        return d.get("q")
                return k
    return None


def trace(sg, came, n):
    out = []
    while n is not None:
        out.append(n)
        n = came[n]
    lines = []
    for x in reversed(out):
        for e in sg.ev_at.get(x, ()):
            if e.kind in ("br", "ret"):
                w = e.where().split("/")[-1]
                if not lines or lines[-1] != w:
                    lines.append(w)
    return " -> ".join(lines[:3] + (["..."] if len(lines) > 6 else []) + lines[-3:])


def run(P, R, tier):
    R.rule("handled", "after a failed library call no path ends normally")
    R.rule("closed", "a file, dataset or attribute opened for a snapshot is closed with its result checked on every path that ends normally")
    R.rule("covered", "every library call of the program is analysed from some root")
    roots = []
    for q, kind in (("Space::save", "snap"), ("Space::load", "snap"), ("Stepdata::write", "series"), ("Stepdata::flush", "series")):
        roots.append((P.fn(q), kind))
    for f in P.fns.values():
        if f.q == "Stepdata::Stepdata" and any(f.calls()):
            roots.append((f, "series"))
    mains = [f for f in P.fns.values() if f.q == "main" and "vvxtract" in f.file]
    covered = set()
    res = []

    def one(item):
        i, kind = item
        out = []
        f = items[i][0]
        inl = inline()
        if kind == "main":
            inl = lambda g, c: g.file == f.file
        sg = SG(P, f, inline=inl, maythrow=may_throw)
        cs = h5calls(sg)
        cov = {(e.fn.file, e.fn.nodes[e.nid]["l"], q) for e, q in cs}
        main = f.q == "main"
        for e, q in cs:
            if main and q == "H5Aexists":
                continue    # the tool's probe for whether the file is a snapshot at all
            rets = {("ret", e.n)}
            base = {("ret", e.n): -1}

            def extra(x, env, e=e):
                if x.kind == "call" and x.n != e.n:
                    qq = x.q if x.q != "?" else "H5"
                    if qq.startswith("H5") and not qq.startswith(EXEMPT):
                        for a in x.args:
                            if env(a) == -1:
                                return {("ret", x.n): -1}
                return None

            def stop(n, env):
                for x in sg.ev_at.get(n, ()):
                    if x.kind == "ret" and x.ctx == 0 and x.val is not None:
                        v = decide(x.val, env)
                        if main and v is not None and v != 0:
                            return True
                        if kind == "other" and v is not None:
                            return True
                    if x.kind == "call" and main and x.q in ("exit", "_exit"):
                        return True
                return False
            came = sg.follow(e.n, base, stop=stop, extra=extra, negne=True)
            bad = sg.exit.i in came
            again = any(p == e.n and n != e.n for n, p in came.items()) and False
            out.append(("handled", not bad, e.where(), "%s %s" % (q, e.fn.q), "a failure of %s is ignored: %s can end normally (%s)" %
                        (q, f.q, trace(sg, came, sg.exit.i) if bad else "")))
        if kind == "snap":
            for e, q in cs:
                m = re.match(r"H5([FDA])(create|open)", q)
                if not m:
                    continue
                clq = "H5%sclose" % m.group(1)
                closers = {x.n: x for x, qq in cs if qq.startswith(clq)}

                def stop(n, env):
                    x = closers.get(n)
                    return x is not None and env(x.args[0]) == 7

                def extra(x, env):
                    return None
                came = sg.follow(e.n, {("ret", e.n): 7}, stop=stop)
                bad = sg.exit.i in came
                out.append(("closed", not bad, e.where(), "%s %s" % (q, e.fn.q), "what %s returns is not closed explicitly on some path of %s (%s)" %
                            (q, f.q, trace(sg, came, sg.exit.i) if bad else "")))
        return out, cov

    items = roots + [(m, "main") for m in mains]
    for out, cov in forkmap(one, [(i, k) for i, (f, k) in enumerate(items)]):
        res += out
        covered |= cov
    # anything not reached from these roots is analysed on its own
    rest = []
    allsites = 0
    for f in P.fns.values():
        if "/linenoise" in f.file or not f.blocks:
            continue
        un = False
        for nid, nd, d in f.calls():
            q = (d or {}).get("q", "")
            if q.startswith("H5") and not q.startswith(EXEMPT) and not f.q.split("::")[-1].startswith("~"):
                allsites += 1
                if (f.file, nd["l"], q) not in covered and "release" not in f.q:
                    un = True
        if un:
            rest.append((f, "other"))
    n0 = len(items)
    items += rest
    for out, cov in forkmap(one, [(n0 + i, "other") for i in range(len(rest))]):
        res += out
        covered |= cov
    for f, _ in rest:
        R.notes.append("analysed on its own: " + f.q)
    for rule, ok, where, key, msg in res:
        R.check(ok, rule, where, key, msg)
    R.ok("covered", "%d call sites" % allsites)
    R.need(allsites, 70, "library call sites")
    R.need(sum(r[0] == "handled" for r in res), 150, "failure paths")
    R.need(sum(r[0] == "closed" for r in res), 8, "handles followed to their close")
