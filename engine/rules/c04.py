"""C04 files and library handles are released on every exit."""
import re
from vv.snap import *
from vv.sg import decide

TECHNIQUE = "path-sensitive ownership (typestate) analysis of acquired values per function, plus ownership rules for classes that keep them"
NOTE = """Each acquired file, storage-library identifier, archive, interpreter or heap block is followed along every path until it is released, handed to an
owner (a class whose destructor releases it, a standard smart pointer), returned or stored in a member. Exceptions other than those the code throws itself (for example bad_alloc) and main's process end are not followed."""

# acquiring function -> (kind, value that means failure)
ACQ = {"fopen": ("file", 0), "fdopen": ("file", 0), "popen": ("pipe", 0), "opendir": ("dir", 0), "tmpfile": ("file", 0),
       "malloc": ("heap", 0), "calloc": ("heap", 0), "strdup": ("heap", 0), "realloc": ("heap", 0), "strndup": ("heap", 0),
       "luaL_newstate": ("lua", 0), "lua_newstate": ("lua", 0),
       "archive_write_new": ("archive", 0), "archive_read_new": ("archive", 0), "archive_entry_new": ("archive_entry", 0), "archive_entry_clone": ("archive_entry", 0)}
REL = {"fclose": "file", "pclose": "pipe", "closedir": "dir", "free": "heap", "lua_close": "lua", "realloc": "heap",
       "archive_write_free": "archive", "archive_read_free": "archive", "archive_entry_free": "archive_entry", "archive_free": "archive"}
H5A = re.compile(r"H5([A-Z])(create\w*|open\w*|get_space|get_type|get_create_plist|copy|dup)\d*$")
H5R = re.compile(r"H5([A-Z])close$")
H5S_SPACE = {"get_space": "S", "get_type": "T", "get_create_plist": "P"}
OWNERS = ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::make_shared")


def acq(q):
    if q in ACQ:
        return ACQ[q]
    m = H5A.match(q or "")
    if m:
        k = m.group(1)
        for g, l in H5S_SPACE.items():
            if m.group(2).startswith(g):
                k = l
        return ("H5" + k, -1)
    return None


def rel_kind(q):
    if q in REL:
        return REL[q]
    m = H5R.match(q or "")
    return "H5" + m.group(1) if m else None


def owner_classes(P):
    """Classes whose destructor releases something (transitively through helpers)."""
    out = set()
    for f in P.fns.values():
        n = f.q.split("::")
        if len(n) >= 2 and n[-1] == "~" + n[-2].split("<")[0] and f.blocks:
            sg = None
            seen = set()
            st = [f]
            while st:
                g = st.pop()
                if g.key in seen:
                    continue
                seen.add(g.key)
                for nid, nd, d in g.calls():
                    if rel_kind((d or {}).get("q")):
                        out.add(f.cls)
                    if nd["callee"] in P.fns and len(seen) < 10:
                        st.append(P.fns[nd["callee"]])
                for nd in g.nodes:
                    if nd["k"] == "CXXDeleteExpr":
                        out.add(f.cls)
                    if nd["k"] == "CallExpr" and not nd.get("callee"):
                        out.add(f.cls)      # releases through a function pointer it was given
    return out


def callee_name(sg, e):
    if e.q != "?":
        return e.q
    nd = e.fn.nodes[e.nid]
    for c in nd["c"][:1]:
        v = sg.val.get((e.ctx, c)) or sg.val.get((e.ctx, e.fn.strip(c)))
        if v is not None:
            qs = set()
            for x in sg.expand(v):
                if x[0] in ("fld", "loc"):
                    x = sg.load(prestate(sg, e.n), x)
                for y in sg.expand(x):
                    qs.add(y[1] if y[0] == "fn" else "?")
            if len(qs) == 1:
                k = qs.pop()
                for f in sg.inlined_fns:
                    d = sg.prog.fns[f].decls.get(k)
                    if d:
                        return d.get("q")
    return "?"


def run(P, R, tier):
    R.rule("released", "every path from an acquisition to the end of the operation releases it once, or gives it to an owner")
    R.rule("once", "nothing is released or used again after it was released")
    R.rule("owner", "a class that keeps an acquired value releases it in its destructor, is not copied bitwise, and does not lose it when its constructor fails")
    owners = owner_classes(P)
    R.need(len(owners), 6, "owner classes")
    # functions that hand out something the caller has to free
    givers = {}
    for f in P.fns.values():
        if base_type(f.ret or "") in ("char *",) and f.blocks and any((d or {}).get("q", "").startswith("H5Aread") for _, _, d in f.calls()):
            givers[f.key] = ("heap", 0)
    fns = []
    for f in P.fns.values():
        if not f.blocks or f.file.endswith("linenoise.c"):
            continue
        if program_body(P, f):
            continue
        if any((d or {}).get("q") == "h5_handle::release" for _, nd, d in f.calls()):
            fns.append(f)
            continue
        if any(acq((d or {}).get("q")) or nd["callee"] in givers for _, nd, d in f.calls()) or \
           any(nd["k"] == "CXXNewExpr" for nd in f.nodes) or any(rel_kind((d or {}).get("q")) for _, nd, d in f.calls()):
            fns.append(f)
    R.counts["functions analysed"] = len(fns)

    def one(i):
        f = fns[i]
        out = []
        stores = []
        inl = lambda g, c: (g.file == f.file or g.file.endswith((".h", ".hpp"))) and g.key not in givers and g.q not in ("h5_throw",) and \
            g.q.split("::")[-1] not in ("DivideNode",) and not (g.cls or "").startswith("h5_handle") and (g.static or g.cls is not None and g.cls == f.cls or "lambda" in g.q or g.file == f.file)
        def thr(k):
            g = P.fns.get(k)
            return g is not None and P.never_returns(k)
        sg = SG(P, f, inline=inl, maythrow=lambda k: raising(P, k), maxdepth=4)
        nacq = 0
        # only acquisitions made in f itself or in a helper inlined below it
        for e in sg.events:
            kind = None
            if e.kind == "call" and e.inl is None:
                kind = acq(callee_name(sg, e)) or givers.get(e.key)
                if e.q == "h5_handle::release":
                    ks = {acq(callee_name(sg, y)) for x in sg.events if x.kind == "call" and x.info.get("ctor") and x.info.get("cls") == "h5_handle" and x.args and
                          (sg.init_target(x.fn, x.nid, x.ctx) or ("tmp", x.ctx, x.nid)) == e.obj for y in sg.events
                          if y.kind == "call" and any(v == ("ret", y.n) for v in sg.expand(x.args[0]))} - {None}
                    if len(ks) == 1:
                        kind = ks.pop()
                term = ("ret", e.n)
            elif e.kind == "new" and e.fn.nodes[e.nid]["k"] == "CXXNewExpr" and not e.fn.nodes[e.nid].get("pl"):
                kind = ("new", 0)
                term = ("new", e.n)
            if not kind:
                continue
            if e.fn is not f and e.fn in fns and not ((e.fn.static or e.fn.cls and e.fn.cls == f.cls) and e.fn.file == f.file):
                continue
            name = callee_name(sg, e) if e.kind == "call" else "new " + str(e.t)
            if e.fn.q == "Gnuplotter::exec" or name in ("open",):
                continue
            nacq += 1
            why = {}

            def is_r(v, env):
                return v is not None and (env(v) == 7 or v[0] in ("it", "el") and env(v[1]) == 7 and v[0] == "el")

            def stop(n, env):
                for x in sg.ev_at.get(n, ()):
                    if n == e.n:
                        return True
                    if x.kind == "write" and is_r(x.val, env):
                        r0 = root(x.loc)
                        # a pointer kept in something that outlives the function
                        through = x.loc
                        deref = False
                        while through[0] in ("fld", "el", "ld"):
                            deref |= through[0] == "ld"
                            through = through[1]
                        if r0[0] in ("arg", "g", "new", "ret", "out") or deref or x.loc[0] == "fld" and r0[0] == "loc" and \
                                base_type(loc_type(sg, r0) or "") in owners:
                            if not (env(r0) == 7):
                                stores.append((name, x.loc, x.where(), x.ctx, kind[0], e.n, x.n))
                                return True
                    if x.kind == "ret" and x.ctx == 0 and is_r(x.val, env) and not (f.ret or "").startswith(("std::", "const std::")):
                        return True
                    if x.kind == "delete" and is_r(x.val, env):
                        why[n] = "rel"
                        return True
                    if x.kind == "call":
                        q = callee_name(sg, x)
                        if q in ("exit", "_exit", "abort", "std::abort", "std::terminate") or q.startswith("exec"):
                            return True
                        hit = [a for a in x.args if is_r(a, env)]
                        if hit:
                            if rel_kind(q) == kind[0]:
                                why[n] = "rel"
                                return True
                            if x.inl is None and (x.info.get("ctor") and (x.info.get("cls") in owners or (x.info.get("cls") or "").startswith(OWNERS)) or
                                                  q.startswith(OWNERS) or (x.info.get("cls") or "").startswith(OWNERS) and q.split("::")[-1] in ("reset",)):
                                return True
                            if x.inl is None and x.info.get("cls") and (x.info["cls"].startswith("std::")) and q.split("::")[-1] in ("push_back", "emplace_back", "insert", "emplace"):
                                stores.append((name, x.obj, x.where(), x.ctx, kind[0], e.n, x.n))
                                return True
                return False
            base = {term: 7}
            came = sg.follow(e.n, base, stop=stop)
            for ex, how in ((sg.exit.i, "returns"), (sg.xexit.i, "is left by an error")):
                if ex in came:
                    out.append((False, "released", e.where(), "%s %s" % (f.q, name), "what %s acquires is not released when %s %s (%s)" % (name, f.q, how, trace(sg, came, ex))))
                else:
                    out.append((True, "released", e.where(), "%s %s %s" % (f.q, name, how), ""))
            # after a release
            for n, w in list(why.items()):
                bad = {}

                def stop2(m, env, n=n):
                    if m == e.n:
                        return True
                    for x in sg.ev_at.get(m, ()):
                        if m == n:
                            continue
                        if x.kind == "delete" and is_r(x.val, env):
                            bad[m] = x
                        if x.kind == "call" and (x.inl is None) and any(is_r(a, env) for a in x.args):
                            bad[m] = x
                        if x.kind == "call" and x.obj is not None and env(x.obj) == 7:
                            bad[m] = x
                    return m in bad
                c2 = sg.follow(n, dict(base), stop=stop2)
                out.append((not bad, "once", sg.nodes[n].where(), "%s %s" % (f.q, name),
                            "%s is used or released at %s after it was released" % (name, ", ".join(sorted(x.where() for x in bad.values())))))
        st2 = []
        for name, loc, where, ctx, kd, en, xn in set(stores):
            inctor = sg.ctxs[ctx][2]
            d = inctor.decls.get(inctor.key) or {}
            leaves_x = sg.xexit.i in sg.reach(sg.after(xn)) if ctx == 0 else False
            deleg = any(ci.get("delegating") for ci in inctor.ctorinits or [] if isinstance(ci, dict))
            if ctx == 0 and leaves_x:
                leaves_x = sg.xexit.i in sg.follow(xn, {("ret", en): 7, ("new", en): 7})
            st2.append((name, sp(chain(loc)), chain(loc), where, f.q, inctor.q, inctor.cls, bool(d.get("ctor")), leaves_x, kd, inctor.key))
        return out, st2, nacq

    tot = 0
    allst = []
    for out, st, n in forkmap(one, range(len(fns))):
        tot += n
        for ok, rule, where, key, msg in out:
            R.check(ok, rule, where, key, msg)
        allst += st
    R.need(tot, 40, "acquisitions")
    # classes that keep what was acquired
    done = set()
    for name, txt, ch, where, fq, cq, cls, ctor, leaves_x, kd, fkey in allst:
        flds = [x for x in ch if isinstance(x, str) and "::" in x]
        if not flds:
            continue
        owner = flds[-1].rsplit("::", 1)[0]
        m = flds[-1]
        if owner not in P.records:
            continue
        r = P.records[owner]
        ft = next((x["t"] for x in r["fields"] if x["name"] == m.split("::")[-1]), "")
        if ctor and leaves_x and owner == cls:
            deleg = delegates(P, fkey)
            R.check(deleg, "owner", where, "%s constructor %s" % (owner, m), "the constructor of %s can fail after it has stored %s; its destructor will not run" % (owner, m))
        if (owner, m) in done:
            continue
        done.add((owner, m))
        if any(ft.startswith(x) for x in OWNERS):
            R.ok("owner", "%s is owned by a smart pointer" % m)
            continue
        dt = [f for f in P.fns.values() if f.cls == owner and f.q.split("::")[-1].startswith("~")]
        ok = False
        if not dt and any(g.cls == owner and not (g.decls.get(g.key) or {}).get("ctor") and releases(P, g, m) for g in P.fns.values()):
            R.ok("owner", "%s is released by a method of its class (pairing is checked by C15)" % m)
            continue
        why = "it has no destructor"
        for d in dt:
            sg = SG(P, d, inline=lambda g, c: g.cls == owner or g.static)
            why = "its destructor does not release it on every path"
            rels = {}
            for e in sg.events:
                a = None
                if e.kind == "call" and rel_kind(callee_name(sg, e)) == kd and e.args:
                    a = e.args[0]
                elif e.kind == "delete" and kd == "new":
                    a = e.val
                if a is not None:
                    for v in sg.expand(a):
                        if m in chain(v):
                            rels[e.n] = e
            if not rels:
                continue
            # guarded only by tests of the member itself, or inside a loop over it
            good = True
            for n, e in rels.items():
                gs = [(b, l, any(x[0] == "fld" and x[2] == m for v in sg.expand(b.val) for x in subterms(v))) for b, l in guards(sg, n)]
                owng = {(b.n, l) for b, l, o in gs if o}
                for x in sg.expand(rels[n].args[0] if rels[n].kind == "call" else rels[n].val):
                    ph = [y for y in subterms(x) if y[0] == "phi" and y in sg.phis]
                    for y in ph:
                        starts, steps, bounds = index_cover(sg, y)
                        if steps and (starts != [("c", 0)] or steps != {("+", 1)}):
                            good = False
                for b, l, own in gs:
                    ts = [x for v in sg.expand(b.val) for x in subterms(v)]
                    isloop = b.n in sg.reach(sg.after(n)) and any(x[0] == "it" or x in sg.phis for x in ts)
                    if must(sg, b, l, n, owng):
                        continue
                    if not own and not isloop and not any(x[0] == "f" and x[1] in ("size", "empty") for x in ts):
                        good = False
            ok = good
        R.check(ok, "owner", where, m, "%s keeps what %s acquires but %s" % (m, name, why))
        R.check(r.get("userCopyCtor") and r.get("userCopyAssign"), "owner", where, owner + " copies",
                "%s owns %s but can be copied member by member" % (owner, m))
    R.need(len(done), 8, "members that keep acquired values")


def program_body(P, f):
    """main, or a function only main calls: its end is the end of the process."""
    if f.q == "main":
        return True
    cs = {g.q for g, _ in P.callers().get(f.key, [])}
    return bool(cs) and cs == {"main"} and f.q.startswith("main")


def raising(P, key, depth=0):
    """Repository function that throws itself (directly or through its callees)."""
    c = P.__dict__.setdefault("_raising", {})
    if key in c:
        return c[key]
    f = P.fns.get(key)
    if f is None:
        return False
    c[key] = False
    r = any(n["k"] == "CXXThrowExpr" for n in f.nodes)
    if not r:
        for nid, nd, d in f.calls():
            if nd["callee"] in P.fns and SG.try_of(f, nid) is None and raising(P, nd["callee"]):
                r = True
                break
    c[key] = r
    return r


def releases(P, g, m):
    if not g.blocks or not (any(n["k"] == "CXXDeleteExpr" for n in g.nodes) or any(rel_kind((d or {}).get("q")) for _, _, d in g.calls())):
        return False
    sg = SG(P, g)
    return any(e.kind == "delete" and m in chain(e.val) or e.kind == "call" and rel_kind(e.q) and any(m in chain(a) for a in e.args) for e in sg.events)


def must(sg, b, l, n, owng):
    """The branch does not decide whether n runs: its other ways also lead to n."""
    for s, m in sg.nodes[b.n].succ:
        if m != l and not sg.must_pass(s, sg.exit.i, {n}, edges=lambda x, y, k: not any(x == o and k != ol for o, ol in owng)):
            return False
    return True


def delegates(P, key):
    f = P.fns[key]
    for ci in f.ctorinits or []:
        pass
    for b in f.blocks.values():
        for e in b["e"]:
            if e[0] == "i" and not e[2]:
                n = f.nodes[f.strip(e[1], casts=False)]
                d = f.decls.get(n.get("callee")) or {}
                if d.get("cls") == f.cls:
                    return True
    return False


def trace(sg, came, n):
    out = []
    while n is not None:
        out.append(n)
        n = came[n]
    lines = []
    for x in reversed(out):
        for e in sg.ev_at.get(x, ()):
            if e.kind in ("br", "ret", "throw", "call"):
                w = e.where().split("/")[-1]
                if not lines or lines[-1] != w:
                    lines.append(w)
    return " -> ".join(lines[:2] + (["..."] if len(lines) > 5 else []) + lines[-3:])
