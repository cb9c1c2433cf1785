"""C15 The spatial index is only used while it describes the particles."""
from vv.sg import SG, show, subterms, decide, root
from vv.lib import chain, forkmap, loops_around, over, index_cover, contra, pathenv

TECHNIQUE = "typestate of the tree object over the owners' graphs with interprocedural effect summaries; decision of the partition predicates"
NOTE = """For every owner of a spatial index (a local or a member) the graph of its function is checked: each consultation (directly or by
a callee, from transitive summaries of the resolved call graph) is preceded on every path by a build that no later change of a particle
list, a body's contour or a particle's position and no release separates from it; no build happens on a built tree; every tree is released.
The tree itself is checked to take in every particle list and segment whole, to split a node into two parts that keep every particle
once, and to send a query down the side on which the split put the particles. Merging of close particles by the core-size stage, which by
design happens inside the tree, is the documented exception."""

LISTS = ("Space::VortexList", "Space::HeatList", "Space::StreakList", "Space::BodyList", "TBody::alist")
MUT = ("push_back", "emplace_back", "erase", "clear", "insert", "emplace", "resize", "pop_back", "swap", "assign", "operator=", "reserve", "shrink_to_fit")
ALG = ("sort", "stable_sort", "remove_if", "remove", "swap", "iter_swap", "swap_ranges", "reverse", "rotate", "partition", "stable_partition", "shuffle",
       "random_shuffle", "unique", "nth_element", "partial_sort", "move", "copy", "fill")
GEOM = ("TObj::r", "TAtt::corner", "TAtt::dl")
USE = ("stree::getBottomNodes", "stree::findNode", "stree::printBottomNodes")
SMALL = ("TVec.hpp", "TVec3D.hpp", "TObj.hpp")


def small(g, c):
    return g.file.endswith(SMALL)


def lists_of(t):
    return [c for c in chain(t) if c in LISTS]


class Eff:
    """Transitive effects of functions on what the tree describes."""

    def __init__(self, P):
        self.P = P
        self.owner = set()
        self.direct = {}
        self.calls = {}
        self.treey = set()
        fs = [f for f in P.fns.values() if f.blocks]
        for f in fs:
            for x in f.nodes:
                if x["k"] == "DeclStmt" and any(is_tree(v.get("t", "")) for v in x["vars"]):
                    self.owner.add(f.key)
            self.calls[f.key] = {n.get("callee") for i, n, d in f.calls() if n.get("callee") in P.fns}
            for i, n, d in f.calls():
                if d and d["q"] in ("stree::build", "stree::destroy"):
                    self.treey.add(f.key)
        cls = {q for q, r in P.records.items() if any(is_tree(x["t"]) for x in r["fields"])}
        self.members = cls
        # functions through which build/destroy is reached
        ch = True
        while ch:
            ch = False
            for f in fs:
                if f.key not in self.treey and f.key not in self.owner and self.calls[f.key] & self.treey and not self.isowner(f):
                    if any(k in self.treey and k not in self.owner and not self.isowner(P.fns[k]) for k in self.calls[f.key]):
                        self.treey.add(f.key)
                        ch = True
        self.memo = {}
        for f, d in zip(fs, forkmap(self.scan, fs)):
            self.direct[f.key] = d

    def isowner(self, f):
        return f.key in self.owner or f.q.rsplit("::", 1)[0] in self.members

    def scan(self, f):
        """[(kind, description, where)]"""
        P = self.P
        if f.q.startswith(("stree::", "snode::")):
            return []
        out = []
        for i, n, d in f.calls():
            if d and d["q"] in USE:
                out.append(("use", d["q"], f.where(i)))
        sg = SG(P, f, inline=small, maxdepth=4, maythrow=lambda k: False)
        for e in sg.events:
            k = effect(P, e, sg)
            if k:
                out.append((k[0], k[1], e.where()))
        return out

    def of(self, key, stack=()):
        """{kind: (description, where, through)} of calling function key."""
        if key in self.memo:
            return self.memo[key]
        if key in stack:
            return {}
        f = self.P.fns.get(key)
        if f is None or not f.blocks or f.q.startswith(("stree::", "snode::")):
            return {}
        out = {}
        for k, d, w in self.direct.get(key, ()):
            out.setdefault(k, (d, w, f.q))
        for c in self.calls[key]:
            if foreign(self, f, self.P.fns[c]):
                continue
            sub = self.of(c, stack + (key,))
            for k, v in sub.items():
                out.setdefault(k, v)
        if not stack:
            self.memo[key] = out
        return out


def foreign(E, f, g):
    """g keeps an index of its own (over its own copy of the space), which is checked where it is kept."""
    if g.key == f.key or not E.isowner(g):
        return False
    return g.key in E.owner or g.q.rsplit("::", 1)[0] != f.q.rsplit("::", 1)[0]


def is_tree(t):
    t = t.replace("const ", "").strip()
    return t in ("stree", "TSortedTree", "class stree")


def effect(P, e, sg):
    """('change', what) of one event on what a tree describes."""
    f = e.fn
    if e.kind == "call" and not e.inl:
        q = e.q or ""
        name = q.split("::")[-1]
        if e.obj is not None and q.startswith("std::") and name in MUT and own_list(e.obj):
            return ("change", "%s of %s" % (name, own_list(e.obj)))
        if q.startswith("std::") and name in ALG and e.obj is None:
            for a in e.args or ():
                for x in subterms(a):
                    if x[0] == "it" and own_list(x[1]):
                        return ("change", "%s over %s" % (name, own_list(x[1])))
    if e.kind == "write" and e.loc is not None:
        if any(x.startswith("snode::") for x in chain(e.loc)):
            return None
        r = e.loc
        while r[0] in ("fld", "el"):
            r = r[1]
        if r[0] in ("loc", "tmp"):
            return None
        g = [c for c in chain(e.loc) if c in GEOM]
        if g:
            top = f.q
            c = e.ctx
            if c:
                while sg.ctxs[c][0]:
                    c = sg.ctxs[c][0]
                top = sg.rootfn.q
            if sg.rootfn.q.startswith("MEpsilonFast::"):
                return None     # merging: the documented exception
            if sg.rootfn.q.split("::")[-1].startswith("~") or sg.rootfn.q.split("::")[-1] == sg.rootfn.q.split("::")[0]:
                return None
            return ("change", "position %s" % show(e.loc)[:60])
        if e.loc[0] == "fld" and e.loc[2] in LISTS:
            return ("change", "assignment of %s" % e.loc[2])
    return None


def own_list(t):
    """Name of the list object t is (not an element of it)."""
    if t[0] == "fld" and t[2] in LISTS:
        return t[2]
    return None


def run(P, R, tier):
    R.rule("built", "an index is consulted only after it was built, on every path")
    R.rule("fresh", "nothing the index describes changes between its construction and its last use")
    R.rule("rebuild", "an index is not built again while it is built")
    R.rule("release", "every index is released, once")
    R.rule("whole", "the index takes in every particle of every list and every segment")
    R.rule("partition", "a split node keeps every particle once and a query follows the split")
    R.assume("merging of close particles by MEpsilonFast inside the index is by design")
    E = Eff(P)
    owners = []
    for f in P.fns.values():
        if not f.blocks:
            continue
        loc = [v["d"] for x in f.nodes if x["k"] == "DeclStmt" for v in x["vars"] if is_tree(v.get("t", ""))]
        mem = f.q.rsplit("::", 1)[0] in E.members and f.q.rsplit("::", 1)[-1] != f.q.rsplit("::", 1)[0].split("::")[-1] and not f.q.split("::")[-1].startswith("~")
        if loc:
            owners.append((f, loc))
        elif mem:
            owners.append((f, None))
    R.need(sum(1 for f, l in owners), 5, "functions that own a spatial index")

    def one(x):
        S = Rec()
        owner(P, S, E, *x)
        return S.out
    for out in forkmap(one, owners):
        for m, a in out:
            getattr(R, m)(*a)
    dtor(P, R, E, owners)
    whole(P, R)
    partition(P, R)


class Rec:
    def __init__(self):
        self.out = []

    def ok(self, *a):
        self.out.append(("ok", a))

    def bad(self, *a):
        self.out.append(("bad", a))

    def assume(self, *a):
        self.out.append(("assume", a))

    def count(self, *a):
        self.out.append(("count", a))


def owner(P, R, E, f, loc):
    sg = SG(P, f, inline=lambda g, c: g.key in E.treey and not E.isowner(g) and not g.q.startswith("stree::"), maxdepth=4, maythrow=lambda k: False, assume=lambda t: None)
    builds, destroys, uses, changes = {}, {}, [], []
    objs = set()
    for e in sg.events:
        if e.kind != "call":
            k = effect(P, e, sg)
            if k:
                changes.append((e, k[1], e.where()))
            continue
        if e.inl:
            continue
        if e.q == "stree::build":
            builds.setdefault(e.obj, []).append(e)
            objs.add(e.obj)
        elif e.q == "stree::destroy" or e.q == "stree::~stree":
            destroys.setdefault(e.obj, []).append(e)
        elif e.q in USE:
            uses.append((e, e.obj, e.q, e.where()))
            if e.obj is not None:
                objs.add(e.obj)
        elif e.key in P.fns:
            ef = E.of(e.key)
            g = P.fns[e.key]
            if foreign(E, f, g):
                continue
            if "use" in ef:
                uses.append((e, None, "%s (%s in %s)" % (e.q, ef["use"][0], ef["use"][2]), ef["use"][1]))
            if "change" in ef and not e.q.startswith("stree::"):
                changes.append((e, "%s: %s in %s" % (e.q, ef["change"][0], ef["change"][2]), ef["change"][1]))
        else:
            k = effect(P, e, sg)
            if k:
                changes.append((e, k[1], e.where()))
    if not builds and not uses:
        return
    trees = [t for t in objs if t is not None and (t[0] == "loc" or t[0] == "fld")]
    if len(trees) > 1:
        R.assume("%s owns %d trees: consultations by callees are attributed to each" % (f.q, len(trees)))
    R.count("consultations of an index", len(uses))
    R.count("changes next to an index", len(changes))
    for T in trees:
        nm = "%s %s" % (f.q, show(T))
        bs = {e.n for e in builds.get(T, ())}
        ds = {e.n for e in destroys.get(T, ())}
        us = [u for u in uses if u[1] in (None, T)]
        if not bs and T[0] == "fld":
            # a member built by another method: its callers are not followed
            for u in us:
                R.bad("built", u[0].where(), "%s %s" % (nm, u[2]), "%s consults the tree %s of its object, which it did not build" % (f.q, show(T)))
            continue
        for u, o, what, w in us:
            key = "%s %s" % (nm, what)
            before = sg.reach([sg.entry.i], stop=bs)
            if u.n in before and u.n not in bs:
                R.bad("built", u.where(), key, "%s consults the tree %s (%s) on a path on which it was not built" % (f.q, show(T), what))
            elif any(u.n in sg.reach(sg.after(d), stop=bs) for d in ds):
                R.bad("built", u.where(), key, "%s consults the tree %s (%s) after it was released" % (f.q, show(T), what))
            else:
                R.ok("built", key)
            bad = None
            for c, d, w2 in changes:
                if c.n == u.n:
                    # one call that both consults and changes: the order inside it counts
                    if not inner_ok(P, E, c):
                        bad = (c, d, w2)
                        break
                    continue
                live = any(c.n in sg.reach(sg.after(b), stop=ds) for b in bs)
                if live and u.n in sg.reach(sg.after(c.n), stop=bs | ds):
                    bad = (c, d, w2)
                    break
            if bad:
                R.bad("fresh", bad[0].where(), "%s %s" % (key, bad[1][:60]), "%s changes what the tree %s describes (%s) and consults it afterwards (%s) without building it anew" % (
                    f.q, show(T), bad[1], what))
            else:
                R.ok("fresh", key)
        for b in builds.get(T, ()):
            again = [x for x in bs if x in sg.reach(sg.after(b.n), stop=ds)]
            if again and T[0] == "loc":
                x = min(again)
                R.bad("rebuild", sg.nodes[x].where(), nm, "%s builds the tree %s again without releasing it: the old one stays" % (f.q, show(T)))
            else:
                R.ok("rebuild", "%s at %s" % (nm, b.where()))


def inner_ok(P, E, c):
    """A callee that consults the tree and later changes particles, never the other way round."""
    g = P.fns.get(c.key)
    if g is None or not g.blocks:
        return True
    if g.q.startswith("MEpsilonFast::"):
        return True
    sg = SG(P, g, inline=lambda h, cc: False, maxdepth=1, maythrow=lambda k: False)
    us, cs = set(), set()
    for e in sg.events:
        if e.kind == "call" and e.q in USE:
            us.add(e.n)
        elif e.kind == "call" and e.key in P.fns:
            ef = E.of(e.key)
            if "use" in ef:
                us.add(e.n)
            if "change" in ef:
                cs.add(e.n)
        else:
            if effect(P, e, sg):
                cs.add(e.n)
    return not any(u in sg.reach(sg.after(x)) for x in cs for u in us)


def dtor(P, R, E, owners):
    """Release: by the destructor, or on every path of the owner."""
    ds = [f for f in P.by_q.get("stree::~stree", []) if f.blocks]
    auto = False
    for f in ds:
        sg = SG(P, f, inline=lambda g, c: g.q.startswith("stree::"), maxdepth=3, maythrow=lambda k: False)
        auto |= frees_root(sg)
    for f in [x for x in P.by_q.get("stree::destroy", []) if x.blocks]:
        sg = SG(P, f, inline=lambda g, c: g.q.startswith("stree::"), maxdepth=3, maythrow=lambda k: False)
        R.check(frees_root(sg), "release", f.where(), "stree::destroy root", "stree::destroy does not delete the nodes on every path on which there are any", "stree::destroy frees the nodes")
        dels = {e.n for e in sg.events if e.kind == "delete"}
        nul = {e.n for e in sg.events if e.kind == "write" and chain(e.loc)[-1:] == ("stree::rootNode",) and e.val == ("c", 0)}
        R.check(not any(sg.exit.i in sg.reach(sg.after(d), stop=nul) for d in dels), "release", f.where(), "stree::destroy twice",
                "stree::destroy leaves a pointer to the deleted nodes behind: releasing the tree again frees them twice", "a released tree has no nodes")
        clr = {e.n for e in sg.events if e.kind == "call" and e.obj is not None and chain(e.obj)[-1:] == ("stree::bottomNodes",) and e.q.split("::")[-1] in ("clear", "operator=", "swap", "resize")}
        R.check(bool(clr) and not any(sg.exit.i in sg.reach(sg.after(d), stop=clr) and d not in sg.reach([x for c in clr for x in sg.after(c)]) for d in dels), "release", f.where(),
                "stree::destroy list", "stree::destroy keeps the list of deleted nodes", "a released tree lists no nodes")
    for f in [x for x in P.by_q.get("stree::build", []) if x.blocks]:
        sg = SG(P, f, inline=lambda g, c: g.q.startswith("stree::"), maxdepth=2, maythrow=lambda k: False)
        for e in sg.events:
            if e.kind == "write" and chain(e.loc)[-1:] == ("stree::rootNode",):
                # the old nodes are gone or there were none
                r0 = ("ld", ("fld", ("arg", "this"), "stree::rootNode"))
                dels = {x.n for x in sg.events if x.kind == "delete"}
                seen = sg.reach([sg.entry.i], stop=dels, edges=lambda a, b, l: not nonnull_edge(sg, a, l, r0))
                full = sg.reach([sg.entry.i], stop=dels, edges=lambda a, b, l: not null_edge(sg, a, l, r0))
                R.check(e.n not in full, "release", e.where(), "stree::build nodes", "stree::build drops the nodes of a tree that is already built", "build keeps or frees the previous nodes")
    if auto:
        R.ok("release", "the destructor of the tree frees it")
        return
    for f, loc in owners:
        if not loc:
            R.bad("release", f.where(), "%s member" % f.q, "the tree of %s's object is never released: stree has no destructor that frees it" % f.q) if f.q.endswith("::evaluate") else None
            continue
        sg = SG(P, f, inline=lambda g, c: g.key in E.treey and not E.isowner(g) and not g.q.startswith("stree::"), maxdepth=4)
        bs = {e.n for e in sg.events if e.kind == "call" and e.q == "stree::build"}
        ds = {e.n for e in sg.events if e.kind == "call" and e.q == "stree::destroy"}
        for b in bs:
            r = sg.reach(sg.after(b), stop=ds)
            R.check(sg.exit.i not in r and sg.xexit.i not in r, "release", f.where(), "%s tree" % f.q, "%s may end without releasing the tree it built" % f.q)


def nonnull_edge(sg, a, l, t):
    return test_edge(sg, a, l, t) == 1


def null_edge(sg, a, l, t):
    return test_edge(sg, a, l, t) == 0


def test_edge(sg, a, l, t):
    """1 if taking edge l of branch a means t is not null, 0 if it means t is null."""
    if not (isinstance(l, tuple) and l[0] == "br"):
        return None
    for e in sg.ev_at.get(a, ()):
        if e.kind == "br":
            r = []
            for v in (0, 1):
                x = decide(e.val, lambda y: v if y == t else None)
                r.append(x)
            if None not in r and bool(r[0]) != bool(r[1]):
                return 1 if bool(r[1]) == l[1] else 0
    return None


def frees_root(sg):
    """Every path on which the tree has nodes deletes them."""
    r0 = ("ld", ("fld", ("arg", "this"), "stree::rootNode"))
    dels = {e.n for e in sg.events if e.kind == "delete" and e.val == r0}
    if not dels:
        return False
    r = sg.reach([sg.entry.i], stop=dels, edges=lambda a, b, l: test_edge(sg, a, l, r0) != 0)
    return sg.exit.i not in r


# ------------------------------------------------------------------ what the tree takes in

def whole(P, R):
    for f in [x for x in P.by_q.get("stree::build", []) if x.blocks]:
        sg = SG(P, f, inline=lambda g, c: g.q.startswith("range::"), maxdepth=2, maythrow=lambda k: False, assume=lambda t: None)
        div = [e for e in sg.events if e.kind == "call" and e.q == "snode::DivideNode"]
        for rng, li, flag in (("snode::vRange", "Space::VortexList", 0), ("snode::hRange", "Space::HeatList", 2), ("snode::sRange", "Space::StreakList", None)):
            fl = {}
            for e in sg.events:
                if e.kind == "write" and rng in chain(e.loc) and chain(e.loc)[-1] in ("range::first", "range::last"):
                    fl.setdefault(chain(e.loc)[-1], []).append(e)
            ok = True
            for end, pos in (("range::first", ("front", ("c", 0))), ("range::last", ("end",))):
                for e in fl.get(end, [None]):
                    if e is None:
                        ok = False
                        continue
                    v = e.val
                    ok &= bool(v[0] == "el" and chain(v[1])[-1:] == (li,) and (v[2] in pos)) or endform(v, li, end)
            key = "%s from %s" % (rng, li)
            if not ok:
                R.bad("whole", f.where(), key, "the root's %s is not the whole of %s" % (rng.split("::")[1], li))
                continue
            # every path with a non-empty list and its flag set sets the range before dividing
            ns = {e.n for e in fl["range::last"]}
            name = f.params[flag]["name"] if flag is not None and len(f.params) > flag else None

            def env(t, name=name, li=li):
                if t[0] == "ld" and t[1] == ("fld", ("arg", "this"), "stree::rootNode"):
                    return 0
                if name and (t == ("arg", name) or t[0] == "ld" and t[1][0] in ("arg", "loc") and show(t) == name):
                    return 1
                if t[0] == "f" and t[1].split("::")[-1] == "size" and chain(t[2])[-1:] == (li,):
                    return 3
                if t[0] == "f" and t[1].split("::")[-1] == "empty" and chain(t[2])[-1:] == (li,):
                    return 0
                return None
            r = sg.reach([sg.entry.i], stop=ns, edges=lambda a, b, l: not contra(sg, a, l, env))
            R.check(bool(div) and not any(d.n in r for d in div), "whole", f.where(), key, "a path of stree::build divides the root before it took in %s" % li, key)
        push = [e for e in sg.events if e.kind == "call" and e.obj is not None and "snode::bllist" in chain(e.obj) and e.q.split("::")[-1] in ("push_back", "emplace_back")]
        ok = False
        for e in push:
            c = chain(e.args[0]) if e.args else ()
            its = []
            for h, body, ex in loops_around(sg, e.n):
                for x in ex:
                    o = over(sg, x)
                    if o and (o[0] == "it" or {y[0] == "c" and y[1] for y in index_cover(sg, o[1])[0]} == {0} and index_cover(sg, o[1])[1] <= {("+", 1)}):
                        its.append(o)
            names = {chain(o[1])[-1] for o in its if o[0] == "it" and chain(o[1])}
            names |= {chain(y)[-1] for o in its if o[0] == "ix" for y in subterms(o[2]) if chain(y)}
            if "TBody::alist" in c and "Space::BodyList" in c and {"Space::BodyList", "TBody::alist"} <= names:
                # no condition inside the loops skips a segment
                h, body, ex = loops_around(sg, e.n)[0]
                miss = sg.reach([b for b, l in sg.nodes[h].succ if b in body] or [h], stop={e.n})
                inner = [x for x in sg.events if x.kind == "br" and x.n in body and x not in ex]
                ok = not inner or not any(h in sg.reach([b for b, l in sg.nodes[x.n].succ], stop={e.n}) for x in inner)
        R.check(ok, "whole", f.where(), "segments", "stree::build does not put every segment of every body into the root", "every segment of every body")
        # near and far lists of every bottom node
        fn = [e for e in sg.events if e.kind == "call" and e.q == "snode::FindNearNodes"]
        R.check(bool(fn) and not any(h in sg.reach([b for b, l in sg.nodes[x.n].succ if b in body], stop={e.n}) for e in fn for h, body, ex in loops_around(sg, e.n) for x in ex)
                and all(any(o and o[0] == "it" and chain(o[1])[-1:] == ("stree::bottomNodes",) or o and o[0] == "ix" and "stree::bottomNodes" in str(o[2])
                                     for h, b, ex in loops_around(sg, e.n) for x in ex for o in [over(sg, x)]) for e in fn),
                "whole", f.where(), "near nodes", "stree::build does not find the near nodes of every bottom node", "near nodes of every bottom node")


def endform(v, li, end):
    """begin + size, data() + size."""
    s = repr(v)
    if li not in s:
        return False
    if end == "range::first":
        return v[0] == "f" and v[1].endswith(("::data",)) or v[0] == "ret"
    return v[0] in ("op", "el") and "size" in s


# ------------------------------------------------------------------ splitting

PTS = [(h, w, px, py, x, y) for h, w in ((1, 2), (2, 1), (2, 2)) for px, x in ((0, 1), (1, 1), (2, 1)) for py, y in ((0, 1), (1, 1), (2, 1))]


def coord(t):
    if t[0] == "fv":
        return "TVec::" in str(t[2:])
    return t[0] == "fld" and (t[2] in ("TVec::x", "TVec::y") or t[2] in ("snode::h", "snode::w", "snode::x", "snode::y"))


def side_env(pt):
    h, w, px, py, x, y = pt

    def env(t):
        if t[0] == "op" and t[1] in ("<", "<=", ">", ">=", "!=") and len(t) == 4 and not any(coord(x) for x in subterms(t)):
            return 1            # limits of a scan: inside
        if t[0] == "op" and t[1] == "==" and not any(coord(x) for x in subterms(t)):
            return 0
        if t[0] == "fld":
            t = ("ld", t)
        if t[0] == "fv":
            return {"TVec::x": px, "TVec::y": py}.get(t[2] if isinstance(t[2], str) else t[2][-1])
        if t[0] != "ld":
            return None
        c = chain(t[1])
        if not c:
            return None
        if c[-1] in ("snode::h", "snode::w", "snode::x", "snode::y") and "stree::rootNode" not in c:
            return {"h": h, "w": w, "x": x, "y": y}[c[-1][-1]]
        if c[-1] == "TVec::x":
            return px
        if c[-1] == "TVec::y":
            return py
        return None
    return env


def partition(P, R):
    sides = {}
    # queries
    for f in [x for x in P.by_q.get("stree::findNode", []) if x.blocks]:
        sg = SG(P, f, inline=lambda g, c: True, maxdepth=3, maythrow=lambda k: False)
        for pt in PTS:
            env = pathenv(sg, side_env(pt))
            r = sg.reach([sg.entry.i], edges=lambda a, b, l: not contra(sg, a, l, env))
            s = set()
            for e in sg.events:
                if e.kind == "write" and e.n in r and e.loc[0] == "loc":
                    s |= {c for c in pick(sg, e, env) if c}
            sides.setdefault(pt, {})["query"] = s
    # segments
    for f in [x for x in P.by_q.get("snode::DistributeContent", []) if x.blocks]:
        sg = SG(P, f, inline=lambda g, c: g.q.startswith("range::"), maxdepth=2, maythrow=lambda k: False)
        names = [p["name"] for p in f.params]
        if any("range" in p["t"] for p in f.params):
            for pt in PTS:
                sides[pt]["range"] = ranges(P, R, sg, f, pt, names)
            covers(P, R, sg, f, names)
        else:
            push = [e for e in sg.events if e.kind == "call" and e.q.split("::")[-1] in ("push_back", "emplace_back") and e.obj is not None]
            for pt in PTS:
                env = pathenv(sg, side_env(pt))
                r = sg.reach([sg.entry.i], edges=lambda a, b, l: not contra(sg, a, l, env))
                s = set()
                for e in push:
                    if e.n in r:
                        s |= {who(o, names) for o in sg.expand(e.obj)} if not ite(e.obj) else {who(o, names) for o in choose(sg, e.obj, env)}
                sides[pt]["list"] = {x for x in s if x}
            its = [over(sg, x) for e in push for h, b, ex in loops_around(sg, e.n) for x in ex]
            R.check(bool(its), "partition", f.where(), "every segment", "the segments of a node are not distributed in a loop", "segments are distributed one by one")
    n = 0
    for pt, d in sides.items():
        for a in ("list", "range"):
            if a in d and "query" in d and d[a] is not None:
                n += 1
                R.check(len(d[a]) == 1 and d[a] == d["query"], "partition", "libvvhd/src/TSortedTree.cpp", "%s side" % a,
                        "a particle at (%g,%g) in a node of size %gx%g about (%g,%g) goes to child %s, a query there to child %s" % (
                            pt[2], pt[3], pt[1], pt[0], pt[4], pt[5], "/".join(sorted(d[a])) or "none", "/".join(sorted(d["query"])) or "none"),
                        "point %s: child %s" % (pt, "/".join(sorted(d[a]))))
    R.need(n, 20, "points compared")
    for f in [x for x in P.by_q.get("snode::DivideNode", []) if x.blocks]:
        sg = SG(P, f, inline=lambda g, c: False, maxdepth=1, maythrow=lambda k: False)
        dc = [e for e in sg.events if e.kind == "call" and e.q == "snode::DistributeContent"]
        rec = [e for e in sg.events if e.kind == "call" and e.q == "snode::DivideNode"]
        st = [e for e in sg.events if e.kind == "call" and e.q == "snode::Stretch"]
        pushn = {e.n for e in sg.events if e.kind == "call" and e.obj is not None and "stree::bottomNodes" in chain(e.obj)}
        for m in ("vRange", "hRange", "sRange", "bllist"):
            ds = [e for e in dc if e.args and chain(e.args[0])[-1:] == ("snode::" + m,)]
            ok = bool(ds)
            for e in ds:
                ok &= all(chain(a)[-1:] == ("snode::" + m,) for a in e.args[1:3])
            ns = {e.n for e in ds}
            ok = ok and bool(rec) and all(r.n not in sg.reach([sg.entry.i], stop=ns) for r in rec)
            R.check(ok, "partition", f.where(), "content %s" % m, "DivideNode does not hand its %s on to both children before it divides them" % m, "%s goes to the children" % m)
        r = sg.reach([sg.entry.i], stop=pushn | {e.n for e in rec})
        R.check(sg.exit.i not in r, "partition", f.where(), "leaf", "a node may end up neither divided nor listed as a bottom node", "every node is divided or a bottom node")
        for e in rec:
            o = e.obj
            ns = {x.n for x in st if x.obj == o}
            R.check(bool(ns) and e.n not in sg.reach([sg.entry.i], stop=ns), "partition", e.where(), "stretch %s" % show(o), "child %s is divided before its extent is computed" % show(o), "extent of %s" % show(o))
        kids = {chain(e.obj)[-1] for e in rec if e.obj is not None and chain(e.obj)}
        R.check(kids == {"snode::ch1", "snode::ch2"} or any(x[0] not in ("ld", "new") for x in [e.obj for e in rec]) or {show(e.obj) for e in rec} and len({e.obj for e in rec}) == 2,
                "partition", f.where(), "both children", "DivideNode does not divide both children", "both children are divided")


def who(o, names):
    """'1'/'2': which child a pointer or container is."""
    c = chain(o)
    if c and c[-1] in ("snode::ch1", "snode::ch2"):
        return c[-1][-1]
    x = root(o)
    nm = None
    if x[0] == "arg":
        nm = x[1]
    elif x[0] == "loc":
        nm = x[2].split(":")[1] if ":" in x[2] else x[2]
    if nm in names:
        i = names.index(nm)
        return str(i) if i in (1, 2) else None
    return None


def ite(t):
    return t[0] == "ite" or t[0] == "ld" and t[1][0] == "ite"


def choose(sg, t, env):
    if t[0] == "ite":
        x = decide(t[1], env)
        if x is None:
            return choose(sg, t[2], env) + choose(sg, t[3], env)
        return choose(sg, t[2] if x else t[3], env)
    if t[0] == "ld" and t[1][0] == "ite":
        return [("ld", x) for x in choose(sg, t[1], env)]
    return [t]


def pick(sg, e, env):
    out = []
    for v in choose(sg, e.val, env):
        c = chain(v[1]) if v[0] == "ld" else chain(v)
        if c and c[-1] in ("snode::ch1", "snode::ch2"):
            out.append(c[-1][-1])
    return out


def ranges(P, R, sg, f, pt, names):
    """Where the in-place partition leaves a particle: the left scan passes over what belongs to the first part, the right scan
    over what belongs to the second."""
    env = pathenv(sg, side_env(pt))
    left = right = None
    every = all_loops(sg)
    for h, body, ex in every:
        if any(h2 != h and h2 in body and len(b2) < len(body) for h2, b2, x2 in every):
            continue            # the scans are the innermost loops
        steps = {}
        for e in sg.events:
            if e.kind == "write" and e.n in body and e.loc[0] == "loc":
                s = step(e)
                if s:
                    steps[e.loc] = s
        if not any(any(coord(y) for y in subterms(e.val)) for e in sg.events if e.kind == "br" and e.n in body):
            continue
        r = sg.reach([h], edges=lambda a, b, l: a in body and b in body and not contra(sg, a, l, env))
        back = any(b == h for a in r for b, l in sg.nodes[a].succ if a in body and not contra(sg, a, l, env))
        for s in steps.values():
            if s > 0:
                left = back
            else:
                right = back
    if left is None or right is None:
        return None
    # the left scan goes on exactly for the first part, the right scan exactly for the second
    out = set()
    if left:
        out.add("1")
    if right:
        out.add("2")
    return out


def step(e):
    """+1/-1: direction in which a write moves a pointer."""
    v = e.val
    if v is not None and v[0] == "op" and len(v) == 4 and ("c", 1) in v[2:]:
        o = [x for x in v[2:] if x != ("c", 1)]
        if o and (o[0][0] in ("phi", "ld")):
            return {"+": 1, "-": -1}.get(v[1], 0)
    return 0


def all_loops(sg):
    from vv.lib import loops
    out = []
    for h, body in loops(sg).items():
        ex = [e for e in sg.events if e.kind == "br" and e.n in body and any(b not in body for b, l in sg.nodes[e.n].succ)]
        out.append((h, body, ex))
    return out


def covers(P, R, sg, f, names):
    """first child = [parent.first, p), second = [p, parent.last)."""
    got = {}
    for e in sg.events:
        if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] in ("range::first", "range::last"):
            w = who(e.loc, names)
            if w:
                got[(w, e.loc[2].split("::")[1])] = e.val
    if len(got) < 4:
        R.assume("the limits of the children's ranges are not set by assignment")
        return
    f1, l1, f2, l2 = got[("1", "first")], got[("1", "last")], got[("2", "first")], got[("2", "last")]
    par = names[0]
    R.check(chain(f1)[-1:] == ("range::first",) and par in show(f1) and chain(l2)[-1:] == ("range::last",) and par in show(l2) and same(sg, l1, f2),
            "partition", f.where(), "range limits", "the children's ranges [%s,%s) and [%s,%s) do not make up the parent's" % tuple(show(x) for x in (f1, l1, f2, l2)),
            "the children's ranges make up the parent's")


def same(sg, a, b):
    if a == b:
        return True
    return a[0] == b[0] == "phi" and a[2] == b[2] and set(sg.expand(a)) == set(sg.expand(b))
