"""C19 circulation and heat are accounted for when particles change hands."""
from vv.lib import *
from vv.sg import SG, decide, subterms, show, root
from vv.poly import poly, Poly
from vv.paths import paths
from vv.prog import REPO

TECHNIQUE = "balance of strengths over every round of every loop that removes, adds, merges or changes particles (path enumeration over the value flow, polynomial normal forms), and order analysis of the simulation loop for what refers to particles by number"
NOTE = """Decides, for every way through one round of the loops of move_and_clean, heat_crop, vortex_shed and heat_shed and through a merge, that the strength that leaves or enters
the flow is booked on the surface with the opposite sign exactly once, on the segment that was found for the particle; that shedding and booking back exclude each other; that merged
particles are different and of one kind; and that numbers of heat particles kept by segments stay valid until they are used. Dropping particles weaker than the threshold and
cropping heat downstream are losses by design. Which segment a point belongs to is not judged here."""

LISTS = {"Space::VortexList": "vortex", "Space::HeatList": "heat"}
OPAQUE = {"TBody::isPointInvalid", "TBody::isPointInHeatLayer", "Space::point_is_in_body", "TBody::isPointInContour"}
REMOVE = {"erase", "clear", "pop_back", "resize", "swap", "assign", "remove", "remove_if", "operator="}
G = "TObj::g"
PREDS = {"TBody::isPointInvalid": "lies in the body", "TBody::isPointInHeatLayer": "lies in the heat layer"}


def inl(g, c):
    return g.file.startswith(REPO) and g.q not in OPAQUE


def run(P, R, tier):
    R.rule("absorb", "a particle taken from the flow is booked on the segment found for it, with its whole strength and once; nothing is booked for a particle that stays")
    R.rule("once", "every particle is examined once in a pass")
    R.rule("shed", "what a segment sheds into the flow is what is added to its sum; what is not shed is booked back")
    R.rule("merge", "merging keeps the total strength and the centre, and joins two different particles of one kind")
    R.rule("layer", "the number of a heat particle noted by a segment refers to that particle until it is used")
    R.rule("kept", "booked strengths enter the forces of a step before they are cleared")
    R.rule("sites", "particles are removed only where the removal is accounted for")
    sites = set()
    for q in ("MFlowmove::move_and_clean", "MFlowmove::heat_crop"):
        for f in P.by_q.get(q, []):
            if f.nodes:
                absorb(P, R, f, sites)
    shed = {}
    for f in P.by_q.get("MFlowmove::vortex_shed", []):
        if f.nodes:
            shed.update(vshed(P, R, f))
    for f in P.by_q.get("MFlowmove::move_and_clean", []):
        if f.nodes:
            back(P, R, f, shed)
    for f in P.by_q.get("MFlowmove::heat_shed", []):
        if f.nodes:
            hshed(P, R, f)
    for f in P.by_q.get("MFlowmove::heat_crop", []):
        if f.nodes:
            crop(P, R, f)
    merge(P, R)
    order(P, R)
    closure(P, R, sites)


class Round:
    """One way through one round of a loop."""

    def __init__(s, sg, p):
        s.sg, s.p, s.evs = sg, p, p.evs
        s.calls = {e.n: e for e in p.evs if e.kind == "call"}

    def consistent(s):
        seen = {}
        for e in s.evs:
            if e.kind == "br" and isinstance(e.label, tuple) and isinstance(e.label[1], bool):
                t, l = e.val, e.label[1]
                while t[0] == "op1" and t[1] == "!":
                    t, l = t[2], not l
                if t[0] == "ret":
                    if seen.setdefault(t, l) != l:
                        return False
        return True

    def leaf(s, t):
        """A merged value of a field is its value at the start of the round."""
        if t[0] == "phi":
            vs = single(s.sg, t)
            if vs is not None and vs[0] != "phi":
                return s.poly(vs)
            return Poly.atom(("ld", s.p.resolve(t[2])))
        if t[0] == "ld":
            return Poly.atom(("ld", s.p.resolve(t[1])))
        return None

    def poly(s, t):
        return poly(s.p.resolve(t), s.leaf)

    def deltas(s, fields):
        """{(field, base): change} over the round."""
        raw, out = {}, {}
        for e in s.evs:
            if e.kind != "write" or e.loc[0] != "fld":
                continue
            l = e.loc
            fl = l[2]
            if fl in ("TVec::x", "TVec::y") and l[1][0] == "fld":
                fl, base = l[1][2] + "." + fl[-1], l[1][1]
                if fl.startswith("TVec3D::r.") and base[0] == "fld":
                    fl, base = base[2] + fl[9:], base[1]
            elif fl == "TVec3D::o" and l[1][0] == "fld":
                fl, base = l[1][2] + ".o", l[1][1]
            else:
                base = l[1]
            if fl not in fields:
                continue
            d = s.poly(e.val) - Poly.atom(("ld", l))
            raw.setdefault((fl, base), {})[e.e.loc] = d
        for k, ds in raw.items():
            t = Poly({})
            for d in ds.values():
                t = t + d
            out[k] = t
        return out


def single(sg, t):
    """The only value a merge stands for apart from itself."""
    seen, st, got = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for v in sg.phis.get(x, ()):
            if v[0] == "phi" and v[2] == t[2]:
                st.append(v)
            elif v != ("undef",):
                got.add(v)
    return got.pop() if len(got) == 1 and t[2][0] in ("loc", "tmp") or len(got) == 1 and root(t[2])[0] in ("loc", "tmp") else None


def lst(t):
    """Kind of the particle list a term refers to."""
    for x in subterms(t):
        if x[0] == "fld" and x[2] in LISTS:
            return LISTS[x[2]]
    return None


def isg(t, kind=None):
    """Strength of a particle of the flow."""
    l = t[1] if t[0] == "ld" else t[2] if t[0] == "phi" else None
    return l is not None and l[0] == "fld" and l[2] == G and lst(l) is not None and (kind is None or lst(l) == kind)


def env_for(g=None, eps=1e-10, extra=None):
    def env(t):
        if extra is not None:
            v = extra(t)
            if v is not None:
                return v
        if t[0] in ("ld", "phi"):
            l = t[1] if t[0] == "ld" else t[2]
            if l[0] == "fld":
                if l[2] == "MFlowmove::remove_eps":
                    return eps
                if g is not None and l[2] == G:
                    return g
            if l[0] == "el" and l[1][0] == "fld" and l[1][2] == "Space::BodyList":
                return 1
        if t[0] == "g" and "remove_eps" in str(t[-1]):
            return eps
        return None
    return env


def erases(sg):
    out = []
    for e in sg.events:
        if e.kind == "call" and e.inl is None and e.q == "std::vector::erase" and e.obj is not None:
            k = lst(e.obj)
            if k is not None or any(x[0] == "fld" and x[2] == "Space::StreakList" for x in subterms(e.obj)):
                out.append((e, k or "streak"))
    return out


def rounds(sg, h, body, env):
    rs = [Round(sg, p) for p in paths(sg, env=env, start=h, within=body)]
    return [r for r in rs if r.consistent() and not any(e.kind == "eh" for e in r.evs)]


def loop_at(sg, n):
    ar = loops_around(sg, n)
    return ar[0] if ar else None


def pname(kind):
    return {"vortex": "a vortex", "heat": "a heat particle", "streak": "a streak particle"}[kind]


LEDGER = {"TAtt::gsum", "TAtt::hsum", "TBody::g_dead", "TBody::fdt_dead.x", "TBody::fdt_dead.y", "TBody::fdt_dead.o"}


def fields(kind):
    return {"vortex": "TAtt::gsum", "heat": "TAtt::hsum", "streak": None}[kind]


def found_by(r, base):
    """The search that gave a segment: (call event, body) or None."""
    while base[0] == "ld":
        return None
    if base[0] == "ret":
        e = r.calls.get(base[1])
        if e is not None and e.q in PREDS:
            return e
    return None


def absorb(P, R, f, sites):
    sg = SG(P, f, inline=inl, maxdepth=6)
    name = f.q.split("::")[-1]
    es = erases(sg)
    for e, k in es:
        sites.add((e.fn.file, e.where()))
    done = set()
    for e, k in es:
        lp = loop_at(sg, e.n)
        if lp is None:
            bulk(P, R, sg, f, e, k)
            continue
        h, body, ex = lp
        if (h, k) in done:
            continue
        done.add((h, k))
        at = e.where()
        for g in (1.0, -1.0):
            def beyond(t):
                # inside the domain: nothing is cropped
                l = t[1] if t[0] == "ld" else t[2] if t[0] == "phi" else None
                if l is not None and l[0] == "fld" and l[2] == "TVec::x" and lst(l):
                    return 0.0
                if l is not None and l[0] in ("loc",) and name == "heat_crop" and any(p["d"] == l[2] for p in f.params):
                    return 1.0
                return None
            rs = rounds(sg, h, body, env_for(g, extra=beyond if name == "heat_crop" else None))
            for r in rs:
                back_home = r.p.end[0] == "leave" and r.p.end[1] == h
                er = [x for x in r.evs if x.kind == "call" and x.e is not None and x.inl is None and x.q == "std::vector::erase" and x.obj is not None and (lst(x.obj) or "streak") == k]
                if not back_home and not er:
                    continue
                adv = [x for x in r.evs if x.kind == "write" and x.val[0] == "it" and x.loc[0] == "loc" and x.val[2] == "*" and (lst(x.val) or "streak") == k
                       and any(y[0] == "fld" and y[2] == ("Space::%sList" % {"vortex": "Vortex", "heat": "Heat", "streak": "Streak"}[k]) for y in subterms(x.val)) and x.n in body]
                R.check(len(er) + len(adv) <= 1, "once", at, "%s/%s" % (name, k),
                        "a pass over the %s particles skips the particle after one that is removed" % k if er else "a pass over the %s particles advances twice" % k, "%s: %s" % (name, k))
                if k == "streak":
                    continue
                book(R, r, k, name, at, er)


def book(R, r, k, name, at, er):
    d = r.deltas(LEDGER)
    d = {key: v for key, v in d.items() if v.m}
    what = pname(k)
    if not er:
        R.check(not d, "absorb", at, "%s/%s/stays" % (name, k),
                "%s books %s on a body although it stays in the flow" % (name, what), "%s: nothing is booked for %s that stays" % (name, what))
        return
    if len(er) > 1:
        R.bad("absorb", er[0].where(), "%s/%s/two" % (name, k), "one round of %s removes two particles" % name)
        return
    sumf = fields(k)
    gs = [b for (fl, b) in d if fl == sumf]
    if not gs:
        R.bad("absorb", er[0].where(), "%s/%s/lost" % (name, k), "%s removes %s of any strength without booking it on a segment" % (name, what))
        return
    if len(gs) > 1:
        R.bad("absorb", er[0].where(), "%s/%s/twice" % (name, k), "%s books the strength of one removed particle on more than one segment" % name)
        return
    seg = gs[0]
    gp = [a for a in d[(sumf, seg)].atoms() if isinstance(a, tuple) and a[0] == "ld" and isg(a, k)]
    if not gp:
        R.bad("absorb", er[0].where(), "%s/%s/what" % (name, k), "%s books something else than the strength of the removed particle on the segment" % name)
        return
    g = Poly.atom(gp[0])
    part = gp[0][1][1]
    R.check(d[(sumf, seg)] == -g, "absorb", er[0].where(), "%s/%s/sum" % (name, k),
            "%s does not take exactly the strength of the removed particle from the sum of the segment" % name, "%s: %s -= g of %s" % (name, sumf, what))
    fb = found_by(r, seg)
    if fb is None:
        R.assume("the segment that absorbs a particle in %s comes from a search that is not followed" % name)
    else:
        # the search succeeded, for this particle
        hit = [x for x in r.evs if x.kind == "br" and any(y == ("ret", fb.n) for y in subterms(x.val))]
        R.check(bool(hit), "absorb", er[0].where(), "%s/%s/found" % (name, k), "%s removes %s without asking whether the search for a segment succeeded" % (name, what), "asked")
        st = prestate(r.sg, fb.n)
        a = fb.args[0] if fb.args else None
        if a is not None and a[0] in ("tmp", "loc"):
            for c in "xy":
                v = st.get(("fld", a, "TVec::" + c))
                want = Poly.atom(("ld", ("fld", ("fld", part, "TObj::r"), "TVec::" + c)))
                if v is not None:
                    R.check(r.poly(v) == want, "absorb", er[0].where(), "%s/%s/where" % (name, k), "%s searches the segment for another point than the place of the particle" % name, "at its place")
    body = fb.obj if fb is not None else None
    rest = {key: v for key, v in d.items() if key != (sumf, seg)}
    if k == "heat":
        R.check(not rest, "absorb", er[0].where(), name + "/heat/other", "%s books absorbed heat as circulation" % name, "heat only")
        return
    pos = lambda c: Poly.atom(("ld", ("fld", ("fld", part, "TObj::r"), "TVec::" + c)))
    deadcheck(R, r, rest, body, g, pos, name, er[0].where(), "absorb", "the removed vortex")


def axis(body, c):
    return Poly.atom(("ld", ("fld", ("fld", ("fld", body, "TBody::holder"), "TVec3D::r"), "TVec::" + c))) + \
        Poly.atom(("ld", ("fld", ("fld", ("fld", body, "TBody::dpos"), "TVec3D::r"), "TVec::" + c)))


def deadcheck(R, r, rest, body, g, pos, name, at, rule, what):
    bodies = {b for (fl, b) in rest if fl.startswith("TBody::")}
    if not R.check(len(bodies) == 1, rule, at, name + "/dead", "%s does not book %s on one body" % (name, what), "one body"):
        return
    b = bodies.pop()
    if body is not None:
        R.check(b == body, rule, at, name + "/body", "%s books %s on another body than the one whose segment it is" % (name, what), "the body of the segment")
    want = {"TBody::g_dead": g, "TBody::fdt_dead.x": -(pos("y") * g), "TBody::fdt_dead.y": pos("x") * g}
    dx, dy = pos("x") - axis(b, "x"), pos("y") - axis(b, "y")
    want["TBody::fdt_dead.o"] = (dx * dx + dy * dy) * g
    text = {"TBody::g_dead": "circulation", "TBody::fdt_dead.x": "impulse", "TBody::fdt_dead.y": "impulse", "TBody::fdt_dead.o": "angular impulse about the axis"}
    for fl, w in sorted(want.items()):
        R.check(rest.get((fl, b)) == w, rule, at, "%s/%s" % (name, fl), "%s does not book the %s of %s on the body (%s)" % (name, text[fl], what, fl.split("::")[1]),
                "%s: %s of %s" % (name, fl, what))


def bulk(P, R, sg, f, e, k):
    """erase(remove_if(begin, end, predicate), end): only weak particles may go."""
    name = f.q.split("::")[-1]
    for t in e.args:
        for x in [y for v in sg.expand(t) for y in subterms(v)]:
            if x[0] == "ret":
                c = [y for y in sg.events if y.kind == "call" and y.n == x[1]]
                for y in c:
                    if y.q in ("std::remove_if", "std::partition", "std::stable_partition"):
                        for a in y.args:
                            fn = lam(P, a, sg, y)
                            if fn is not None:
                                weak(P, R, fn, e, k, name, sg)
                                return
    R.assume("%s removes %s particles in bulk in a way that is not followed" % (name, k))


def lam(P, a, sg, y):
    for x in subterms(a):
        if x[0] == "fn":
            for g in P.fns.values():
                if g.key == x[1] or g.q == x[1]:
                    return g
    # the call operator of a lambda written in the same lines
    fs = [g for g in P.fns.values() if g.file == y.fn.file and "operator()" in g.q and y.fn.line <= g.line <= y.fn.endline]
    own = [g for g in fs if any(str(g.line) in str(v) for v in (y.where(),))]
    return own[0] if len(own) == 1 else fs[0] if len(fs) == 1 else None


def weak(P, R, fn, e, k, name, outer):
    had = {}
    for w in outer.events:
        if w.kind == "write" and w.loc[0] == "loc":
            had.setdefault(w.loc, set()).add(w.val)
    sg = SG(P, fn, inline=inl, maxdepth=4)
    for g in (1.0, -1.0):
        env = env_for(g)

        def env2(t):
            v = env(t)
            if v is None and t[0] in ("ld", "phi"):
                l = t[1] if t[0] == "ld" else t[2]
                if l[0] == "fld" and l[2] == G:
                    return g
                if "remove_eps" in show(l):
                    return 1e-10
                if len(had.get(l, ())) == 1:
                    return decide(next(iter(had[l])), env)
            return v
        for p in paths(sg, env=env2):
            v = p.end[1] if p.end[0] == "ret" else None
            x = decide(v, env2) if v is not None else None
            if x is None:
                R.assume("the condition of a bulk removal in %s is not followed" % name)
            else:
                R.check(not x, "absorb", e.where(), "%s/%s/lost" % (name, k), "%s removes %s of any strength without booking it on a segment" % (name, pname(k)), "only weak particles")


# ---------------------------------------------------------------- shedding

CASES = [(1.0, 1e-10), (-1.0, 1e-10), (1e-12, 1e-10), (-1e-12, 1e-10), (1e-10, 1e-10), (-1e-10, 1e-10), (0.0, 1e-10)]


def slipenv(g, eps, slip):
    def extra(t):
        if t[0] in ("ld", "phi"):
            l = t[1] if t[0] == "ld" else t[2]
            if l[0] == "fld" and l[2] == "TAtt::slip":
                return slip
        return None
    return env_for(g, eps, extra)


def pushes(r, kind):
    """[(event, strength polynomial or None)] of the particles added in a round."""
    out = []
    for i, e in enumerate(r.evs):
        if e.kind == "call" and e.inl is None and e.obj is not None and e.q in ("std::vector::push_back", "std::vector::emplace_back", "std::vector::insert") and lst(e.obj) == kind \
                and e.obj[0] == "fld" and e.obj[2] in LISTS:
            v = None
            a = e.args[-1] if e.args else None
            if e.q.endswith("emplace_back") and len(e.args) > 1:
                v = r.poly(r.sg.load(prestate(r.sg, e.n), a)) if a[0] in ("loc", "tmp", "fld", "el") else r.poly(a)
            elif a is not None:
                for x in reversed(r.evs[:i]):
                    if x.kind == "write" and x.loc == ("fld", a, G):
                        v = r.poly(x.val)
                        break
                else:
                    c = prestate(r.sg, e.n).get(("fld", a, G))
                    v = r.poly(c) if c is not None else r.poly(a) if a[0] not in ("tmp", "loc") else None
            out.append((e, v))
    return out


def seg_loops(sg, events):
    """Innermost loops around events, once each."""
    out = {}
    for e in events:
        lp = loop_at(sg, e.n)
        if lp is not None:
            out.setdefault(lp[0], (lp, e))
    return list(out.values())


def vshed(P, R, f):
    sg = SG(P, f, inline=inl, maxdepth=6)
    ev = [e for e in sg.events if e.kind == "call" and e.inl is None and e.obj is not None and e.q in ("std::vector::push_back", "std::vector::emplace_back") and lst(e.obj) == "vortex"]
    ev += [e for e in sg.events if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == "TAtt::gsum"]
    R.need(len(ev), 1, "places that shed vortices")
    out = {}
    for (h, body, ex), e0 in seg_loops(sg, ev):
        for g, eps in CASES:
            for slip in (0, 1):
                rs = [r for r in rounds(sg, h, body, slipenv(g, eps, slip)) if r.p.end == ("leave", h)]
                for r in rs:
                    d = {k: v for k, v in r.deltas(LEDGER).items() if v.m}
                    ps = pushes(r, "vortex")
                    segs = [b for (fl, b) in d if fl == "TAtt::gsum"]
                    case = "%s segment of strength %s the threshold" % ("slip" if slip else "no-slip", "above" if abs(g) > eps else "below" if abs(g) < eps else "at")
                    if not R.check(len(segs) == 1, "shed", e0.where(), "gsum/%d/%s" % (slip, abs(g) > eps), "vortex_shed does not add the circulation of a %s to its sum" % case, "gsum += g"):
                        continue
                    ga = Poly.atom(("ld", ("fld", segs[0], G)))
                    R.check(d[("TAtt::gsum", segs[0])] == ga and len(d) == 1, "shed", e0.where(), "gsum",
                            "vortex_shed adds something else than the circulation of the segment to its sum", "gsum += g exactly")
                    R.check(len(ps) <= 1, "shed", e0.where(), "vtwo", "vortex_shed sheds one segment twice", "one particle")
                    for pe, v in ps:
                        if v is None:
                            R.assume("the strength of a shed vortex is not followed")
                        else:
                            R.check(v == ga, "shed", pe.where(), "vstrength", "vortex_shed sheds a vortex whose strength is not the circulation of its segment", "strength g")
                    out.setdefault((g, eps, slip), []).append(bool(ps))
    return out


def back(P, R, f, shed):
    sg = SG(P, f, inline=inl, maxdepth=6)
    gl = {loop_at(sg, e.n)[0] for e, k in erases(sg) if loop_at(sg, e.n)}
    ev = [e for e in sg.events if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] in ("TBody::g_dead", "TAtt::gsum") and loop_at(sg, e.n) and loop_at(sg, e.n)[0] not in gl]
    if not R.check(bool(ev), "shed", f.where(), "back", "circulation that is not shed is never booked back", "booked back"):
        return
    name = "move_and_clean"
    ls = seg_loops(sg, ev)
    booked = {}
    for (h, body, ex), e0 in ls:
        at = e0.where()
        for g, eps in CASES:
            for slip in (0, 1):
                for r in rounds(sg, h, body, slipenv(g, eps, slip)):
                    if r.p.end != ("leave", h):
                        continue
                    d = {k: v for k, v in r.deltas(LEDGER).items() if v.m}
                    booked.setdefault((g, eps, slip), []).append((bool(d), at))
                    if not d:
                        continue
                    segs = [b for (fl, b) in d if fl == "TAtt::gsum"]
                    if not R.check(len(segs) == 1, "shed", at, "back/gsum", "move_and_clean books circulation back on the body but not on the segment", "both"):
                        continue
                    seg = segs[0]
                    ga = Poly.atom(("ld", ("fld", seg, G)))
                    R.check(d[("TAtt::gsum", seg)] == -ga, "shed", at, "back/sum", "move_and_clean does not take back exactly the circulation that was not shed", "gsum -= g")
                    pos = lambda c: Poly.atom(("ld", ("fld", ("fld", seg, "TAtt::corner"), "TVec::" + c)))
                    b = None
                    x = seg
                    while x[0] in ("el", "fld"):
                        if x[0] == "fld" and x[2] == "TBody::alist":
                            b = x[1]
                        x = x[1]
                    deadcheck(R, r, {k: v for k, v in d.items() if k[0] != "TAtt::gsum"}, b, ga, pos, name + "/back", at, "shed", "the circulation that is not shed")
    for key in sorted(set(shed) & set(booked)):
        g, eps, slip = key
        case = "%s segment whose strength is %s the threshold" % ("slip" if slip else "no-slip", "above" if abs(g) > eps else "below" if abs(g) < eps else "at")
        s, b = set(shed[key]), {x for x, _ in booked[key]}
        if len(s) == 1 and len(b) == 1:
            s, b = s.pop(), b.pop()
            if g == 0:
                continue
            R.check(s != b, "shed", booked[key][0][1], "either/%d/%s" % (slip, "above" if abs(g) > eps else "below" if abs(g) < eps else "at"),
                    "the circulation of a %s is both shed and booked back" % case if s else "the circulation of a %s is neither shed nor booked back" % case, case)
        else:
            R.bad("shed", booked[key][0][1], "either/%d" % slip, "whether the circulation of a %s is shed and booked back depends on something else" % case)


def hshed(P, R, f):
    sg = SG(P, f, inline=inl, maxdepth=6)
    ev = [e for e in sg.events if e.kind == "call" and e.inl is None and e.obj is not None and e.q in ("std::vector::push_back", "std::vector::emplace_back") and lst(e.obj) == "heat"]
    ev += [e for e in sg.events if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == "TAtt::hsum"]
    R.need(len(ev), 1, "places that shed heat")
    for (h, body, ex), e0 in seg_loops(sg, ev):
        for r in rounds(sg, h, body, env_for()):
            if r.p.end != ("leave", h):
                continue
            d = {k: v for k, v in r.deltas({"TAtt::hsum"}).items()}
            dh = Poly({})
            for v in d.values():
                dh = dh + v
            flow = Poly({})
            unknown = False
            pieces = set()
            for pe, v in pushes(r, "heat"):
                if v is None:
                    unknown = True
                else:
                    flow = flow + v
            last = {}
            for e in r.evs:
                if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == G and e.loc[1][0] != "tmp" and lst(e.loc) == "heat":
                    last[e.loc] = e
            for l, e in last.items():
                flow = flow + r.poly(e.val) - Poly.atom(("ld", r.p.resolve(l)))
            if unknown:
                R.assume("the strength of a shed heat particle is not followed")
                continue
            dh, flow = same_layer(r, dh), same_layer(r, flow)
            R.check(dh == flow, "shed", e0.where(), "heat", "heat_shed adds to the flow another amount of heat than to the sum of the segment", "hsum grows by what enters the flow")


def same_layer(r, p):
    """A pointer that was found to be set is the pointer."""
    def f(a):
        if isinstance(a, tuple) and a and a[0] == "ld" and a[1][0] == "fld" and a[1][1][0] == "ite":
            for e in r.evs:
                if e.kind == "br" and (e.val == a[1][1] or e.val == a[1][1][1]) and isinstance(e.label, tuple):
                    x = a[1][1][2] if e.label[1] else a[1][1][3]
                    return Poly.atom(("ld", ("fld", x, a[1][2])))
        return None
    return p.subst(f)


# ---------------------------------------------------------------- numbers of heat particles

NO = "TAtt::heat_layer_obj_no"


def numbered(sg, t):
    """The term is the number of the particle at hand in the heat list."""
    if t[0] == "phi":
        v = single(sg, t)
        return v is not None and v[0] != "phi" and numbered(sg, v)
    if t[0] == "op" and t[1] == "-" and len(t) == 4 and all(x[0] == "it" and lst(x) == "heat" for x in t[2:]):
        return t[2][2] not in ("b", "e") and t[3][2] == "b"
    if t[0] == "f" and t[1] == "std::distance" and len(t) == 4 and all(x[0] == "it" and lst(x) == "heat" for x in t[2:]):
        return t[3][2] not in ("b", "e") and t[2][2] == "b"
    return False


def crop(P, R, f):
    """Segments' numbers follow when a heat particle is removed before them."""
    sg = SG(P, f, inline=inl, maxdepth=6)
    es = [e for e, k in erases(sg) if k == "heat"]
    ws = [e for e in sg.events if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == NO]
    for e in es:
        lp = loop_at(sg, e.n)
        if lp is None:
            R.assume("heat_crop removes particles in bulk; the numbers noted by segments are not followed")
            continue
        h, body, ex = lp
        mine = [w for w in ws if w.n in body]
        if not R.check(bool(mine), "layer", e.where(), "crop", "heat_crop removes heat particles but leaves the numbers of the particles noted by the segments", "numbers follow"):
            continue
        for (h2, body2, ex2), w0 in seg_loops(sg, mine):
            ov = [over(sg, b) for b in ex2]
            R.check(any(o and o[0] == "it" and any(x[0] == "fld" and x[2] == "TBody::alist" for x in subterms(o[1])) for o in ov) or any(o and o[0] == "ix" for o in ov),
                    "layer", w0.where(), "crop/all", "heat_crop does not correct the numbers of all segments", "all segments")
            for r in rounds(sg, h, body, env_for(1.0)):
                er = [x for x in r.evs if x.kind == "call" and x.inl is None and x.q == "std::vector::erase"]
                if er:
                    R.check(any(x.kind == "br" and x.n in {b.n for b in outer_exits(sg, h, h2)} for x in r.evs), "layer", e.where(), "crop/always",
                            "heat_crop removes a particle without correcting the numbers noted by the segments", "corrected at every removal")
            n = 5
            for k, want in ((-1, -1), (3, 3), (4, 4), (5, -1), (6, 5), (9, 8)):
                def env(t, k=k):
                    if numbered(sg, t):
                        return n
                    if t[0] in ("ld", "phi"):
                        l = t[1] if t[0] == "ld" else t[2]
                        if l[0] == "fld" and l[2] == NO:
                            return k
                        if l[0] == "el" and l[1][0] == "fld" and l[1][2] == "Space::BodyList":
                            return 1
                    return None
                for r in rounds(sg, h2, body2, env):
                    if r.p.end != ("leave", h2):
                        continue
                    w = [x for x in r.evs if x.kind == "write" and x.loc[0] == "fld" and x.loc[2] == NO]
                    v = decide(w[-1].val, env) if w else k
                    if v is None:
                        R.assume("the number a segment notes after heat_crop is not followed")
                    else:
                        R.check(v == want, "layer", w0.where(), "crop/%s" % ("same" if k == n else "later" if k > n else "none" if k < 0 else "earlier"),
                                {"same": "a segment keeps the number of a heat particle that was cropped", "later": "the number of a heat particle after a cropped one is not reduced by one",
                                 "none": "a segment without a heat particle gets one by heat_crop", "earlier": "the number of a heat particle before a cropped one is changed"}[
                                     "same" if k == n else "later" if k > n else "none" if k < 0 else "earlier"], "%d of %d becomes %d" % (k, n, want))


def outer_exits(sg, h, h2):
    out = []
    body2 = loops(sg)[h2]
    for hh, bb in loops(sg).items():
        if h2 in bb and hh != h and hh in loops(sg)[h] and h not in bb:
            out += [e for e in sg.events if e.kind == "br" and e.n in bb and any(b not in bb for b, l in sg.nodes[e.n].succ)]
    return out


def order(P, R):
    """In the simulation loop: nothing reorders the heat list between noting and using the numbers; sums are used before they are cleared."""
    for f in P.by_q.get("MFlowmove::move_and_clean", []):
        if not f.nodes:
            continue
        sg = SG(P, f, inline=inl, maxdepth=6)
        ws = [e for e in sg.events if e.kind == "write" and e.loc[0] == "fld" and e.loc[2] == NO]
        for w in ws:
            if w.val == ("c", -1) or w.val == ("op1", "-", ("c", 1)):
                continue
            R.check(numbered(sg, w.val), "layer", w.where(), "noted", "the number a segment notes is not the place of the particle in the heat list", "lobj - begin()")
            lp = loop_at(sg, w.n)
            if lp is None:
                continue
            # the first particle of a layer is kept and noted; the others are removed
            for no in (-1, 0, 7):
                def extra(t, no=no):
                    if t[0] in ("ld", "phi"):
                        l = t[1] if t[0] == "ld" else t[2]
                        if l[0] == "fld" and l[2] == NO:
                            return no
                    return None
                for r in rounds(sg, lp[0], lp[1], env_for(1.0, extra=extra)):
                    wr = [x for x in r.evs if x.kind == "write" and x.loc[0] == "fld" and x.loc[2] == NO]
                    er = [x for x in r.evs if x.kind == "call" and x.inl is None and x.q == "std::vector::erase"]
                    if wr:
                        R.check(no < 0 and not er, "layer", w.where(), "first", "a segment that already has a heat particle notes another one" if no >= 0 else "a segment notes a heat particle that is removed", "first one noted")
                        fb = found_by(r, wr[0].loc[1])
                        if fb is not None:
                            R.check(fb.q == "TBody::isPointInHeatLayer", "layer", w.where(), "where", "a segment notes a heat particle that does not lie in its heat layer", "in the layer")
    fs = [f for f in P.fns.values() if f.blocks and any(d and d.get("q") == "MFlowmove::move_and_clean" for _, _, d in f.calls())]
    R.need(len(fs), 1, "simulation loops")
    for f in fs:
        sg = SG(P, f, inline=lambda g, c: "::" not in g.q and g.file == f.file or "lambda" in g.q or "operator()" in g.q, maxdepth=5, maythrow=lambda k: False)
        at = {}
        for e in sg.events:
            if e.kind == "call" and e.inl is None:
                at.setdefault(e.q, []).append(e)
        note, use = at.get("MFlowmove::move_and_clean", []), {e.n for e in at.get("MFlowmove::heat_shed", [])}
        seen = set()
        for e in note:
            seen |= set(sg.reach(sg.after(e.n), stop=use))
        back_to = set()
        for b in [x for q, l in at.items() if q in ("stree::build", "TSortedTree::build") for x in l]:
            if b.n not in seen or not any(u in sg.reach(sg.after(b.n)) for u in use):
                continue
            # is a use still ahead before the numbers are dropped
            clear = {x.n for x in at.get("Space::zero_forces", [])}
            if not any(u in sg.reach(sg.after(b.n), stop=clear) for u in use):
                continue
            a = b.args[2] if len(b.args) > 2 else ("c", 1)
            v = decide(a, lambda t: None)
            if v is None:
                R.assume("whether a tree built before heat_shed includes the heat particles is not known")
                continue
            R.check(not v, "layer", b.where(), "reorder", "the tree built between move_and_clean and heat_shed reorders the heat particles whose numbers the segments have noted", "heat list left in place")
        forces = {x.n for x in at.get("Space::calc_forces", [])}
        clear = {x.n for x in at.get("Space::zero_forces", [])}
        for q in ("MFlowmove::move_and_clean", "MFlowmove::vortex_shed", "MFlowmove::heat_shed"):
            for e in at.get(q, []):
                lost = [c for c in clear if c in sg.reach(sg.after(e.n), stop=forces)]
                R.check(not lost, "kept", e.where(), q, "what %s books is cleared before it enters the forces" % q.split("::")[1], "%s before calc_forces before zero_forces" % q.split("::")[1])
        # what was shed is booked back with the same circulation
        sol = {x.n for q, x in ((q, x) for q, l in at.items() for x in l) if q == "MConvectiveFast::calc_circulation"}
        for e in at.get("MFlowmove::vortex_shed", []):
            s = sg.reach(sg.after(e.n), stop={x.n for x in note})
            R.check(not (sol & set(s)), "kept", e.where(), "solution", "the circulations are solved again between shedding and booking back", "same circulation")


# ---------------------------------------------------------------- merging

def merge(P, R):
    fs = [f for f in P.by_q.get("MEpsilonFast::MergeVortexes", []) if f.nodes]
    R.need(len(fs), 1, "merge")
    for f in fs:
        sg = SG(P, f, inline=inl, maxdepth=4)
        if len(f.params) != 2:
            R.assume("the parameters of the merge are not followed")
            continue
        a, b = (("ld", ("loc", 0, p["d"])) for p in f.params)
        at = f.where()
        for ga, gb in ((3.0, 2.0), (2.0, 3.0), (-3.0, -2.0), (3.0, -2.0), (2.0, -3.0), (-2.0, 3.0), (-3.0, 2.0), (1.0, -1.0)):
            def env(t):
                if t[0] in ("ld", "phi"):
                    l = t[1] if t[0] == "ld" else t[2]
                    if l == ("fld", a, G):
                        return ga
                    if l == ("fld", b, G):
                        return gb
                return None
            for p in paths(sg, env=env):
                if p.end[0] != "ret":
                    continue
                r = Round(sg, p)
                g0, g1 = Poly.atom(("ld", ("fld", a, G))), Poly.atom(("ld", ("fld", b, G)))
                fin = {}
                for e in r.evs:
                    if e.kind == "write":
                        fin[e.loc] = r.poly(e.val)
                na, nb = fin.get(("fld", a, G), g0), fin.get(("fld", b, G), g1)
                R.check(na + nb == g0 + g1, "merge", at, "total", "merging changes the total strength", "g1 + g2 kept")
                za, zb = (x.isconst() and x.value() == 0 for x in (na, nb))
                if not R.check(za != zb, "merge", at, "one", "after merging both particles remain" if not (za or zb) else "after merging no particle remains", "one remains"):
                    continue
                keep = a if zb else b
                same = ga * gb > 0
                for c in "xy":
                    pa, pb = (Poly.atom(("ld", ("fld", ("fld", x, "TObj::r"), "TVec::" + c))) for x in (a, b))
                    w = fin.get(("fld", ("fld", keep, "TObj::r"), "TVec::" + c))
                    if w is None:
                        w = fin.get(("fld", keep, "TObj::r"))
                        if w is not None:
                            w = None if not w.m else copyc(sg, r, keep, c, a, b)
                        else:
                            w = pa if keep == a else pb
                    if w is None:
                        R.assume("the place of a merged particle is not followed")
                        continue
                    if same:
                        R.check(moment(w, g0 + g1) == pa * g0 + pb * g1, "merge", at, "centre", "the merged particle of two of one sign is not at their centre", "centre kept")
                    else:
                        if abs(ga) == abs(gb):
                            continue
                        R.check(w == (pa if abs(ga) > abs(gb) else pb), "merge", at, "stronger", "the merged particle of two of opposite sign is not at the place of the stronger", "place of the stronger")
    # callers
    n = 0
    fs = [f for f in P.by_q.get("MEpsilonFast::CalcEpsilonFast", []) if f.nodes]
    R.need(len(fs), 1, "callers of the merge")
    for f in fs:
        sg = SG(P, f, inline=lambda g, c: inl(g, c) and g.q != "MEpsilonFast::MergeVortexes", maxdepth=4)
        for e in sg.events:
            if e.kind != "call" or e.q != "MEpsilonFast::MergeVortexes":
                continue
            n += 1
            kinds, who = [], []
            for a in e.args:
                vs = sources(sg, a)
                ks = set()
                for v in vs:
                    ks |= {x[2] for x in subterms(v) if x[0] == "fld" and x[2].split("::")[-1] in ("vRange", "hRange", "sRange")}
                kinds.append(ks)
                who.append(vs)
            if all(len(k) == 1 for k in kinds):
                R.check(kinds[0] == kinds[1], "merge", e.where(), "kind", "a vortex is merged with a heat particle", "of one kind")
            elif any(len(k) > 1 for k in kinds):
                R.bad("merge", e.where(), "kind", "particles of different kinds can be merged")
            else:
                R.assume("the kinds of the merged particles are not followed")
            # the partner is never the particle itself: every place that picks it has excluded that
            me = e.args[0]
            for w in picks(sg, e.args[1]):
                ok = False
                mine = set(sources(sg, me)) | {me} | set(sg.expand(me))
                for b, l in guards(sg, w.n):
                    if differs(sg, b.val, l, w.val, me):
                        ok = True
                R.check(ok, "merge", w.where(), "self", "a particle can be picked as its own partner for merging", "another particle")
    R.need(n, 1, "calls of the merge")


def copyc(sg, r, keep, c, a, b):
    """Place taken over from the other particle as a whole."""
    for e in reversed(r.evs):
        if e.kind == "write" and e.loc == ("fld", keep, "TObj::r"):
            v = e.val
            for x in (a, b):
                if v == ("fld", x, "TObj::r") or v == ("ld", ("fld", x, "TObj::r")):
                    return Poly.atom(("ld", ("fld", ("fld", x, "TObj::r"), "TVec::" + c)))
            st = sg.outs.get(e.n, {})
            for base in (v, ("fld", keep, "TObj::r")):
                w = st.get(("fld", base, "TVec::" + c))
                if w is not None:
                    return r.poly(w)
            if v[0] in ("ld",):
                return None
    return None


def moment(w, s):
    """w * s with the quotient by s cancelled."""
    k, v = s.key()[0]
    n = Poly({a: b / v for a, b in s.m.items()})
    at = ("sum", n.key())
    out = Poly({})
    for m, c in w.m.items():
        d = dict(m)
        if d.get(at) == -1:
            del d[at]
            out = out + Poly({tuple(sorted(d.items(), key=repr)): c * v})
        else:
            out = out + Poly({m: c}) * s
    return out


def sources(sg, t):
    """Start values of the pointers a term may stand for."""
    out, seen, st = [], set(), [t]
    while st and len(seen) < 200:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for v in sg.expand(x):
            if v[0] == "op" and v[1] in "+-" and any(y[0] == "phi" for y in v[2:]):
                st += [y for y in v[2:] if y[0] == "phi"]
            elif v[0] in ("c", "undef"):
                continue
            elif v not in seen:
                out.append(v)
                seen.add(v)
    return out


def picks(sg, t):
    """Writes that give the pointer a value other than a copy of another picked pointer or null."""
    locs, seen, out = set(), set(), []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == "phi":
            locs.add((x[2], sgctx(x[2])))
            st += list(sg.phis.get(x, ()))
    step = lambda e: e.val[0] == "op" and any(y[0] == "phi" and y[2] == e.loc for y in e.val[2:])
    cursor = {e.loc for e in sg.events if e.kind == "write" and step(e)}
    for e in sg.events:
        if e.kind == "write" and (e.loc, sgctx(e.loc)) in locs and e.loc not in cursor and e.val[0] not in ("c",):
            if e.val[0] == "phi" and (e.val[2], sgctx(e.val[2])) in locs and e.val[2] not in cursor:
                continue
            out.append(e)
    return out


def sgctx(l):
    return l[1] if l[0] in ("loc", "tmp") else None


def differs(sg, t, l, p, me):
    """Branch edge under which p is not me."""
    if not (isinstance(l, tuple) and isinstance(l[1], bool)):
        return False
    tr = l[1]
    while t[0] == "op1" and t[1] == "!":
        t, tr = t[2], not tr
    if t[0] == "op" and t[1] in ("&&", "||"):
        if (t[1] == "&&") == tr:
            return any(differs(sg, x, ("br", tr), p, me) for x in t[2:])
        return False
    if t[0] == "op" and t[1] in ("==", "!=") and (t[1] == "!=") == tr:
        def is_me(x):
            return x == me or x[0] == "phi" and me[0] == "phi" and x[2] == me[2] or bool(set(sources(sg, x)) & set(sources(sg, me))) and x != p and x[0] == me[0]
        x, y = t[2], t[3]
        return same(x, p) and is_me(y) or same(y, p) and is_me(x)
    return False


def same(x, p):
    return x == p or x[0] == "phi" and p[0] == "phi" and x[2] == p[2]


# ---------------------------------------------------------------- removal sites

def closure(P, R, sites):
    """Every removal from the particle lists that a simulation step can reach is one of those examined."""
    roots = [f for f in P.fns.values() if f.q.startswith(("MFlowmove::", "MEpsilonFast::", "MConvectiveFast::", "MDiffusiveFast::", "TSortedTree::", "TSortedNode::", "MStepdata::", "Stepdata::",
                                                           "sensors::")) and f.nodes]
    roots += [f for f in P.fns.values() if f.q in ("Space::calc_forces", "Space::zero_forces", "Space::save") and f.nodes]
    n = 0
    for f in roots:
        n += 1
        if f.q in ("MFlowmove::move_and_clean", "MFlowmove::heat_crop"):
            continue
        try:
            sg = SG(P, f, inline=lambda g, c: False, maxdepth=1)
        except Exception:
            continue
        for e in sg.events:
            if e.kind != "call" or e.obj is None or not e.q.startswith("std::vector::"):
                continue
            if e.q.split("::")[-1] in REMOVE and e.obj[0] == "fld" and e.obj[2] in LISTS and (e.fn.file, e.where()) not in sites:
                R.bad("sites", e.where(), f.q, "%s removes particles from the flow without accounting for their strength" % f.q)
    R.need(n, 10, "functions of a simulation step")
    R.ok("sites", "%d functions of a simulation step remove particles only in move_and_clean and heat_crop" % n)
