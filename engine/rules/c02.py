"""C02 loading replaces the whole previous state."""
from vv.snap import *

TECHNIQUE = "must-assign dataflow over the inlined loading paths"
NOTE = """Every list and every stored parameter is shown to be cleared or assigned on every path of Space::load that ends normally,
before anything is added to it. Assumes that a legacy file contains its header record (without one no parameter is restored)."""

LISTS = ["BodyList", "VortexList", "HeatList", "SourceList", "StreakSourceList", "StreakList"]
FIELDS = ["caption", "re", "pr", "inf_g", "inf_vx", "inf_vy", "inf_marker", "gravity", "time", "dt", "dt_save", "dt_streak", "dt_profile", "finish"]
GROW = {"push_back", "emplace_back", "insert", "emplace", "resize", "data", "begin", "end", "append"}


def run(P, R, tier):
    R.rule("cleared", "each list is emptied on every path before anything is put into it and before loading ends")
    R.rule("assigned", "each parameter is assigned on every path of a successful load of a snapshot")
    R.rule("fresh", "the bodies of the loaded space are new objects")
    R.rule("complete", "every list and parameter of the space is covered by this check")
    r = P.record("Space")
    names = [f["name"] for f in r["fields"]]
    for f in names:
        R.check(f in LISTS + FIELDS, "complete", "libvvhd/headers/TSpace.hpp", f, "member %s of the space is not known to be replaced by loading" % f) \
            if f not in LISTS + FIELDS else R.ok("complete", f)
    sg = SG(P, P.fn("Space::load"), inline=inline(), maythrow=may_throw, assume=lambda t: None)
    h = H5(sg)
    this = ("arg", "this")
    loc = lambda f: ("fld", this, "Space::" + f)
    for f in LISTS:
        L = loc(f)
        clears, grows = set(), []
        for e in sg.events:
            if e.kind == "call" and e.obj == L:
                nm = e.q.split("::")[-1]
                if nm == "clear" or nm == "operator=" or nm == "resize" and e.args and e.args[0] == ("c", 0) or nm == "swap" or nm == "assign" or \
                        nm == "erase" and [a for a in e.args] == [("it", L, "b"), ("it", L, "e")]:
                    clears.add(e.n)
                elif nm in ("push_back", "emplace_back", "insert", "resize", "emplace"):
                    grows.append(e)
            elif e.kind == "write" and e.loc == L:
                clears.add(e.n)
        ok = sg.must_pass(sg.entry.i, sg.exit.i, clears) if clears else False
        R.check(ok, "cleared", "libvvhd/src/TSpace.cpp", f, "%s keeps its earlier elements on some path of a load" % f)
        for g in grows:
            R.check(clears and sg.must_pass(sg.entry.i, g.n, clears), "cleared", g.where(), "%s before %s" % (f, g.q.split("::")[-1]),
                    "%s is filled without having been emptied" % f)
        # what was put in is not dropped again
        for g in grows:
            for c in clears:
                R.check(c not in sg.reach(sg.after(g.n)), "cleared", g.where(), "%s kept" % f, "%s is emptied after having been filled" % f)
    # parameters, for snapshots
    opens = [e for e in sg.calls(lambda e: e.q.startswith("H5Fopen"))]
    if not opens:
        raise AnalysisError("Space::load opens no snapshot")
    wr = {}
    for e in sg.events:
        if e.kind == "write":
            wr.setdefault(e.loc, set()).add(e.n)
        elif e.kind == "call" and e.obj is not None and (e.q.endswith("::operator=") or e.q.endswith("::assign")):
            wr.setdefault(e.obj, set()).add(e.n)

    def sites(l, t):
        s = set(wr.get(l, ()))
        return s

    for f in r["fields"]:
        if f["name"] not in FIELDS:
            continue
        L = loc(f["name"])
        s = sites(L, f["t"])
        rec = P.records.get(base_type(f["t"]))
        ok = bool(s) and all(sg.must_pass(o.n, sg.exit.i, s) for o in opens)
        if not ok and rec is not None and not s:
            subs = [sites(("fld", L, base_type(f["t"]) + "::" + g["name"]), g["t"]) for g in rec["fields"]]
            ok = bool(subs) and all(x and all(sg.must_pass(o.n, sg.exit.i, x) for o in opens) for x in subs)
        elif not ok and rec is not None:
            subs = [s | sites(("fld", L, base_type(f["t"]) + "::" + g["name"]), g["t"]) for g in rec["fields"]]
            ok = all(x and all(sg.must_pass(o.n, sg.exit.i, x) for o in opens) for x in subs)
        R.check(ok, "assigned", "libvvhd/src/TSpace_load_hdf.cpp", f["name"], "%s keeps its earlier value on some path of a load" % f["name"])
        # the assigned value does not depend on the earlier one
        done = set()
        for e in sg.events:
            w = e.loc if e.kind == "write" else e.obj if e.kind == "call" and e.q.endswith(("::operator=", "::assign")) else None
            if w is None or under(L, w) is None:
                continue
            vals = [e.val] if e.kind == "write" else list(e.args)
            dep = any(y[0] == "ld" and under(L, y[1]) is not None or y == w for v in vals if v is not None for x in sg.expand(v) for y in subterms(x))
            done.add(w)
            R.check(not dep, "assigned", e.where(), f["name"] + " value", "the loaded %s depends on its earlier value" % f["name"])
    # legacy: the header record assigns all of them
    hdr = [e for e in sg.events if e.kind == "write" and e.loc == loc("caption")]
    legacy = []
    for e in sg.events:
        if e.kind == "call" and e.q in ("fread",):
            legacy.append(e)
    for f in r["fields"]:
        if f["name"] not in FIELDS:
            continue
        L = loc(f["name"])
        tgt = [e for e in legacy if any(y == L for y in subterms(e.args[0]))]
        tgt += [e for e in sg.events if e.kind == "call" and e.q in ("TEval::operator=",) and e.obj == L and any(l.n in sg.coreach([e.n]) for l in legacy[:1])]
        tgt += [e for e in hdr if f["name"] == "caption"]
        if not tgt:         # assigned from a value that was read
            late = sg.reach([l.n for l in legacy])
            w = [e for e in sg.events if e.kind == "write" and e.n in late and under(L, e.loc) is not None]
            rec = P.records.get(base_type(f["t"]))
            parts = {("fld", L, base_type(f["t"]) + "::" + g["name"]) for g in rec["fields"]} if rec else {L}
            if any(e.loc == L for e in w) or parts <= {e.loc for e in w}:
                tgt = w
        R.check(bool(tgt), "assigned", "libvvhd/src/TSpace_load_v13.cpp", "legacy " + f["name"], "%s is not restored from a legacy file" % f["name"])
    # bodies are new
    n = 0
    for e in sg.events:
        if e.kind == "call" and e.obj == loc("BodyList") and e.q.split("::")[-1] in ("push_back", "emplace_back", "insert", "emplace"):
            n += 1
            for x in sg.expand(e.args[-1]):
                ok = x[0] == "new" or root(x)[0] in ("loc", "out", "new", "tmp") or x[0] in ("f", "el", "fld", "ld") and root(x)[0] not in ("arg", "g")
                R.check(ok, "fresh", e.where(), show(x)[:40], "loading puts %s into the list of bodies" % show(x)[:60])
    R.need(n, 2, "bodies added")
