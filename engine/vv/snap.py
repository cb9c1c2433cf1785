"""Tables of what a snapshot writes and what loading one puts where."""
from .h5 import *
from .prog import AnalysisError


def strip_el(p):
    return tuple("[]" if isinstance(x, tuple) else x for x in p)


def scalar_t(P, sg, loc):
    return None


def buf_type(sg, e, i):
    """C++ type of the object whose address is argument i of call event e."""
    fn = e.fn
    nd = fn.nodes[e.nid]
    a = fn.strip(nd["args"][i])
    n = fn.nodes[a]
    if n["k"] == "UnaryOperator" and n.get("op") == "&":
        a = fn.strip(n["c"][0])
        return base_type(fn.nodes[a]["t"])
    return base_type(pointee(n["t"]))


class Side:
    """One direction of the snapshot: root function analysed as a supergraph."""

    def __init__(self, P, q, assume=None, nparams=None):
        self.P = P
        self.sg = SG(P, P.fn(q, nparams=nparams), inline=inline(), maythrow=may_throw, assume=assume)
        self.h = H5(self.sg)
        self.by_n = {}
        for e in self.sg.events:
            self.by_n.setdefault(e.n, []).append(e)

    def q_of(self, n):
        nd = self.sg.nodes[n]
        c = nd.fn.nodes[nd.nid].get("callee")
        return (nd.fn.decls.get(c) or {}).get("q", "?")

    # handle kinds: 'file', 'list' datasets by constant name, 'body' datasets by computed name
    def hkind(self, t):
        k = self.h.handle(t)
        return "body" if k == "dset" else k[5:] if k.startswith("dset:") else k

    def attrs(self, call, opener):
        """[(handle kind, name, event)] of every attribute transfer."""
        out = []
        for e in self.sg.calls(call):
            for o in self.h.call_of(e.args[0], opener):
                out.append((self.hkind(o.args[0]), self.h.name(o.args[1]), e, o))
        return out

    def dsets(self, call):
        out = []
        for e in self.sg.calls(call):
            for o in self.h.call_of(e.args[0], "H5D"):
                n = self.h.name(o.args[1])
                out.append((n or "body", e, o))
        return out


def val_leaves(side, e, loc):
    """{sub-path: value} of the object at loc just before event e."""
    st = prestate(side.sg, e.n)
    lv = leaves(st, loc)
    return {tuple(p): v for p, v in lv.items()}


def flat(v):
    """Flattens nested fv terms: (base, path)."""
    path = ()
    while v[0] == "fv":
        p = v[2]
        path = (tuple(p) if isinstance(p, tuple) and not (p and p[0] in ("c",)) else (p,)) + path
        v = v[1]
    return v, path


def is_null(x):
    return x in (("c", 0), ("s", ""))


class Snap:
    """Writer and reader tables."""

    SLIP = "slip"

    def __init__(self, P):
        self.P = P
        W = self.W = Side(P, "Space::save", lambda t: None)
        # the reader, specialised on files the writer makes: everything it looks for exists
        L0 = Side(P, "Space::load", lambda t: None)
        self.rnode = {}
        for k, nm, e, o in L0.attrs("H5Aread", "H5Aopen"):
            self.rnode.setdefault((k, nm), []).append(e.n)
        env = {}
        for e in L0.sg.calls({"H5Aexists", "H5Lexists"}):
            env[("ret", e.n)] = 1
        for e in L0.sg.calls("H5Fis_hdf5"):
            env[("ret", e.n)] = 1
        self.wattr = {}      # (kind, name) -> [(event, open event)]
        for k, nm, e, o in W.attrs("H5Awrite", "H5Acreate"):
            self.wattr.setdefault((k, nm), []).append((e, o))
        self.version = None
        for e, o in self.wattr.get(("body", "simplified_dataset"), []):
            vs = W.sg.expand(leaves(prestate(W.sg, e.n), e.args[2]).get((), ("c", "?")))
            if len(vs) == 1 and vs[0][0] == "c":
                self.version = vs[0][1]
        if self.version is not None:
            for n in self.rnode.get(("body", "simplified_dataset"), []):
                env[("out", n, 2)] = self.version
        self.env = env
        self.slip_exists = [("ret", e.n) for e in L0.sg.calls({"H5Aexists"}) if L0.h.name(e.args[1]) == self.SLIP]
        self.L = Side(P, "Space::load", self.with_env({}))
        self.rattr = {}
        for k, nm, e, o in self.L.attrs("H5Aread", "H5Aopen"):
            self.rattr.setdefault((k, nm), []).append((e, o))
        self.out = {("out", e.n, 2): (k, nm) for (k, nm), es in self.rattr.items() for e, o in es}

    def with_env(self, more):
        env = dict(self.env)
        env.update(more)
        return lambda t: env.get(t)

    def stored(self, L=None):
        """{object path: [(event, value)]} of everything loading assigns in a space or body."""
        L = L or self.L
        out = {}
        for e in L.sg.events:
            if e.kind == "write":
                op = opath(e.loc)
                if not op or not op[0].startswith(("Space::", "TBody::", "metainfo")) and "metainfo" not in op[0]:
                    continue
                lv = val_leaves(L, e, e.val) if is_term_loc(e.val) and e.val[0] in ("loc", "tmp", "fld", "el") else {}
                if lv:
                    for p, v in lv.items():
                        out.setdefault(op + strip_el(p), []).append((e, v))
                else:
                    out.setdefault(op, []).append((e, e.val))
            elif e.kind == "call" and e.q == "TEval::operator=" and e.obj is not None:
                op = opath(e.obj)
                if op and e.args:
                    out.setdefault(op, []).append((e, e.args[0]))
        return out
