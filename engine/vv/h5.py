"""HDF5 facts of a supergraph: attributes and datasets written and read."""
from .lib import *
from .sg import SG

NOIN = ("h5_throw",)


def inline(extra=()):
    def f(g, caller):
        return g.q not in NOIN and not g.q.startswith("TEval::") and g.q not in extra
    return f


def may_throw(k):
    return "h5_throw" in k


class H5:
    def __init__(self, sg):
        self.sg = sg
        self.at = {}
        for e in sg.events:
            if e.kind == "call":
                self.at[e.n] = e

    def call_of(self, t, *q):
        """Events whose result t may be (through phis)."""
        out = []
        for v in self.sg.expand(t):
            if v[0] == "ret" and v[1] in self.at and (not q or self.at[v[1]].q.startswith(q)):
                out.append(self.at[v[1]])
        return out

    def handle(self, t):
        for e in self.call_of(t):
            if e.q.startswith(("H5Fcreate", "H5Fopen")):
                return "file"
            if e.q.startswith(("H5Dcreate", "H5Dopen")):
                n = self.name(e.args[1])
                return "dset" if n is None else "dset:" + n
        return "?"

    def name(self, t):
        ss = {v[1] for v in self.sg.expand(t) if v[0] == "s"}
        return ss.pop() if len(ss) == 1 else None

    def source(self, t):
        """Where a scalar value comes from: object path(s)."""
        out = set()
        for v in self.sg.expand(t):
            if v[0] == "ret" and v[1] in self.at:
                e = self.at[v[1]]
                if e.q.startswith("TEval::") and e.obj is not None:
                    out.add(opath(e.obj))
                    continue
                out.add(("call:" + e.q,))
                continue
            if v[0] in ("ld", "fld", "el", "g"):
                out.add(opath(v) or (show(v),))
                continue
            out.add(("expr:" + show(v),))
        return out
