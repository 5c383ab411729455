"""Shared helpers: anchoring private structure on the public API."""
from . import absint
from .absint import C, S, I as INT, UNIT, OPT, RES, some, none, is_c, show, sym, St, mentions

DOC = "crate::document::KdlDocument"
NODE = "crate::node::KdlNode"
ENTRY = "crate::entry::KdlEntry"
IDENT = "crate::identifier::KdlIdentifier"
VALUE = "crate::value::KdlValue"


class Anchor(Exception):
    pass


def public_type(P, name):
    """path of a public type of the crate by its exported name"""
    c = [k for k, a in P.adts.items() if k.startswith("crate::") and k.rsplit("::", 1)[-1] == name]
    if len(c) != 1:
        raise Anchor("public type %s not found" % name)
    return c[0]


class Api:
    """terms for the private fields, read through the public accessors"""

    def __init__(self, P):
        self.P = P
        self.cache = {}

    def ty(self, name):
        return public_type(self.P, name)

    def method(self, tname, m):
        t = self.ty(tname)
        k = t + "::" + m
        if k not in self.P.bodies:
            raise Anchor("public method %s::%s not found" % (tname, m))
        return k

    def trait_method(self, tname, trait, m):
        t = self.ty(tname)
        k = "<%s as %s>::%s" % (t, trait, m)
        if k not in self.P.bodies:
            raise Anchor("impl %s for %s not found" % (trait, tname))
        return k

    def field(self, tname, m, base=None):
        """term of the component returned by accessor `m`, for object term `base`"""
        base = base if base is not None else sym("self")
        I = absint.Interp(self.P)
        st = St()
        I.tyof[base] = self.tyid(self.ty(tname))
        r = I.run_body(self.P.bodies[self.method(tname, m)], self.method(tname, m), [base], st, ("acc", m))
        vals = []
        for s, v in r:
            v = I.deref(s, v)
            if v[0] == "agg" and v[1] == OPT:
                if v[2] == 1:
                    x = v[4][0]
                    if x[0] == "fld" and x[2] == "Some":
                        vals.append(x[1])
                    else:
                        vals.append(("somewrap", x))
                continue
            vals.append(v)
        vals = list(dict.fromkeys(vals))
        if len(vals) != 1:
            raise Anchor("accessor %s::%s does not return one component (%s)" % (tname, m, [show(v) for v in vals]))
        return vals[0]

    def tyid(self, path):
        for i, t in enumerate(self.P.types):
            if t and t["k"] == "adt" and t["p"] == path:
                return i
        raise Anchor("type %s" % path)

    def interp(self, **kw):
        return absint.Interp(self.P, **kw)


def payload(opt):
    return ("fld", opt, "Some", "0")


def disc(facts, t):
    """1/0/None : variant known for option term t"""
    f = facts.get(("disc", t))
    if isinstance(f, int):
        return f
    if f and isinstance(f, tuple) and f[0] == "not":
        if f[1] == frozenset([0]):
            return 1
        if f[1] == frozenset([1]):
            return 0
    return None
