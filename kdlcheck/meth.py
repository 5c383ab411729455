"""Running methods of the tree types on symbolic objects and reading off what they did."""
from . import absint, models
from .absint import Interp, St, show, is_c, S, I as INT, sym, app, mentions, UNIT, OPT, RES, none, TRUE, FALSE
from .common import Api, payload, disc, Anchor

TREE = ["KdlDocument", "KdlNode", "KdlEntry", "KdlIdentifier"]


def vname(P, adt):
    return P.adts[adt]["variants"]


def fget(I, v, name):
    """field `name` of struct value v (aggregate or symbolic)"""
    if v[0] == "agg":
        a = I.p.adts.get(v[1])
        if a:
            for i, f in enumerate(a["variants"][v[2]]["f"]):
                if f["n"] == name:
                    return v[4][i]
        return None
    m = I.materialize(v)
    if m is not None and m[0] == "agg":
        return fget(I, m, name)
    return ("fld", v, None, name)


def fields(P, adt, variant=0):
    return [f["n"] for f in P.adts[adt]["variants"][variant]["f"]]


def ftype(P, adt, name):
    for f in P.adts[adt]["variants"][0]["f"]:
        if f["n"] == name:
            return f["t"]


def strpred(I, st, c, site):
    """the crate's own predicates over a whole string stay predicates"""
    b = I.p.bodies.get(c.key)
    if b is None or b["argc"] != 1 or len(c.args) != 1:
        return None
    a, r = I.p.types[b["locals"][1][0]], I.p.types[b["locals"][0][0]]
    if r["s"] != "bool" or a["k"] != "ref" or not a["s"].endswith("str"):
        return None
    x = I.snap(st, I.deref(st, c.args[0]))
    return None if is_c(x) else [(st, app("strpred", x, S(c.key)))]


class Out:
    def __init__(self, I, st, ret, self0, cell):
        self.I, self.st, self.ret = I, st, ret
        self.self0 = self0
        v = st.mem.get(cell) if cell is not None else None
        self.final = v if v is not None else self0
        self.facts = st.facts
        self.trace = st.trace

    def f(self, name, of=None):
        return fget(self.I, of if of is not None else self.final, name)

    def f0(self, name):
        return fget(self.I, self.self0, name)

    def disc(self, t):
        """variant index known for an option/enum term"""
        if t[0] == "agg":
            return t[2]
        return disc(self.facts, t)


class Runner:
    """family: {function key: label}; a call to one of them on anything but the root object becomes an
    event ('fam', label, object term, args) and leaves app('after:label', object, args..) behind"""

    def __init__(self, P, api, family=None, hooks=(), always=(), **kw):
        self.P, self.api = P, api
        self.always = set(always)
        self.family = family or {}
        self.hooks = list(hooks)
        self.kw = kw
        self.interps = []

    def interp(self, root=None, rootfn=None):
        def hook(I, st, c, site):
            n = c.key if c.key in self.family else (c.r if c.r in self.family else (c.path if c.path in self.family else None))
            if n is None or not c.args:
                return None
            o = c.args[0]
            ob = I.freeze(st, o) if o[0] == "ref" else o
            if rootfn is not None and n == rootfn and len(I.stack) == 0:
                return None
            if ob == root and n != rootfn and self.family[n] not in self.always:
                return None          # a sibling method on the same object: inline
            lab = self.family[n]
            s = st.copy()
            args = tuple(I.snap(s, I.deref(s, a)) for a in c.args[1:])
            s.ev("fam", lab, ob, args)
            if o[0] == "ref":
                nv = app("after:" + lab, ob, *args)
                if ob in I.tyof:
                    I.settype(nv, I.tyof[ob])
                I.write(s, o[1], o[2], nv)
                ret = UNIT
                if c.dty is not None and I.p.types[c.dty]["s"] != "()":
                    ret = I.settype(app("ret:" + lab, ob, *args), c.dty)
                return [(s, ret)]
            return [(s, I.settype(app("ret:" + lab, ob, *args), c.dty))]
        I = Interp(self.P, hooks=self.hooks + [hook], **self.kw)
        self.interps.append(I)
        return I

    def run(self, path, selfname="self", self_value=None, st=None, args=None):
        body = self.P.bodies.get(path)
        if body is None:
            raise Anchor("no body for " + path)
        st = st.copy() if st is not None else St()
        f = self.P.fn_by_path.get(path)
        root = sym(selfname)
        I = self.interp(root, path)
        av = []
        cell = None
        self0 = root
        for i in range(body["argc"]):
            ty = body["locals"][i + 1][0]
            nm = (f["argn"][i] if f and i < len(f["argn"]) and f["argn"][i] else "a%d" % i)
            if i == 0:
                nm = selfname
            if args is not None and i < len(args) and args[i] is not None:
                av.append(args[i])
                continue
            av.append(I.param(st, nm, ty))
            if i == 0:
                if av[0][0] == "ref":
                    cell = av[0][1]
                if self_value is not None:
                    self0 = self_value
                    if cell is not None:
                        st.mem[cell] = self_value
                    else:
                        av[0] = self_value
        res = I.run_body(body, path, av, st, ("root", path))
        return [Out(I, s, I.freeze(s, v), self0, cell) for s, v in res]


def full_loops(trace, seqterm):
    """iterations [(events, facts)] of loops that walk `seqterm` from its first to its last element;
    None if some loop over it can stop early or does not exist"""
    out = None
    for i, e in enumerate(trace):
        if e[0] == "loop":
            over = set()
            for ev, fs in e[2]:
                for x in ev:
                    if x[0] == "next":
                        over.add(x[1])
            if seqterm in over:
                if i + 1 < len(trace) and trace[i + 1] == ("end", seqterm):
                    out = (out or []) + list(e[2]) + [n for it in e[2] for n in nested(it[0], seqterm)]
        elif e == ("end", seqterm) and (i == 0 or trace[i - 1][0] != "loop"):
            out = out or []
    return out


def nested(events_, seqterm):
    """iterations of loops over seqterm inside an iteration (elements passed over, as `filter` does)"""
    out = []
    for e in events_:
        if e[0] == "loop":
            for it in e[2]:
                if any(x[0] == "next" and x[1] == seqterm for x in it[0]):
                    out.append(it)
                out += nested(it[0], seqterm)
    return out


def events(trace):
    for e in trace:
        if e[0] == "loop":
            for ev, fs in e[2]:
                yield from events(ev)
        else:
            yield e
