"""Running serializer methods on symbolic state: every &mut in the state gets its own cell."""
from . import absint
from .absint import Interp, St, show, sym, app, is_c, mentions, UNIT, OPT, RES
from .common import Anchor
from .meth import fget

SER = ("serde::Serialize", "serde::ser::Serialize")


def short(P, ty):
    t = P.types[P.peel(ty)]
    return t["p"].rsplit("::", 1)[-1] if t["k"] == "adt" else t["s"]


class Run:
    def __init__(self, I, st, ret, cells, args):
        self.I, self.st, self.cells, self.args = I, st, cells, args
        self.raw = ret
        self.ret = I.freeze(st, ret)
        self.facts, self.trace = st.facts, st.trace

    def disc(self, t):
        if t[0] == "agg":
            return t[2]
        f = self.facts.get(("disc", t))
        if isinstance(f, int):
            return f
        if f and isinstance(f, tuple) and f[0] == "not" and len(f[1]) == 1:
            x = next(iter(f[1]))
            if x in (0, 1):
                return 1 - x
        return None

    def state(self):
        return self.st.mem.get(("P", "state"))

    def final(self, cell):
        return own(self.I, self.st, self.st.mem.get(cell))


def own(I, st, v):
    """freeze, but leave references as references (what they point to is looked at on its own)"""
    if v is None:
        return None
    if v[0] == "agg":
        return ("agg", v[1], v[2], v[3], tuple(own(I, st, x) for x in v[4]))
    return v


class Ser:
    def __init__(self, P, api, **kw):
        self.P, self.api, self.kw = P, api, kw
        self.interps = []

    def hook(self, I, st, c, site):
        if c.trait not in SER or c.m != "serialize" or len(c.args) != 2:
            return None
        s = st.copy()
        v = I.freeze(s, c.args[0])
        while c.args[0][0] == "ref" and v[0] == "ref":
            v = I.deref(s, v)
        ser = c.args[1]
        fz = I.freeze(s, ser)
        ty = c.atys[1]
        if ty is None and fz in I.tyof:
            ty = I.tyof[fz]
        nm = fz[1].rsplit("::", 1)[-1] if fz[0] == "agg" else (short(self.P, ty) if ty is not None else "?")
        ret = I.settype(app("ser:" + nm, v, fz), c.dty)
        s.ev("ser", nm, v, ret)

        def fill(r):
            x = I.read(s, r[1], r[2])
            if x[0] == "ref":
                return fill(x)
            refs = [y for y in x[4] if y[0] == "ref"] if x[0] == "agg" else []
            if refs:
                for y in refs:
                    fill(y)
                return
            old = I.freeze(s, x)
            nv = app("filled:" + nm, v, old)
            if x in I.tyof:
                I.settype(nv, I.tyof[x])
            elif old[0] == "agg":
                try:
                    I.settype(nv, self.api.tyid(old[1]))
                except Anchor:
                    pass
            I.write(s, r[1], r[2], nv)
        if ser[0] == "ref":
            fill(ser)
        elif ser[0] == "agg":
            for y in ser[4]:
                if y[0] == "ref":
                    fill(y)
        return [(s, ret)]

    def mk(self, I, st, ty, name, cells):
        P = self.P
        t = P.types[ty]
        if t["k"] == "ref" and t["m"]:
            cell = ("P", name)
            inner = self.mk(I, st, t["t"], name, cells)
            st.mem[cell] = inner
            cells.append((name, cell, own(I, st, inner), t["t"]))
            return ("ref", cell, ())
        if t["k"] == "adt" and t["p"].startswith("crate::") and t["p"] in P.adts:
            a = P.adts[t["p"]]
            if a["kind"] == "struct" and any(f.get("t") is not None and P.types[f["t"]]["k"] == "ref" and P.types[f["t"]].get("m") for f in a["variants"][0]["f"]):
                fs = tuple(self.mk(I, st, f["t"], name + "." + f["n"], cells) for f in a["variants"][0]["f"])
                return ("agg", t["p"], 0, a["variants"][0]["n"], fs)
        v = I.param(st, name, ty)
        return self.spread(I, v, 0)

    def spread(self, I, v, n):
        """write out the fields of crate structs, so that a loop over one field leaves the others alone"""
        if v[0] not in ("sym", "fld") or n > 3:
            return v
        ty = I.tyof.get(v)
        if ty is None:
            return v
        t = self.P.types[ty]
        if n and t["k"] == "adt" and t["p"] == "std::vec::Vec":
            return I.settype(("seq", (("all", v),)), ty)
        a = self.P.adts.get(t.get("p")) if t["k"] == "adt" and t["p"].startswith("crate::") else None
        if not a or a["kind"] != "struct":
            return v
        m = I.materialize(v)
        if m is None or m[0] != "agg":
            return v
        return ("agg", m[1], m[2], m[3], tuple(self.spread(I, x, n + 1) for x in m[4]))

    def run(self, key, state=None, st=None, cells=None, names=()):
        """state: value of the first argument (from an earlier run) instead of a fresh symbolic one"""
        P = self.P
        body = P.bodies.get(key)
        if body is None:
            raise Anchor("no body for " + key)
        I = Interp(P, hooks=[self.hook], **self.kw)
        if self.interps:
            I.tyof = self.interps[0].tyof
        self.interps.append(I)
        st = st.copy() if st is not None else St()
        cells = list(cells or [])
        f = P.fn_by_path.get(key)
        av = []
        for i in range(body["argc"]):
            ty = body["locals"][i + 1][0]
            nm = f["argn"][i] if f and i < len(f["argn"]) and f["argn"][i] else "a%d" % i
            if i < len(names) and names[i]:
                nm = names[i]
            if i == 0 and state is not None:
                v = state
                if P.types[ty]["k"] == "ref" and v[0] != "ref":
                    cell = ("P", "state")
                    st.mem[cell] = v
                    v = ("ref", cell, ())
                av.append(v)
            else:
                av.append(self.mk(I, st, ty, "self" if i == 0 else nm, cells))
        res = I.run_body(body, key, av, st, ("root", key))
        return [Run(I, s, v, cells, av) for s, v in res]


def seq_tail(old, new):
    """items added behind `old`, None if old is not kept as a prefix"""
    if new == old:
        return []
    if new[0] != "seq":
        return None
    if old[0] != "seq":
        if not new[1] or new[1][0] not in (old, ("all", old)):
            return None
        return list(new[1][1:])
    oi, ni = absint.acc_items(old), absint.acc_items(new)
    if oi is None or ni is None or len(ni) < len(oi) or tuple(ni[:len(oi)]) != tuple(oi):
        return None
    return list(ni[len(oi):])


def diff(o, old, new, out, path=()):
    """changes from old to new: ('add', path, item), ('fill', path, term), ('set', path, old, new)"""
    I = o.I
    if old == new:
        return out
    if new[0] == "app" and new[1].startswith("filled:"):
        diff(o, old, new[2][1], out, path)
        out.append(("fill", path, new))
        return out
    t = seq_tail(old, new)
    if t is not None:
        for x in t:
            out.append(("add", path, x))
        return out
    if new[0] == "agg" and new[1] == OPT:
        d = o.disc(old)
        if d is not None and d != new[2] or d is None:
            if new[2] == 1 and d == 0:
                out.append(("some", path, new[4][0]))
            else:
                out.append(("set", path, old, new))
            return out
        if d == 1:
            op = old[4][0] if old[0] == "agg" else ("fld", old, "Some", "0")
            return diff(o, op, new[4][0], out, path + ("Some",))
        return out
    if new[0] == "agg":
        m = old if old[0] == "agg" else I.materialize(old)
        if m is not None and m[1] == new[1] and m[2] == new[2] and len(m[4]) == len(new[4]):
            a = I.p.adts.get(new[1])
            base = next((x[1] for x in new[4] if x[0] == "fld" and x[1][0] == "app" and x[1][1].startswith("filled:") and x[2] is None), None)
            if base is not None and a:
                diff(o, old, base, out, path)
                m = ("agg", m[1], m[2], m[3], tuple(("fld", base, None, f["n"]) for f in a["variants"][new[2]]["f"]))
                for x, f in zip(m[4], a["variants"][new[2]]["f"]):
                    I.settype(x, f["t"])
            for i, (x, y) in enumerate(zip(m[4], new[4])):
                if x[0] == "ref" and y[0] == "ref":
                    if x != y:
                        out.append(("set", path, x, y))
                    continue
                nm = a["variants"][new[2]]["f"][i]["n"] if a else str(i)
                diff(o, x, y, out, path + (nm,))
            return out
    out.append(("set", path, old, new))
    return out
