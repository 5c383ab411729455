"""C24: ensure_v1 / ensure_v2 reach everything and change nothing but spelling."""
from .. import dump
from ..common import Api, Anchor, payload
from ..absint import show, sym, is_c, app, TRUE, FALSE, OPT, St, S, mentions
from ..meth import fget, fields, full_loops
from ..trav import Trav, View, opt_payload, norm, under, empty_fact, parts

VALUES = {"String": "String", "Integer": "Integer", "Float": "Float", "Bool": "Bool", "Null": "Null"}


def run(ck):
    ck.explanation = ("ensure_v1 and ensure_v2 of every tree type are interpreted over a symbolic object, recursive calls replaced by the property. On every path the structure, values, names and annotations must be the original "
                      "ones, every element must be converted, names and annotations must lose their old spelling, keywords must be written for the target version, and all other formatting must be untouched.")
    ck.rule = "shape(before) = shape(after); all elements of nodes/entries/children converted; identifiers re-spelled from their value only; numbers keep their spelling"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "v1"]):
        try:
            P = dump.load(cfg)
        except KeyError:
            continue
        one(ck, P, "" if cfg == "all" else cfg + ":")


def one(ck, P, pre):
    api = Api(P)
    T = Trav(P, api)
    g = lambda o, t, m, v: T.get(o, t, m, v)
    V = api.ty("KdlValue")
    vs = [v["n"] for v in P.adts[V]["variants"]]

    def ident(o, v0, v1, ver):
        if v1[0] == "app" and v1[1] == "after:KdlIdentifier.clear_format" and ver == 2:
            return []
        r = g(o, "KdlIdentifier", "repr", v1)
        if ver == 2:
            return [] if o.disc(r) == 0 else ["keeps its v1 spelling"]
        if o.disc(r) != 1:
            return ["is not spelled for v1"]
        rp = opt_payload(o, r)
        old = g(o, "KdlIdentifier", "repr", v0)
        val = g(o, "KdlIdentifier", "value", v0)
        if mentions(rp, lambda x: x == old) or not mentions(rp, lambda x: x == val):
            return ["is not spelled from its value"]
        # the plain text needs the v1 writer's quoting
        if norm(rp) == norm(val):
            return ["is not quoted as v1 requires"]
        return []

    def opt_ident(o, a, b, what, ver):
        d = T.disc(o, b)
        if d == 0:
            return []
        if d is None:
            return [what + " may keep its spelling"]
        return [what + " " + e for e in ident(o, opt_payload(o, a), opt_payload(o, b), ver)]

    def loop(o, seq, want):
        its = full_loops(o.trace, seq)
        if its is None:
            return ["not every element is converted"]
        errs = []
        for ev, fs in its:
            nx = [e for e in ev if e[0] == "next" and e[1] == seq]
            if len(nx) != 1:
                errs.append("an element is skipped")
                continue
            el = fin = nx[0][2]
            for e in ev:
                if e[0] == "elemset" and e[1] == el:
                    fin = e[2]
            if fin != ("app", want, (el,)):
                errs.append("an element is not converted")
        return errs

    def same_format(o, t, a, b, but):
        """all parts of a present format but `but` are unchanged"""
        if under(b) == a:
            return []
        d0, d1 = T.disc(o, a), T.disc(o, b)
        if d0 != d1 or d0 is None:
            return ["formatting added or dropped"]
        if d0 == 0:
            return []
        errs = []
        p0, p1 = opt_payload(o, a), opt_payload(o, b)
        for f in fields(P, api.ty(t + "Format")):
            if f not in but and fget(o.I, p0, f) != fget(o.I, p1, f):
                errs.append("formatting changed: " + f)
        return errs

    def entry(o, ver):
        errs = []
        for m in ("ty", "name"):
            errs += opt_ident(o, g(o, "KdlEntry", m, o.self0), g(o, "KdlEntry", m, o.final), m, ver)
        f0, f1 = g(o, "KdlEntry", "format", o.self0), g(o, "KdlEntry", "format", o.final)
        d0, d1 = T.disc(o, f0), T.disc(o, f1)
        val = g(o, "KdlEntry", "value", o.self0)
        kind = o.facts.get(("disc", val))
        kind = vs[kind] if isinstance(kind, int) else None
        pay = ("fld", val, kind, "0")
        if d0 is None:
            return errs + ["formatting handled without looking at it"]
        if d0 == 0:
            if ver == 2:
                return errs + ([] if d1 == 0 else ["formatting added"])
            if d1 != 1:
                return errs + ["value is not spelled for v1"]
            if kind is None:
                return errs + ["kind of the value not looked at"]
            p = opt_payload(o, f1)
            r = fget(o.I, p, "value_repr")
            if kind != "Null" and not direct(r, pay):
                errs.append("unformatted %s is not written from its value" % kind)
            if kind == "Null" and not (r == S("null") or r[0] == "disp"):
                errs.append("unformatted Null")
            ld = fget(o.I, p, "leading")
            if not (is_c(ld, "str") and ld[2] == " "):
                errs.append("unformatted entry loses its separator")
            return errs
        errs += same_format(o, "KdlEntry", f0, f1, ("value_repr",))
        if d1 == 1:
            r0, r1 = fget(o.I, payload(f0), "value_repr"), fget(o.I, opt_payload(o, f1), "value_repr")
            if kind in ("Integer", "Float"):
                if r1 != r0:
                    errs.append("%s is respelled" % kind)
            elif kind == "Bool":
                ok = keyword(o, r1, pay, ver)
                if not ok:
                    errs.append("Bool is not written as the keyword of the target version")
            elif kind == "Null":
                if not (r1 == S("#null" if ver == 2 else "null") or (ver == 1 and r1[0] == "disp" and r1[2][0] == "agg" and r1[2][3] == "Null")):
                    errs.append("Null is not written as the keyword of the target version")
            elif kind == "String":
                if not (mentions(r1, lambda x: x == r0) or mentions(r1, lambda x: x == pay)) and not any(k[0] == "val" and k[1] == pay for k in o.facts if isinstance(k, tuple)):
                    errs.append("String spelled without its text")
            else:
                errs.append("kind of the value not looked at")
        return errs

    def direct(r, pay):
        """r is the text of exactly `pay`, without a numeric cast in between"""
        if r == pay:
            return True
        if r[0] == "disp":
            return direct(r[2], pay)
        if r[0] == "agg" and len(r[4]) == 1:
            return direct(r[4][0], pay)
        if r[0] == "app" and str(r[1]).split("::")[-1] in ("to_string", "from", "into", "clone") and len(r[2]) == 1:
            return direct(r[2][0], pay)
        return False

    def keyword(o, r, pay, ver):
        ps = list(parts(r))
        f = o.facts.get(pay)
        if ver == 2:
            if ps and is_c(ps[0], "str") and ps[0][2] == "#":
                ps = ps[1:]
            elif len(ps) == 1 and is_c(ps[0], "str") and ps[0][2][:1] == "#":
                ps = [S(ps[0][2][1:])]
            else:
                return False
        if len(ps) != 1:
            return False
        if is_c(ps[0], "str"):
            return f is not None and ps[0][2] == ("true" if f == TRUE else "false")
        return direct(ps[0], pay)

    for ver in (1, 2):
        m = "ensure_v%d" % ver
        for t in ("KdlEntry", "KdlNode", "KdlDocument"):
            path = api.method(t, m)
            key = "%s%s::%s" % (pre, t, m)
            rs = T.run(path)
            ck.count("paths", len(rs))
            ck.ob(rs, key + ":does not return", "")
            for o in rs:
                errs = T.shape(o, t, o.self0, o.final) + T.elem_errs(o)
                ck.ob(not errs, "%s:%s" % (key, errs[0] if errs else ""), show(o.final)[:300])
                if t == "KdlEntry":
                    errs = entry(o, ver)
                elif t == "KdlNode":
                    errs = ["name " + e for e in ident(o, g(o, t, "name", o.self0), g(o, t, "name", o.final), ver)]
                    errs += opt_ident(o, g(o, t, "ty", o.self0), g(o, t, "ty", o.final), "ty", ver)
                    errs += ["entries: " + e for e in loop(o, g(o, t, "entries", o.self0), "after:KdlEntry." + m)]
                    c0, c1 = g(o, t, "children", o.self0), g(o, t, "children", o.final)
                    d = T.disc(o, c0)
                    if d is None:
                        errs.append("children block may be left as it is")
                    elif d == 1 and T.disc(o, c1) == 1 and opt_payload(o, c1) != ("app", "after:KdlDocument." + m, (opt_payload(o, c0),)):
                        errs.append("children block is not converted")
                    errs += same_format(o, t, g(o, t, "format", o.self0), g(o, t, "format", o.final), ())
                else:
                    n0 = g(o, t, "nodes", o.self0)
                    errs = ["nodes: " + e for e in loop(o, n0, "after:KdlNode." + m)]
                    errs += same_format(o, t, g(o, t, "format", o.self0), g(o, t, "format", o.final), ())
                    errs += last_node(ck, T, o, n0, ver, same_format)
                ck.ob(not errs, "%s:%s" % (key, errs[0] if errs else ""), show(o.final)[:300])
    for I in T.R.interps:
        ck.used(I)
    ck.samples.append("obligation: in KdlEntry::ensure_v1 with a formatted Bool, value_repr becomes the text of the bool and every other part of the format is the original one")


def last_node(ck, T, o, n0, ver, same_format):
    """nodes written directly (not through the recursive call): only v1 termination of the last one is allowed"""
    errs = []
    seen_last = None
    for c, v in o.st.mem.items():
        if isinstance(c, tuple) and c[0] == "E" and c[1][0] == "elem" and c[1][1] == n0:
            el, v = c[1], o.I.freeze(o.st, v)
            if v == el:
                continue
            a, b = T.get(o, "KdlNode", "format", el), T.get(o, "KdlNode", "format", v)
            if not is_last(el[2]):
                errs.append("a node is changed on the side")
                continue
            seen_last = (el, v)
            if T.disc(o, a) == 1:
                errs += same_format(o, "KdlNode", a, b, ("terminator",))
    if ver == 2:
        return errs + (["a node is changed on the side"] if seen_last else [])
    if empty_fact(o.facts, n0):
        return errs
    if seen_last:
        b = T.get(o, "KdlNode", "format", seen_last[1])
        if T.disc(o, b) != 1:
            return errs + ["last node is left without a terminator"]
        t = fget(o.I, opt_payload(o, b), "terminator")
    else:
        t = None
        for k in o.facts:
            if isinstance(k, tuple) and len(k) == 2 and k[0] == "ne" and isinstance(k[1], tuple) and k[1][:2] == ("app", "len"):
                x = k[1][2][0]
                if mentions(x, lambda y: isinstance(y, tuple) and len(y) == 3 and y[0] == "elem" and y[1] == n0 and is_last(y[2])):
                    t = x
        if t is None:
            return errs + ["last node may be left without a terminator"]
    if t[0] == "cat" and any(is_c(x, "str") and x[2] for x in parts(t)):
        return errs
    if is_c(t, "str"):
        if t[2] == "":
            errs.append("last node is left without a terminator")
    elif not (o.facts.get(app("Eq", app("len", t), ("c", "int", 0))) == FALSE and mentions(t, lambda y: isinstance(y, tuple) and len(y) == 4 and y[0] == "fld" and y[3] == "terminator")):
        errs.append("last node may be left without a terminator")
    return errs


def is_last(pos):
    return pos == ("b", 0) or pos == "last"
