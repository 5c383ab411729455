"""C25: converting a v1 tree keeps every node, entry, name, annotation, value, and every piece of formatting text."""
from .. import dump
from ..common import Api, Anchor
from ..absint import show, sym, is_c, S, app, TRUE, FALSE, OPT
from ..meth import Runner, fget, fields
from .c09 import find

V1 = "kdl::"


def run(ck):
    ck.explanation = ("Each From<v1 type> conversion is interpreted on a symbolic v1 object whose public accessors are opaque and with the other four conversions opaque. On every path each part of "
                      "the result must be the corresponding part of the v1 object: converted once, in order, behind the same presence; the format texts must hold the stored v1 texts, and the pieces "
                      "the text after a node is cut into must be adjacent slices that cover it.")
    ck.rule = "From<v1>: ty, name, value, entries, children, nodes and stored texts carried over; pieces of a node's trailing text concatenate to it"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "v1", "v1span"]):
        one(ck, dump.load(cfg), "" if cfg == "all" else cfg + ":")


def name_of(k):
    """(crate type, v1 type) of a conversion key"""
    a, b = k[1:].split(" as std::convert::From<", 1)
    return a.rsplit("::", 1)[-1], b.split(">", 1)[0].rsplit("::", 1)[-1]


class X:
    def __init__(self, ck, P):
        self.ck, self.P, self.api = ck, P, Api(P)
        self.conv = {}
        for k in P.bodies:
            if "From<kdl::" in k and k.endswith(">::from") and k.startswith("<"):
                a, b = name_of(k)
                if a == b:
                    self.conv[a] = k
        for t in ("KdlDocument", "KdlNode", "KdlEntry", "KdlIdentifier", "KdlValue"):
            if t not in self.conv:
                raise Anchor("From<v1 %s>" % t)

    def run(self, t):
        k = self.conv[t]
        R = Runner(self.P, self.api, {}, no_inline=set(self.conv.values()) - {k}, fold_arrays=4, max_steps=1500000)
        rs = R.run(k)
        for I in R.interps:
            self.ck.used(I)
        self.ck.count("paths", len(rs))
        self.ck.ob(rs, t + ":does not return", "")
        return rs

    def acc(self, t, m):
        return app("kdl::%s::%s" % (t, m), sym("self"))

    def cv(self, t, x):
        return app(self.conv[t], x)

    def optional(self, o, v, acc, t):
        """v is Some(converted payload) / None exactly as the v1 accessor says"""
        d = o.disc(acc)
        if v[0] != "agg" or v[1] != OPT:
            return False
        if v[2] == 0:
            return d == 0
        return d == 1 and v[4][0] == self.cv(t, ("fld", acc, "Some", "0"))

    def every(self, o, v, acc, t):
        """v is the sequence of converted elements of the v1 slice"""
        if v[0] != "seq" or len(v[1]) != 1:
            return False
        it = v[1][0]
        if it[0] == "star":
            it = it[1]
        cases = None
        if it[0] == "acc" or it[0] == "loopacc":
            cases = it
        s = str(v)
        fs = find(v, lambda x: len(x) == 3 and x[0] == "app" and x[1] == self.conv[t], [])
        ones = find(v, lambda x: len(x) == 2 and x[0] == "one", [])
        its = [x for x in find(v, lambda x: len(x) == 3 and x[0] == "loopacc", [])]
        if len(its) != 1 or not isinstance(its[0][2], frozenset) or len(its[0][2]) != 1:
            return False
        (items, facts), = its[0][2]
        if facts or len(items) != 1 or items[0][0] != "one":
            return False
        x = items[0][1]
        return x[0] == "app" and x[1] == self.conv[t] and len(x[2]) == 1 and x[2][0][0] == "elem" and x[2][0][1] == acc

    def text(self, o, acc):
        """terms a format text holding the stored text (or nothing) may be"""
        d = o.disc(acc)
        if d == 1:
            return ("fld", acc, "Some", "0")
        return None

    def is_text(self, o, v, acc, dflt=("",)):
        w = self.text(o, acc)
        if w is not None:
            return v == w
        d = o.disc(acc)
        if d is None and v[0] == "app":
            return False
        return is_c(v, "str") and v[2] in dflt


def fmt(o, r, key, ck):
    f = fget(o.I, r, "format")
    if f is None or f[0] != "agg" or f[2] != 1:
        return None
    return f[4][0]


def bounds(x):
    """(text, from, to) of a slice term; None for its own ends"""
    if x[0] == "app" and x[1].startswith("slice:"):
        k = x[1].split(":", 1)[1]
        a = x[2]
        if k == "RangeTo":
            return a[0], None, a[1]
        if k == "RangeFrom":
            return a[0], a[1], None
        if k == "Range":
            return a[0], a[1], a[2]
        if k == "RangeFull":
            return a[0], None, None
    return x, None, None


def joins(parts, text, o):
    """do the pieces, written one after the other, give the text"""
    ps = [p for p in parts if not (is_c(p, "str") and p[2] == "")]
    if not ps:
        return text == S("")
    ln = app("len", text)
    bs = []
    for p in ps:
        t, a, b = bounds(p)
        if t != text:
            return False
        bs.append((a, b))
    zero = ("c", "int", 0)
    if bs[0][0] not in (None, zero):
        return False
    if bs[-1][1] not in (None, ln):
        # an empty rest may have been dropped
        return False
    for (a, b), (c, d) in zip(bs, bs[1:]):
        b = b if b is not None else ln
        if b != (c if c is not None else zero):
            return False
    return True


def one(ck, P, pre):
    Q = X(ck, P)
    desc = lambda o: "ret=%s facts=%s" % (show(o.ret)[:300], [(show(a[1]) if a[0] == "disc" else show(a), b) for a, b in list(o.facts.items())[:4]])

    # values
    vs = [v["n"] for v in P.adts[Q.api.ty("KdlValue")]["variants"]]
    k = pre + "KdlValue::from(v1):"
    seen = set()
    v1v = P.adts.get("kdl::KdlValue")
    names = [v["n"] for v in v1v["variants"]] if v1v else None
    if not names:
        raise Anchor("variants of the v1 KdlValue")
    WANT = {"RawString": "String", "String": "String", "Base2": "Integer", "Base8": "Integer", "Base10": "Integer", "Base16": "Integer",
            "Base10Float": "Float", "Bool": "Bool", "Null": "Null"}
    for o in Q.run("KdlValue"):
        d = o.facts.get(("disc", sym("self")))
        r = o.ret
        if not isinstance(d, int) or r[0] != "agg":
            ck.fail(k + "result does not depend on the kind alone", desc(o))
            continue
        n = names[d]
        seen.add(n)
        ck.ob(r[3] == WANT.get(n), k + "wrong kind for %s" % n, show(r))
        if r[4]:
            x = r[4][0]
            while x[0] == "app" and len(x[2]) == 1 and (x[1] in ("cast", "widen") or "from" in x[1].lower()):
                x = x[2][0]
            if x[0] == "app" and x[1].startswith("cast"):
                x = x[2][0]
            ck.ob(x == ("fld", sym("self"), n, "0"), k + "payload changed for %s" % n, show(r))
    ck.ob(seen == set(names), k + "kinds not handled", str(set(names) - seen))

    # identifiers
    k = pre + "KdlIdentifier::from(v1):"
    rep = Q.acc("KdlIdentifier", "repr")
    for o in Q.run("KdlIdentifier"):
        ck.ob(fget(o.I, o.ret, "value") == Q.acc("KdlIdentifier", "value"), k + "name changed", desc(o))
        r = fget(o.I, o.ret, "repr")
        d = o.disc(rep)
        ok = r[0] == "agg" and (r[2] == 0 and d == 0 or r[2] == 1 and d == 1 and r[4][0] == ("fld", rep, "Some", "0")) or r == rep
        ck.ob(ok, k + "source spelling not carried over", desc(o))
        span(ck, Q, o, k, "KdlIdentifier", desc)

    # entries
    k = pre + "KdlEntry::from(v1):"
    for o in Q.run("KdlEntry"):
        r = o.ret
        ck.ob(fget(o.I, r, "value") == Q.cv("KdlValue", Q.acc("KdlEntry", "value")), k + "value is not the converted value", desc(o))
        for f in ("ty", "name"):
            ck.ob(Q.optional(o, fget(o.I, r, f), Q.acc("KdlEntry", f), "KdlIdentifier"), k + "%s is not the converted %s" % (f, f), desc(o))
        fm = fmt(o, r, k, ck)
        ck.ob(fm is not None, k + "formatting dropped", desc(o))
        if fm is not None:
            for f in ("leading", "trailing"):
                ck.ob(Q.is_text(o, fget(o.I, fm, f), Q.acc("KdlEntry", f), ("", " ") if f == "leading" else ("",)), k + "%s text changed" % f, desc(o))
            x = fget(o.I, fm, "value_repr")
            w = Q.text(o, Q.acc("KdlEntry", "value_repr"))
            if w is not None:
                ck.ob(x == w, k + "value text changed", desc(o))
            else:
                if x[0] == "cat" and len(x[1]) == 1:
                    x = x[1][0]
                ck.ob(x[0] == "disp" and x[2] == Q.acc("KdlEntry", "value"), k + "an entry without value text loses its value when printed", desc(o))
            extra(ck, o, fm, k, {"leading", "trailing", "value_repr", "autoformat_keep"}, desc)
        span(ck, Q, o, k, "KdlEntry", desc)

    # nodes
    k = pre + "KdlNode::from(v1):"
    for o in Q.run("KdlNode"):
        r = o.ret
        ck.ob(fget(o.I, r, "name") == Q.cv("KdlIdentifier", Q.acc("KdlNode", "name")), k + "name is not the converted name", desc(o))
        ck.ob(Q.optional(o, fget(o.I, r, "ty"), Q.acc("KdlNode", "ty"), "KdlIdentifier"), k + "ty is not the converted ty", desc(o))
        ck.ob(Q.optional(o, fget(o.I, r, "children"), Q.acc("KdlNode", "children"), "KdlDocument"), k + "children are not the converted children", desc(o))
        ck.ob(Q.every(o, fget(o.I, r, "entries"), Q.acc("KdlNode", "entries"), "KdlEntry"), k + "entries are not the converted entries in order", desc(o))
        fm = fmt(o, r, k, ck)
        ck.ob(fm is not None, k + "formatting dropped", desc(o))
        if fm is not None:
            ck.ob(Q.is_text(o, fget(o.I, fm, "leading"), Q.acc("KdlNode", "leading")), k + "leading text changed", desc(o))
            ck.ob(Q.is_text(o, fget(o.I, fm, "before_children"), Q.acc("KdlNode", "before_children"), ("", " ")), k + "text before children changed", desc(o))
            tr = Q.acc("KdlNode", "trailing")
            tx = Q.text(o, tr) or S("")
            term = fget(o.I, fm, "terminator")
            ps = [fget(o.I, fm, "before_terminator"), term, fget(o.I, fm, "trailing")]
            if term == S("\n"):
                # only instead of an empty terminator
                e = [x for x in empties(o) if bounds(x)[0] == tx]
                ok = any(joins([ps[0], x, ps[2]], tx, o) for x in e) or joins([ps[0], ps[2]], tx, o)
            else:
                ok = joins(ps, tx, o)
            ck.ob(ok, k + "text after the node is lost or repeated", desc(o))
            extra(ck, o, fm, k, {"leading", "before_children", "before_terminator", "terminator", "trailing"}, desc)
        span(ck, Q, o, k, "KdlNode", desc)

    # documents
    k = pre + "KdlDocument::from(v1):"
    for o in Q.run("KdlDocument"):
        r = o.ret
        ck.ob(Q.every(o, fget(o.I, r, "nodes"), Q.acc("KdlDocument", "nodes"), "KdlNode"), k + "nodes are not the converted nodes in order", desc(o))
        fm = fmt(o, r, k, ck)
        ck.ob(fm is not None, k + "formatting dropped", desc(o))
        if fm is not None:
            for f in ("leading", "trailing"):
                ck.ob(Q.is_text(o, fget(o.I, fm, f), Q.acc("KdlDocument", f)), k + "%s text changed" % f, desc(o))
        span(ck, Q, o, k, "KdlDocument", desc)


def empties(o):
    out = set()
    for a, b in o.facts.items():
        if a[0] == "app" and a[1] == "Eq" and b == TRUE and a[2][1] == ("c", "int", 0) and a[2][0][0] == "app" and a[2][0][1] == "len":
            out.add(a[2][0][2][0])
        if a[0] == "val" and b == ("c", "int", 0) and a[1][0] == "app" and a[1][1] == "len":
            out.add(a[1][2][0])
    return out


def extra(ck, o, fm, k, used, desc):
    a = o.I.p.adts.get(fm[1])
    for i, f in enumerate(a["variants"][0]["f"]):
        if f["n"] not in used:
            ck.ob(fm[4][i] == S(""), k + "text invented in %s" % f["n"], desc(o))


def span(ck, Q, o, k, t, desc):
    a = o.I.p.adts.get(o.ret[1])
    if "span" not in [f["n"] for f in a["variants"][0]["f"]]:
        return
    sp = Q.acc(t, "span")
    v = fget(o.I, o.ret, "span")
    off = find(v, lambda x: len(x) == 3 and x[0] == "app" and isinstance(x[1], str) and x[1].endswith("::offset") and x[2] == (sp,), [])
    ln = find(v, lambda x: len(x) == 3 and x[0] == "app" and isinstance(x[1], str) and x[1].split("::")[-1] == "len" and x[2] == (sp,), [])
    ar = find(v, lambda x: len(x) == 3 and x[0] == "app" and isinstance(x[1], str) and x[1] in ("Add", "Sub", "Mul", "Div"), [])
    ck.ob((v == sp or len(off) == 1 and len(ln) == 1) and not ar, k + "span changed", show(v))
