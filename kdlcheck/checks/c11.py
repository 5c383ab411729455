"""C11: clear_format / clear_format_recursive remove all formatting (and nothing else)."""
from .. import dump
from ..common import Api, payload
from ..meth import Runner, fget, fields, full_loops, events
from ..absint import show, OPT, none

FAM = ["clear_format", "clear_format_recursive"]


def is_none(o, t):
    return o.disc(t) == 0


def opt_payload(o, t):
    """payload of a present option, None if absent/unknown"""
    if t[0] == "agg":
        return t[4][0] if t[2] == 1 else None
    return payload(t)


class Ctx:
    def __init__(self, P, api):
        self.P, self.api = P, api
        self.acc = {}
        self.fam = {}
        for t in ("KdlDocument", "KdlNode", "KdlEntry", "KdlIdentifier"):
            for m in FAM + ["autoformat"]:
                k = api.ty(t) + "::" + m
                if k in P.bodies and m in FAM:
                    self.fam[k] = t + "." + m
        # names of the private fields, read off the public accessors
        g = lambda t, m: api.field(t, m)[3]
        self.fn = {(t, m): g(t, m) for t, m in [
            ("KdlDocument", "format"), ("KdlDocument", "nodes"), ("KdlNode", "format"), ("KdlNode", "ty"), ("KdlNode", "name"),
            ("KdlNode", "entries"), ("KdlNode", "children"), ("KdlEntry", "format"), ("KdlEntry", "ty"), ("KdlEntry", "name"),
            ("KdlEntry", "value"), ("KdlIdentifier", "repr"), ("KdlIdentifier", "value")]}

    def get(self, o, t, m, obj):
        return fget(o.I, obj, self.fn[(t, m)])

    # --- "has no formatting of its own"
    def ident_clear(self, o, v):
        if v[0] == "app" and v[1].startswith("after:KdlIdentifier."):
            return True
        return is_none(o, self.get(o, "KdlIdentifier", "repr", v))

    def opt_ident_clear(self, o, t):
        d = o.disc(t)
        if d == 0:
            return True
        if d == 1:
            return self.ident_clear(o, opt_payload(o, t))
        return False

    def entry_clear(self, o, v):
        if v[0] == "app" and v[1] == "after:KdlEntry.clear_format":
            return []
        bad = []
        if not is_none(o, self.get(o, "KdlEntry", "format", v)):
            bad.append("format")
        for m in ("ty", "name"):
            if not self.opt_ident_clear(o, self.get(o, "KdlEntry", m, v)):
                bad.append(m)
        return bad


class View:
    """an Out with the facts of one loop iteration added"""

    def __init__(self, o, facts):
        self.I = o.I
        self.facts = dict(o.facts)
        self.facts.update(facts)

    def disc(self, t):
        from ..common import disc
        if t[0] == "agg":
            return t[2]
        return disc(self.facts, t)


def elem_final(ev, seqterm):
    """(element, final value) of the one element visited in an iteration"""
    nx = [e for e in ev if e[0] == "next" and e[1] == seqterm]
    if len(nx) != 1:
        return None, None
    el = nx[0][2]
    fin = el
    for e in ev:
        if e[0] == "elemset" and e[1] == el:
            fin = e[2]
    return el, fin


def loop_all(o, seqterm, pred):
    """errors of elements of seqterm after the run; pred(view, element, final) -> [error]"""
    its = full_loops(o.trace, seqterm)
    if its is None:
        return ["not every element is visited"]
    errs = []
    for ev, fs in its:
        el, fin = elem_final(ev, seqterm)
        if el is None:
            errs.append("an element is skipped")
            continue
        errs += pred(View(o, fs), el, fin)
    return errs


def seq_nonempty_known(o, seqterm):
    return True


def same(a, b):
    return a == b


def unchanged(ck, cx, key, o, t, members, obj0, obj1):
    """members of the object that must keep their value"""
    for m in members:
        a, b = fget(o.I, obj0, cx.fn[(t, m)]), fget(o.I, obj1, cx.fn[(t, m)])
        ck.ob(a == b, "%s:%s changed" % (key, m), "%s becomes %s" % (show(a), show(b)))


def run(ck):
    ck.explanation = ("clear_format and clear_format_recursive of every tree type are interpreted over a symbolic object; "
                      "on every path the final object, including every element of its collections, must carry no formatting, "
                      "and values, names' text, entries and children must be the original ones.")
    ck.rule = "format fields are None and identifier representations are None afterwards, for the object itself or (recursive) everything below it"
    configs = ["all"] if ck.tier == "quick" else ["all", "none", "default"]
    for cfg in configs:
        one(ck, dump.load(cfg), "" if cfg == "all" else cfg + ":")


def one(ck, P, pre):
    api = Api(P)
    cx = Ctx(P, api)
    R = Runner(P, api, cx.fam)

    def outs(t, m):
        r = R.run(api.method(t, m))
        ck.count("paths", len(r))
        return r, "%s%s::%s" % (pre, t, m)

    # identifiers
    r, k = outs("KdlIdentifier", "clear_format")
    for o in r:
        ck.ob(is_none(o, cx.get(o, "KdlIdentifier", "repr", o.final)), k + ":repr kept", "")
        unchanged(ck, cx, k, o, "KdlIdentifier", ["value"], o.self0, o.final)
    # entries
    r, k = outs("KdlEntry", "clear_format")
    for o in r:
        bad = cx.entry_clear(o, o.final)
        ck.ob(not bad, k + ":%s keeps formatting" % ",".join(bad), "")
        unchanged(ck, cx, k, o, "KdlEntry", ["value"], o.self0, o.final)
        for m in ("ty", "name"):
            same_ident(ck, cx, o, k, m, cx.get(o, "KdlEntry", m, o.self0), cx.get(o, "KdlEntry", m, o.final))
    # nodes
    r, k = outs("KdlNode", "clear_format")
    for o in r:
        ck.ob(is_none(o, cx.get(o, "KdlNode", "format", o.final)), k + ":format kept", "")
        unchanged(ck, cx, k, o, "KdlNode", ["entries", "children"], o.self0, o.final)
        same_ident(ck, cx, o, k, "name", ("one", cx.get(o, "KdlNode", "name", o.self0)), ("one", cx.get(o, "KdlNode", "name", o.final)))
        ck.ob(full_loops(o.trace, cx.get(o, "KdlNode", "entries", o.self0)) is None or not any(e[0] in ("elemset", "fam") for e in events(o.trace)),
              k + ":touches entries", "")
    r, k = outs("KdlNode", "clear_format_recursive")
    for o in r:
        ck.ob(is_none(o, cx.get(o, "KdlNode", "format", o.final)), k + ":format kept", "")
        ck.ob(cx.ident_clear(o, cx.get(o, "KdlNode", "name", o.final)), k + ":name keeps its representation", "")
        ck.ob(cx.opt_ident_clear(o, cx.get(o, "KdlNode", "ty", o.final)), k + ":type annotation keeps its representation", "")
        e0 = cx.get(o, "KdlNode", "entries", o.self0)
        ck.ob(cx.get(o, "KdlNode", "entries", o.final) == e0, k + ":entries replaced", show(cx.get(o, "KdlNode", "entries", o.final)))
        errs = loop_all(o, e0, lambda v, el, fin: ["entry keeps " + ",".join(b) for b in [cx.entry_clear(v, fin)] if b])
        ck.ob(not errs, k + ":entries: " + (errs[0] if errs else ""), "")
        c0, c1 = cx.get(o, "KdlNode", "children", o.self0), cx.get(o, "KdlNode", "children", o.final)
        d0, d1 = o.disc(c0), o.disc(c1)
        ck.ob(d0 is not None and d0 == d1, k + ":children", "the children block may be left as it is, dropped or added")
        if d1 == 1:
            p0, p1 = opt_payload(o, c0), opt_payload(o, c1)
            ck.ob(doc_cleared(cx, o, p0, p1), k + ":children keep formatting", show(p1))
        same_ident(ck, cx, o, k, "name", ("one", cx.get(o, "KdlNode", "name", o.self0)), ("one", cx.get(o, "KdlNode", "name", o.final)))
        same_ident(ck, cx, o, k, "ty", cx.get(o, "KdlNode", "ty", o.self0), cx.get(o, "KdlNode", "ty", o.final))
    # documents
    r, k = outs("KdlDocument", "clear_format")
    for o in r:
        ck.ob(is_none(o, cx.get(o, "KdlDocument", "format", o.final)), k + ":format kept", "")
        unchanged(ck, cx, k, o, "KdlDocument", ["nodes"], o.self0, o.final)
        ck.ob(not any(e[0] in ("elemset", "fam") for e in events(o.trace)), k + ":touches nodes", "")
    r, k = outs("KdlDocument", "clear_format_recursive")
    for o in r:
        errs = doc_errs(cx, o, o.self0, o.final)
        ck.ob(not errs, k + ":" + (errs[0] if errs else ""), "")
    for I in R.interps:
        ck.used(I)
    ck.samples.append("methods: clear_format of 4 types, clear_format_recursive of KdlNode and KdlDocument")


def doc_cleared(cx, o, p0, p1):
    if p1 == ("app", "after:KdlDocument.clear_format_recursive", (p0,)):
        return True
    return not doc_errs(cx, o, p0, p1)


def doc_errs(cx, o, d0, d1):
    errs = []
    if not is_none(o, cx.get(o, "KdlDocument", "format", d1)):
        errs.append("document format kept")
    n0, n1 = cx.get(o, "KdlDocument", "nodes", d0), cx.get(o, "KdlDocument", "nodes", d1)
    if n0 != n1:
        errs.append("nodes replaced")
    errs += loop_all(o, n0, lambda v, el, fin: [] if fin == ("app", "after:KdlNode.clear_format_recursive", (el,)) else ["a node is not cleared recursively"])
    return errs


def same_ident(ck, cx, o, k, m, t0, t1):
    """the identifier (or optional identifier) keeps presence and text"""
    if t0[0] == "one":
        ps = [(t0[1], t1[1])]
    else:
        if t0 == t1:
            ck.ob(True, "")
            return
        d0, d1 = o.disc(t0), o.disc(t1)
        if not ck.ob(d0 == d1 and d0 is not None, "%s:%s dropped or added" % (k, m), "%s / %s" % (show(t0), show(t1))):
            return
        if d0 == 0:
            return
        ps = [(opt_payload(o, t0), opt_payload(o, t1))]
    for a, b in ps:
        if b[0] == "app" and b[1].startswith("after:KdlIdentifier.") and b[2][0] == a:
            ck.ob(True, "")
            continue
        ck.ob(a == b or cx.get(o, "KdlIdentifier", "value", a) == cx.get(o, "KdlIdentifier", "value", b), "%s:%s text changed" % (k, m), show(b))
