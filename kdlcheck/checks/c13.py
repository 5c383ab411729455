"""C13: autoformat keeps comments, and puts every node on an indented line of its own."""
from .. import dump
from ..common import Api, Anchor, payload
from ..absint import show, sym, is_c, app, TRUE, FALSE, St, S, mentions, subst, C
from ..meth import fget, fields, Out
from ..trav import Trav, opt_payload, outcomes, keeps, blank, ends_line, parts, fold, under, TRIMS
from .c12 import Fmt, argname, CONFIG


def run(ck):
    ck.explanation = ("For every formatting string of a node, entry or document, the text it holds after autoformat is computed symbolically (string helpers are summarised from their own MIR) and compared with the text before: "
                      "either the original is contained (trimmed, or split into lines that are all copied unless blank), or it is known to hold no comment.")
    ck.rule = "no_comments off: original text of each formatting component survives; on: it does not; each node's line ends and starts with indent x level"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "none", "default"]):
        one(ck, dump.load(cfg), "" if cfg == "all" else cfg + ":")


def starts(facts, s, what):
    for k in (S(what), C("char", ord(what)) if len(what) == 1 else None):
        if k is not None:
            f = facts.get(app("str.starts_with", s, k))
            if f is not None:
                return f == TRUE
    return None


def one(ck, P, pre):
    api = Api(P)
    F = Fmt(ck, P, api, pre)
    T = F.T
    for t in ("KdlNode", "KdlDocument"):
        path = api.method(t, "autoformat_config")
        key = "%s%s::autoformat_config" % (pre, t)
        cfg = sym(argname(P, path))
        nc = ("fld", cfg, None, "no_comments")
        fcomp = fields(P, api.ty(t + "Format"))
        for drop in (False, True):
            st = St()
            st.facts[nc] = TRUE if drop else FALSE
            rs = T.run(path, st=st)
            ck.count("paths", len(rs))
            seen = {}
            for o in rs:
                f0, f1 = T.get(o, t, "format", o.self0), T.get(o, t, "format", o.final)
                d0, d1 = T.disc(o, f0), T.disc(o, f1)
                if d0 == 0 or d0 is None:
                    if t == "KdlNode" and not drop:
                        fresh(ck, o, key, f1, d1)
                    if d0 is None:
                        ck.ob(f1 == f0 or under(f1) == f0, key + ":format handled without looking at it", show(f1))
                    continue
                if not ck.ob(d1 == 1, key + ":drops the formatting", show(f1)):
                    continue
                p0, p1 = opt_payload(o, f0), opt_payload(o, f1)
                for c in fcomp:
                    a, b = fget(o.I, p0, c), fget(o.I, p1, c)
                    if a == b and not drop:
                        ck.ob(True, "")
                        if t == "KdlDocument":
                            continue
                    for v, fs, tr in outcomes(T, o, b, o.facts, o.trace):
                        if seen.get((c, v, frozenset((k, w) for k, w in fs.items() if mentions(k, lambda x: x == a)))):
                            continue
                        seen[c, v, frozenset((k, w) for k, w in fs.items() if mentions(k, lambda x: x == a))] = True
                        component(ck, key, t, c, a, v, fs, tr, drop, cfg)
                if t == "KdlNode" and d0 == 1:
                    # children block: what the recursive call kept is still there afterwards
                    children(ck, T, o, key, drop)
    ck.ob(True, "")
    entry(ck, P, api, T, pre)
    for I in T.R.interps:
        ck.used(I)
    ck.samples.append("obligation: on every path of KdlNode::autoformat_config with no_comments off, each line of format.leading that is not blank occurs in the new leading")


def fresh(ck, o, key, f1, d1):
    if not ck.ob(d1 == 1 and f1[0] == "agg", key + ":unformatted node gets no format", show(f1)):
        return
    p = f1[4][0]
    tm, tr = fget(o.I, p, "terminator"), fget(o.I, p, "trailing")
    ck.ob(is_c(tm, "str") and tm[2].endswith("\n") and is_c(tr, "str") and tr[2] == "", key + ":unformatted node does not end its line", show(p))


def component(ck, key, t, c, a, v, fs, tr, drop, cfg):
    if not drop:
        kept = keeps(v, a, fs, tr) or blank(fs, a)
        if not kept and c == "terminator":
            # a terminator is a newline, a semicolon or a comment
            kept = starts(fs, a, "//") is False or starts(fs, a, "\n") is True
        ck.ob(kept, "%s:%s.%s:comments are dropped" % (key, t, c), "%s becomes %s" % (show(a), show(v)[:200]))
    else:
        gone = not mentions(v, lambda x: x == a) or blank(fs, a)
        if not gone and c == "terminator":
            gone = starts(fs, a, "\n") is True and v == a
        if not gone and v[0] == "app" and v[1] in TRIMS:
            gone = blank(fs, v)
        ck.ob(gone, "%s:%s.%s:comments are kept although no_comments is set" % (key, t, c), "%s becomes %s" % (show(a), show(v)[:200]))
    if t != "KdlNode":
        return
    if c == "terminator":
        brk = any(is_c(x, "str") and "\n" in x[2] for x in parts(v)) or (v == a and starts(fs, a, "\n") is True)
        ck.ob(brk, "%s:%s:node does not end its line" % (key, c), show(v))
        if v != a:
            ck.ob(ends_line(v, fs), "%s:%s:comment is not ended" % (key, c), show(v))
    elif c == "trailing":
        ck.ob(ends_line(v, fs), "%s:%s:comment is not ended" % (key, c), show(v))
    elif c == "leading":
        ck.ob(indented(v, cfg, tr), "%s:%s:does not end with the indentation" % (key, c), show(v)[:200])


def indented(v, cfg, tr):
    ps = parts(v)
    x = ps[-1]
    lvl, ind = ("fld", cfg, None, "indent_level"), ("fld", cfg, None, "indent")
    def isind(x):
        if x[0] == "app" and str(x[1]).endswith("repeat") and x[2] == (ind, lvl):
            return True
        if x[0] != "loopacc" or [d for d, fs in x[2]] != [(ind,)]:
            return False
        rg = app("rng", C("int", 0), lvl)
        # one piece per number in 0..indent_level
        def loops(tr):
            for i, e in enumerate(tr):
                if e[0] == "loop":
                    if e[1] == x[1] and all(any(y[0] == "next" and y[1] == rg for y in ev) for ev, fs in e[2]):
                        return True
        return bool(loops(tr)) and ended(tr, rg)
    if not isind(x):
        return False
    # what comes before ends its own line
    rest = ps[:-1]
    return ends_line(("cat", rest), {}) if rest else True


def ended(tr, t):
    return any(e == ("end", t) for e in tr)


def children(ck, T, o, key, drop):
    c0, c1 = T.get(o, "KdlNode", "children", o.self0), T.get(o, "KdlNode", "children", o.final)
    if T.disc(o, c0) != 1 or T.disc(o, c1) != 1:
        return
    p1 = opt_payload(o, c1)
    f1 = T.get(o, "KdlDocument", "format", p1)
    if p1[0] == "app" or drop:
        return
    if T.disc(o, f1) == 1:
        q = opt_payload(o, f1)
        for c in fields(T.P, T.api.ty("KdlDocumentFormat")):
            b = fget(o.I, q, c)
            # the text of the same component as the recursive call left it
            src = []
            def find(x):
                if isinstance(x, tuple):
                    if len(x) == 4 and x[0] == "fld" and x[3] == c and mentions(x, lambda y: isinstance(y, tuple) and len(y) == 3 and y[0] == "app" and y[1] == "after:KdlDocument.autoformat_config"):
                        src.append(x)
                        return
                    for y in x:
                        find(y)
            find(b)
            ck.ob(any(keeps(b, s, o.facts, o.trace) for s in src), "%s:children.%s:comments are dropped" % (key, c), show(b)[:200])


def entry(ck, P, api, T, pre):
    path = api.method("KdlEntry", "autoformat")
    key = pre + "KdlEntry::autoformat"
    fcomp = fields(P, api.ty("KdlEntryFormat"))
    for o in T.run(path):
        f0, f1 = T.get(o, "KdlEntry", "format", o.self0), T.get(o, "KdlEntry", "format", o.final)
        if T.disc(o, f0) != 1:
            continue
        kept = o.facts.get(("fld", payload(f0), None, "autoformat_keep")) == TRUE
        for c in fcomp:
            if c in ("autoformat_keep", "value_repr"):
                continue
            a = fget(o.I, payload(f0), c)
            d1 = T.disc(o, f1)
            b = fget(o.I, opt_payload(o, f1), c) if d1 == 1 else None
            ok = b is not None and (keeps(b, a, o.facts, o.trace) or keeps(under(b), a, o.facts, o.trace))
            ck.ob(ok, "%s:%s%s:comments are dropped" % (key, "kept entry: " if kept else "", c), "" if b is None else show(b))
