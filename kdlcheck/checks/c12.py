"""C12: autoformat keeps the tree's content and normalises all of it."""
from .. import dump
from ..common import Api, Anchor, payload
from ..absint import show, sym, is_c, app, TRUE, FALSE, OPT, St, S, I as INT, none
from ..meth import fget, fields, full_loops, Runner
from ..trav import Trav, View, opt_payload, FORMAT, parts, blank, empty_fact, norm

CONFIG = ["indent_level", "indent", "no_comments", "entry_autoformate_keep"]


def run(ck):
    ck.explanation = ("autoformat, autoformat_config and autoformat_no_comments of every tree type are interpreted over a symbolic object; recursive calls are replaced by the property itself. "
                      "On every path the structure must be the original one, every node, entry, name and annotation must be normalised, and the configuration handed down must be the caller's, one level deeper for children.")
    ck.rule = "shape(before) = shape(after); every element of nodes/entries, and the children block, is passed to the autoformat of its type"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "none", "default"]):
        one(ck, dump.load(cfg), "" if cfg == "all" else cfg + ":")


def same_term(a, b):
    if a == b:
        return True
    # sums in either order
    return a[0] == "app" and b[0] == "app" and a[1] == b[1] == "Add" and sorted(map(str, a[2])) == sorted(map(str, b[2]))


class Fmt:
    def __init__(self, ck, P, api, pre):
        self.ck, self.P, self.api, self.pre = ck, P, api, pre
        self.T = Trav(P, api, always=["KdlEntry.ensure_v2"])
        cfgt = [k for k in P.adts if k.startswith("crate::") and k.endswith("::FormatConfig")]
        if len(cfgt) != 1:
            raise Anchor("FormatConfig")
        self.cfgt = cfgt[0]
        for f in CONFIG:
            if f not in fields(P, self.cfgt):
                raise Anchor("FormatConfig." + f)

    def cfg_of(self, I, term):
        return {f: fget(I, term, f) for f in CONFIG}

    def cfg_is(self, o, term, cfg, deeper=False):
        bad = []
        for f in CONFIG:
            want = cfg[f]
            if f == "indent_level" and deeper:
                want = INT(want[2] + 1) if is_c(want, "int") else app("Add", INT(1), want)
            got = fget(o.I, term, f)
            g2, w2 = o.I.known(o.o.st if isinstance(o, View) else o.st, got), want
            if got != want and g2 != want and not same_term(got, want) and o.facts.get(want) != g2:
                bad.append(f)
        return bad

    def truth(self, o, t):
        if is_c(t, "bool"):
            return t[2]
        f = o.facts.get(t)
        return f[2] if f is not None and is_c(f, "bool") else None

    # -- predicates: [] when `v1` is the normalised form of `v0`
    def ident(self, o, v0, v1):
        if v1[0] == "app" and v1[1] in ("after:KdlIdentifier.autoformat", "after:KdlIdentifier.clear_format"):
            return []
        r = self.T.get(o, "KdlIdentifier", "repr", v1)
        return [] if o.disc(r) == 0 else ["keeps its representation"]

    def opt_ident(self, o, v0, v1, what):
        d = o.disc(v1)
        if d == 0:
            return []
        if d is None:
            return [what + " may keep its representation"]
        return [what + " " + e for e in self.ident(o, opt_payload(o, v0), opt_payload(o, v1))]

    def entry(self, o, v0, v1, keep):
        """keep: the option of the configuration (True/False), None: stand-alone autoformat"""
        if v1[0] == "app" and v1[1] == "after:KdlEntry.autoformat":
            p = v1[2][0]
            if keep:
                return [] if p == ("app", "after:KdlEntry.keep_format", (v0,)) else ["entry is not kept under entry_autoformate_keep"]
            return [] if p == v0 else ["entry is kept without entry_autoformate_keep"]
        g = lambda m, v: self.T.get(o, "KdlEntry", m, v)
        errs = []
        for m in ("ty", "name"):
            errs += self.opt_ident(o, g(m, v0), g(m, v1), m)
        f0, f1 = g("format", v0), g("format", v1)
        d0, d1 = o.disc(f0), o.disc(f1)
        k = None
        if keep is True:
            k = True if d0 == 1 else False
        elif d0 == 1:
            k = self.truth(o, fget(o.I, opt_payload(o, f0), "autoformat_keep"))
            if k is None:
                return errs + ["formatting handled without looking at autoformat_keep"] if d1 != 0 else errs
        if not k:
            if d1 != 0:
                errs.append("formatting kept")
        else:
            if d1 != 1:
                errs.append("formatting to be kept is dropped")
            else:
                p0, p1 = opt_payload(o, f0), opt_payload(o, f1)
                for m in fields(self.P, self.api.ty("KdlEntryFormat")):
                    a, b = fget(o.I, p0, m), fget(o.I, p1, m)
                    if m == "value_repr":
                        ok = b == a or norm(b) == self.v2repr(o, v0, m)
                    elif m == "leading":
                        ok = b == a or b == self.v2repr(o, v0, m)
                    elif m == "autoformat_keep":
                        ok = True
                    else:
                        ok = is_c(b, "str") and b[2] == ""
                    if not ok:
                        errs.append("kept formatting: %s" % m)
        return errs

    def v2repr(self, o, v0, m):
        e2 = ("app", "after:KdlEntry.ensure_v2", (v0,))
        return fget(o.I, payload(self.T.get(o, "KdlEntry", "format", e2)), m)

    def loop(self, o, seq, pred):
        its = full_loops(o.trace, seq)
        if its is None:
            return ["not every element is reached"]
        errs = []
        for ev, fs in its:
            w = View(o, fs)
            nx = [e for e in ev if e[0] == "next" and e[1] == seq]
            if len(nx) != 1:
                errs.append("an element is skipped")
                continue
            el = fin = nx[0][2]
            for e in ev:
                if e[0] == "elemset" and e[1] == el:
                    fin = e[2]
            errs += pred(w, el, fin)
        return errs

    def doc(self, o, v0, v1, cfg):
        if v1[0] == "app" and v1[1] in ("after:KdlDocument.autoformat_config",):
            bad = self.cfg_is(o, v1[2][1], cfg)
            return (["children formatted with another " + b for b in bad] + ([] if v1[2][0] == v0 else ["children changed"]))
        n0 = self.T.get(o, "KdlDocument", "nodes", v0)
        if self.T.get(o, "KdlDocument", "nodes", v1) in [fget(o.I, x, self.T.fn["KdlDocument", "nodes"]) for x in self.after_docs(v0, v1)]:
            return [e for x in self.after_docs(v0, v1) for e in self.doc(o, v0, x, cfg)]
        return self.loop(o, n0, lambda w, el, fin: self.node(w, el, fin, cfg, True))

    def after_docs(self, v0, v1):
        out = []
        def go(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == "app" and x[1] == "after:KdlDocument.autoformat_config" and x[2][0] == v0:
                    if x not in out:
                        out.append(x)
                    return
                for y in x:
                    go(y)
        go(v1)
        return out

    def node(self, o, v0, v1, cfg, call=False):
        if v1[0] == "app" and v1[1] == "after:KdlNode.autoformat_config":
            bad = self.cfg_is(o, v1[2][1], cfg)
            return ["a node is formatted with another " + b for b in bad] + ([] if v1[2][0] == v0 else ["a node is changed"])
        if call:
            return ["a node is not autoformatted with the configuration"]
        g = lambda m, v: self.T.get(o, "KdlNode", m, v)
        errs = ["name " + e for e in self.ident(o, g("name", v0), g("name", v1))]
        errs += self.opt_ident(o, g("ty", v0), g("ty", v1), "ty")
        # the option may be tested once before the loop or for every entry
        def ent(w, el, fin):
            k = self.truth(w, cfg["entry_autoformate_keep"])
            if k is None:
                a = self.entry(w, el, fin, True)
                return a and ["entry handled without looking at entry_autoformate_keep"]
            return self.entry(w, el, fin, k)
        errs += ["entries: " + e for e in self.loop(o, g("entries", v0), ent)]
        c0, c1 = g("children", v0), g("children", v1)
        d = o.disc(c0)
        if d is None:
            errs.append("children block may be left as it is")
        elif d == 1 and o.disc(c1) == 1:
            p0, p1 = opt_payload(o, c0), opt_payload(o, c1)
            deeper = dict(cfg)
            lv = cfg["indent_level"]
            deeper["indent_level"] = INT(lv[2] + 1) if is_c(lv, "int") else app("Add", INT(1), lv)
            errs += ["children: " + e for e in self.doc(o, p0, p1, deeper)]
        return errs


def one(ck, P, pre):
    api = Api(P)
    F = Fmt(ck, P, api, pre)
    T = F.T
    # default configuration
    I, st = Runner(P, api).interp(), St()
    dk = [k for k in P.bodies if (k.startswith("<" + F.cfgt + "<") or k.startswith("<" + F.cfgt + " ")) and k.endswith("std::default::Default>::default")]
    if len(dk) != 1:
        raise Anchor("Default for FormatConfig")
    dk = dk[0]
    r = I.run_body(P.bodies[dk], dk, [], st, ("root", dk))
    if len(r) != 1:
        raise Anchor("FormatConfig::default has several results")
    dflt = F.cfg_of(I, I.freeze(*r[0]))

    def outs(t, m):
        k = api.method(t, m)
        rs = T.run(k)
        ck.count("paths", len(rs))
        ck.ob(rs, "%s%s::%s:does not return" % (pre, t, m), "")
        return rs, "%s%s::%s" % (pre, t, m)

    def common(o, key, t):
        errs = T.shape(o, t, o.self0, o.final) + T.elem_errs(o)
        ck.ob(not errs, "%s:%s" % (key, errs[0] if errs else ""), show(o.final)[:300])

    def report(errs, key, o):
        ck.ob(not errs, "%s:%s" % (key, errs[0] if errs else ""), show(o.final)[:300])

    rs, key = outs("KdlIdentifier", "autoformat")
    for o in rs:
        common(o, key, "KdlIdentifier")
        report(F.ident(o, o.self0, o.final), key, o)
    rs, key = outs("KdlEntry", "autoformat")
    for o in rs:
        common(o, key, "KdlEntry")
        report(F.entry(o, o.self0, o.final, None), key, o)
    for t in ("KdlNode", "KdlDocument"):
        for m in ("autoformat_config", "autoformat", "autoformat_no_comments"):
            rs, key = outs(t, m)
            for o in rs:
                common(o, key, t)
                if m == "autoformat_config":
                    cfg = F.cfg_of(o.I, sym("config")) if False else {f: ("fld", sym(argname(P, api.method(t, m))), None, f) for f in CONFIG}
                else:
                    cfg = dict(dflt)
                    if m == "autoformat_no_comments":
                        cfg["no_comments"] = TRUE
                pred = F.node if t == "KdlNode" else F.doc
                report(pred(o, o.self0, o.final, cfg), key, o)
    for I in T.R.interps:
        ck.used(I)
    ck.samples.append("obligation: for each path of KdlNode::autoformat_config, every element of entries ends as KdlEntry::autoformat of itself, "
                      "kept first exactly when config.entry_autoformate_keep")


def argname(P, path):
    f = P.fn_by_path.get(path)
    b = P.bodies[path]
    return f["argn"][1] if f and len(f["argn"]) > 1 and f["argn"][1] else "a1"
