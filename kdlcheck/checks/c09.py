"""C09: the parse entry points agree with each other, and v1 is only a fallback."""
from .. import dump
from ..common import Api, Anchor
from ..absint import show, sym, is_c, mentions, RES, OPT, TRUE, FALSE
from ..meth import Runner, TREE

V2 = "recoverable_parse"


def run(ck):
    ck.explanation = ("Every parse entry point is interpreted on a symbolic text, with the v2 engine (winnow's recoverable_parse on a grammar function) and the v1 crate's parser opaque. Every path's result must be the v2 result when that "
                      "succeeded, otherwise (only with v1-fallback) the converted v1 result, otherwise an error; FromStr must have exactly the paths of parse.")
    ck.rule = "parse(s) = v2(s) if Ok, else v1(s) if v1-fallback and Ok, else Err; from_str = parse; same grammar function in all configurations"
    grammar = {}
    for cfg in ["all", "none"] + (["v1", "fallback", "v1span"] if ck.tier == "thorough" else []):
        one(ck, dump.load(cfg), cfg, cfg in ("all", "fallback"), cfg != "none", grammar)
    for t, fs in grammar.items():
        ck.ob(len(fs) == 1, "%s::parse:configurations parse with different grammars" % t, str(sorted(map(show, fs))))


def find(t, pred, out):
    if isinstance(t, tuple):
        if pred(t):
            out.append(t)
            return out
        for x in t:
            find(x, pred, out)
    elif isinstance(t, frozenset):
        for x in t:
            find(x, pred, out)
    return out


def is_v2(t):
    return len(t) == 3 and t[0] == "app" and isinstance(t[1], str) and t[1].endswith("::" + V2)


def is_v1(t):
    return len(t) == 3 and t[0] == "app" and isinstance(t[1], str) and "kdl::" in t[1] and (t[1].startswith("str.parse:") or "FromStr" in t[1])


class Parse:
    def __init__(self, ck, P):
        self.ck, self.P = ck, P
        self.api = Api(P)
        self.conv = {k for k in P.bodies if "From<kdl::" in k and k.endswith(">::from")}
        doc = self.api.ty("KdlDocument")
        fam = {}
        for m in ("ensure_v1", "ensure_v2"):
            if doc + "::" + m in P.bodies:
                fam[doc + "::" + m] = m
        self.R = Runner(P, self.api, fam, no_inline=self.conv, display_tokens={doc})

    def run(self, key):
        rs = self.R.run(key, selfname="input")
        for I in self.R.interps:
            self.ck.used(I)
        self.ck.count("paths", len(rs))
        return rs

    def engine(self, o):
        """(v2 call, True/False/None: succeeded), (v1 call, 1/0/None)"""
        calls = {x for k in o.facts for x in find(k, is_v2, [])} | set(find(o.ret, is_v2, []))
        v2 = calls.pop() if len(calls) == 1 else None
        ok = None
        if v2 is not None:
            d = o.disc(("fld", v2, None, "1"))
            ln = ("app", "len", (("fld", v2, None, "2"),))
            e = o.facts.get(("app", "Eq", (ln, ("c", "int", 0))))
            val = o.facts.get(("val", ln))
            if d == 1 and (e == TRUE or val == ("c", "int", 0)):
                ok = True
            elif d == 0 or e == FALSE:
                ok = False
        c1 = {x for k in o.facts for x in find(k, is_v1, [])} | set(find(o.ret, is_v1, []))
        v1 = c1.pop() if len(c1) == 1 else None
        d1 = o.disc(v1) if v1 is not None else None
        return v2, ok, v1, (None if d1 is None else d1 == 0), len(calls) + len(c1)

    def v2_ok(self, o, v2):
        r = o.ret
        return r[0] == "agg" and r[1] == RES and r[2] == 0 and r[4][0] == ("fld", ("fld", v2, None, "1"), "Some", "0")

    def v1_val(self, v1, which):
        return ("fld", v1, "Ok" if which == 0 else "Err", "0")

    def v1_is(self, o, v1, which):
        """the converted v1 result (0: value, 1: error)"""
        r = o.ret
        if r == v1:
            return False
        if not (r[0] == "agg" and r[1] == RES and r[2] == which):
            return False
        x = r[4][0]
        return x[0] == "app" and x[1] in self.conv and x[2] == (self.v1_val(v1, which),)


def plain(call):
    """the whole text is handed over unchanged"""
    a = call[2][-1]
    while a[0] == "app" and len(a[2]) == 1 and a[1].endswith("::new"):
        a = a[2][0]
    return a == sym("input")


def one(ck, P, cfg, fallback, v1on, grammar):
    X = Parse(ck, P)
    for t in TREE:
        key = "%s:%s::parse" % (cfg, t) if cfg != "all" else "%s::parse" % t
        k = X.api.method(t, "parse")
        rs = X.run(k)
        ck.ob(rs, key + ":does not return", "")
        both = set()
        for o in rs:
            v2, ok, v1, ok1, extra = X.engine(o)
            desc = "ret=%s facts=%s" % (show(o.ret)[:200], [(show(a[1]) if a[0] == "disc" else show(a), b) for a, b in list(o.facts.items())[:4]])
            if v2 is None or ok is None or extra:
                ck.fail(key + ":result not decided by one v2 parse", desc)
                continue
            grammar.setdefault(t, set()).add(v2[2][0])
            ck.ob(plain(v2), key + ":v2 parser does not get the whole text", desc)
            if v1 is not None:
                ck.ob(plain(v1), key + ":v1 parser does not get the whole text", desc)
            err = o.ret[0] == "agg" and o.ret[1] == RES and o.ret[2] == 1
            if ok:
                ck.ob(X.v2_ok(o, v2), key + ":does not return what the v2 parser returned", desc)
            elif not fallback:
                ck.ob(err and v1 is None, key + ":v2 failure is not an error", desc)
            elif v1 is None or ok1 is None:
                ck.fail(key + ":v1 is not tried after v2 failed", desc)
            elif ok1:
                ck.ob(X.v1_is(o, v1, 0), key + ":does not return what the v1 parser returned", desc)
            else:
                from2 = err and find(o.ret, is_v2, []) and not find(o.ret, is_v1, [])
                from1 = err and X.v1_is(o, v1, 1)
                ck.ob(from2 or (t == "KdlDocument" and from1), key + ":failure of both parsers is not reported by its errors", desc)
            both.add((ok, ok1))
        want = {(True, None), (False, True), (False, False)} if fallback else {(True, None), (False, None)}
        ck.ob(want <= both, key + ":outcomes missing", str(both))
        # FromStr
        fk = X.api.trait_method(t, "std::str::FromStr", "from_str")
        fs = X.run(fk)
        sig = lambda rs: {(strip(o.ret), frozenset((strip(a), strip(b)) for a, b in o.facts.items())) for o in rs}
        ck.ob(sig(fs) == sig(rs), "%sFromStr for %s:differs from %s::parse" % ("" if cfg == "all" else cfg + ":", t, t), "%d paths vs %d" % (len(fs), len(rs)))
        if v1on:
            key1 = key + "_v1"
            for o in X.run(X.api.method(t, "parse_v1")):
                v2, ok, v1, ok1, extra = X.engine(o)
                desc = show(o.ret)[:300]
                if v1 is None or ok1 is None or v2 is not None or extra:
                    ck.fail(key1 + ":result not decided by one v1 parse", desc)
                    continue
                ck.ob(plain(v1), key1 + ":v1 parser does not get the whole text", desc)
                ck.ob(X.v1_is(o, v1, 0 if ok1 else 1), key1 + ":does not return the v1 parser's result", desc)
    pre = "" if cfg == "all" else cfg + ":"
    key = pre + "KdlDocument::parse_v2"
    for o in X.run(X.api.method("KdlDocument", "parse_v2")):
        v2, ok, v1, ok1, extra = X.engine(o)
        if v2 is None or ok is None or extra or v1 is not None:
            ck.fail(key + ":result not decided by one v2 parse", show(o.ret)[:300])
            continue
        grammar.setdefault("KdlDocument", set()).add(v2[2][0])
        ck.ob(plain(v2), key + ":v2 parser does not get the whole text", "")
        ck.ob(X.v2_ok(o, v2) if ok else o.ret[0] == "agg" and o.ret[2] == 1 and find(o.ret, is_v2, []), key + ":does not return the v2 parser's result", show(o.ret)[:300])
    if not v1on:
        return
    for m, src, ens in (("v1_to_v2", 1, "after:ensure_v2"), ("v2_to_v1", 2, "after:ensure_v1")):
        key = pre + "KdlDocument::" + m
        got = set()
        for o in X.run(X.api.method("KdlDocument", m)):
            v2, ok, v1, ok1, extra = X.engine(o)
            call, good = (v1, ok1) if src == 1 else (v2, ok)
            other = v2 if src == 1 else v1
            desc = show(o.ret)[:300]
            if call is None or good is None or other is not None or extra:
                ck.fail(key + ":does not parse the source version only", desc)
                continue
            ck.ob(plain(call), key + ":parser does not get the whole text", desc)
            r = o.ret
            got.add(good)
            if good:
                val = ("app", [c for c in X.conv if c.startswith("<" + X.api.ty("KdlDocument") + " as")][0], (X.v1_val(v1, 0),)) if src == 1 else ("fld", ("fld", v2, None, "1"), "Some", "0")
                ok2 = r[0] == "agg" and r[1] == RES and r[2] == 0 and strip_text(r[4][0]) == ("app", ens, (val,))
                ck.ob(ok2, key + ":does not return the text of the converted document", desc)
            else:
                ck.ob(X.v1_is(o, v1, 1) if src == 1 else r[0] == "agg" and r[1] == RES and r[2] == 1, key + ":parse error is not returned", desc)
        ck.ob(got == {True, False}, key + ":outcomes missing", str(got))


def strip_text(x):
    if x[0] == "cat" and len(x[1]) == 1:
        x = x[1][0]
    return x[2] if x[0] == "disp" and x[1] == "Display" else None


def strip(t):
    """drop loop and call-site identities"""
    if isinstance(t, tuple):
        if len(t) == 2 and isinstance(t[0], str) and t[0] in ("*f", "*"):
            return t[0]
        if t and t[0] == "it" and len(t) == 3:
            return "it"
        if t and t[0] == "loopacc" and len(t) == 3:
            return ("loopacc", strip(t[2]))
        return tuple(strip(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(strip(x) for x in t)
    return t
