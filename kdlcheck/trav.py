"""Recursive methods on the document tree: preservation of its shape, and what they do to strings, decided from symbolic runs."""
from . import absint
from .absint import show, is_c, sym, app, mentions, subst, OPT, TRUE, FALSE, St
from .common import payload, disc, Anchor
from .meth import Runner, fget, fields, full_loops, events, Out, strpred

TYPES = ["KdlDocument", "KdlNode", "KdlEntry", "KdlIdentifier"]
MUTATORS = ["clear_format", "clear_format_recursive", "autoformat", "autoformat_config", "autoformat_no_comments", "keep_format", "ensure_v1", "ensure_v2"]
KIND = {("KdlNode", "ty"): ("opt", "KdlIdentifier"), ("KdlNode", "name"): ("one", "KdlIdentifier"), ("KdlNode", "entries"): ("seq", "KdlEntry"),
        ("KdlNode", "children"): ("opt", "KdlDocument"), ("KdlDocument", "nodes"): ("seq", "KdlNode"),
        ("KdlEntry", "ty"): ("opt", "KdlIdentifier"), ("KdlEntry", "name"): ("opt", "KdlIdentifier"), ("KdlEntry", "value"): ("same", None),
        ("KdlIdentifier", "value"): ("same", None)}
FORMAT = {"KdlNode": "KdlNodeFormat", "KdlDocument": "KdlDocumentFormat", "KdlEntry": "KdlEntryFormat"}


def norm(v):
    """strip conversions that keep the text/value"""
    while v[0] == "app" and str(v[1]).split("::")[-1] in ("into", "from", "to_string", "to_owned", "clone", "as_str", "to_str") and len(v[2]) == 1:
        v = v[2][0]
    return v


def under(v):
    """components of `after:T.m(x)` stand for those of x: the recursive methods keep the shape (each one is checked itself)"""
    if v[0] == "fld":
        b = v[1]
        while b[0] == "app" and str(b[1]).startswith("after:Kdl"):
            b = b[2][0]
        b = under(b)
        return (v[0], b, v[2], v[3]) if b != v[1] else v
    return v


class View:
    def __init__(self, o, facts=()):
        self.I, self.o = o.I, o
        self.facts = dict(o.facts)
        for k, v in facts:
            self.facts[k] = v
        self.trace = o.trace

    def disc(self, t):
        return t[2] if t[0] == "agg" else disc(self.facts, t)


def opt_payload(o, t):
    if t[0] == "agg":
        return t[4][0] if t[2] == 1 else None
    return payload(t)


class Trav:
    def __init__(self, P, api, methods=MUTATORS, always=()):
        self.P, self.api = P, api
        self.fam = {}
        for t in TYPES:
            for m in methods:
                k = api.ty(t) + "::" + m
                if k in P.bodies:
                    self.fam[k] = t + "." + m
        self.strfn = {}
        for k, f in P.fn_by_path.items():
            if k in P.bodies and self.is_strfn(P.bodies[k]):
                self.fam[k] = "str:" + k
                self.strfn["str:" + k] = k
        g = lambda t, m: api.field(t, m)[3]
        self.fn = {(t, m): g(t, m) for t, m in list(KIND) + [("KdlIdentifier", "repr")] + [(t, "format") for t in FORMAT]}
        self.R = Runner(P, api, self.fam, always=always, hooks=[strpred])
        self.memo = {}

    def is_strfn(self, b):
        if b["argc"] < 1 or not b["locals"]:
            return False
        t = lambda i: self.P.types[b["locals"][i][0]]["s"]
        return t(0) == "()" and t(1) in ("&mut std::string::String", "&mut alloc::string::String")

    def get(self, o, t, m, obj):
        return fget(o.I, obj, self.fn[t, m])

    def run(self, path, st=None, **k):
        return [o for o in self.R.run(path, st=st, **k) if self.feasible(o)]

    def feasible(self, o):
        """presence of a component (and of the format) is the same before and after a recursive method (checked for each of them)"""
        for k in list(o.facts):
            if isinstance(k, tuple) and k and k[0] == "disc" and k[1][0] == "fld":
                u = under(k[1])
                if u != k[1]:
                    d, d2 = disc(o.facts, k[1]), disc(o.facts, u)
                    if d is not None and d2 is not None and d != d2 and "ensure_v1" not in str(k[1]):
                        return False
        return True

    def disc(self, o, t):
        d = o.disc(t)
        if d is None:
            u = under(t)
            for k in o.facts:
                if isinstance(k, tuple) and k and k[0] == "disc" and under(k[1]) == u:
                    d = disc(o.facts, k[1])
                    if d is not None:
                        return d
        return d

    # ---- shape
    def shape(self, o, t, v0, v1, where=""):
        """errors: how v1 differs from v0 in structure, names, values, annotations (formatting apart)"""
        while v1[0] == "app" and v1[1].startswith("after:" + t + "."):
            v1 = v1[2][0]
        if v1 == v0:
            return []
        errs = []
        for (tt, m), (kind, sub) in KIND.items():
            if tt != t:
                continue
            a, b = self.get(o, t, m, v0), under(self.get(o, t, m, v1))
            w = (where + "." if where else "") + m
            if kind == "same":
                if a != b and norm(a) != norm(b):
                    errs.append("%s changed" % w)
            elif kind == "one":
                errs += self.shape(o, sub, a, b, w)
            elif kind == "opt":
                if a == b:
                    continue
                d0, d1 = self.disc(o, a), self.disc(o, b)
                if d0 is None or d0 != d1:
                    errs.append("%s added or dropped" % w)
                elif d0 == 1:
                    errs += self.shape(o, sub, opt_payload(o, a), opt_payload(o, b), w)
            elif kind == "seq":
                if a != b:
                    errs.append("%s replaced" % w)
        return errs

    def elem_errs(self, o):
        """elements of collections changed anywhere in the run keep their shape"""
        errs = []
        def el(x, fin, view):
            ty = self.P.types[o.I.p.peel(o.I.tyof[x])]["p"].rsplit("::", 1)[-1] if x in o.I.tyof else None
            if ty in TYPES:
                errs.extend(self.shape(view, ty, x, fin, "an element"))
        def walk(tr, view):
            for e in tr:
                if e[0] == "loop":
                    for ev, fs in e[2]:
                        walk(ev, View(o, fs))
                elif e[0] == "elemset":
                    el(e[1], e[2], view)
        walk(o.trace, View(o))
        for c, v in o.st.mem.items():
            if isinstance(c, tuple) and c[0] == "E" and v != c[1]:
                el(c[1], o.I.freeze(o.st, v), View(o))
        return errs

    # ---- strings
    def summary(self, label):
        if label not in self.memo:
            path = self.strfn[label]
            b = self.P.bodies[path]
            R = Runner(self.P, self.api, {k: v for k, v in self.fam.items() if not v.startswith("str:")})
            outs = R.run(path, selfname="S#")
            f = self.P.fn_by_path.get(path)
            names = [None] + [(f["argn"][i] if f and i < len(f["argn"]) and f["argn"][i] else "a%d" % i) for i in range(1, b["argc"])]
            self.R.interps += R.interps
            self.memo[label] = (names, outs)
        return self.memo[label]

    def expand(self, v, facts):
        """the outcomes of v = after:str:f(x, args): [(final term, facts, trace)] consistent with `facts`"""
        names, outs = self.summary(v[1][len("after:"):])
        sub = {sym("S#"): v[2][0]}
        for n, a in zip(names[1:], v[2][1:]):
            sub[sym(n)] = a
        res = []
        for o in outs:
            memo = {}
            fs = dict(facts)
            ok = True
            for k, w in o.facts.items():
                k2, w2 = reduce(o.I, subst(k, sub, memo)), subst(w, sub, memo)
                kk = k2
                if is_c(kk, "bool") and w2 != kk:
                    ok = False
                if kk in facts and isinstance(w2, tuple) and is_c(w2) and is_c(facts[kk]) and facts[kk] != w2:
                    ok = False
                fs[k2] = w2
            if ok:
                res.append((reduce(o.I, subst(o.final, sub, memo)), fs, subst(o.trace, sub, memo)))
        return res


def reduce(I, t):
    """projections of known aggregates"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(reduce(I, x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "fld" and len(t) == 4 and isinstance(t[1], tuple) and t[1] and t[1][0] == "agg" and t[2] is None:
        r = fget(I, t[1], t[3])
        if r is not None:
            return r
    return t


def empty_fact(facts, s):
    """s is known to be empty"""
    ln = app("len", s)
    return facts.get(("val", ln)) == ("c", "int", 0) or facts.get(app("Eq", ln, ("c", "int", 0))) == TRUE or s == ("c", "str", "") \
        or facts.get(app("Eq", s, ("c", "str", ""))) == TRUE


TRIMS = ("str.trim", "str.trim_start", "str.trim_end")


def blank(facts, s):
    if s[0] == "app" and s[1] == "chars":
        s = s[2][0]
    ch = app("len", app("chars", s))
    if facts.get(("val", ch)) == ("c", "int", 0):
        return True
    return empty_fact(facts, s) or any(empty_fact(facts, app(t, s)) for t in TRIMS) or (s[0] == "app" and s[1] in TRIMS and blank(facts, s[2][0]))


def parts(v):
    return v[1] if v[0] == "cat" else (v,)


def fold(I, t):
    """constant folding of string terms"""
    if not isinstance(t, tuple) or not t:
        return t
    t = reduce(I, t)
    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        t = tuple(go(x) if isinstance(x, tuple) else x for x in t)
        if t[0] == "app" and isinstance(t[1], str):
            a = t[2]
            if t[1] in TRIMS and len(a) == 1:
                if is_c(a[0], "str"):
                    x = a[0][2]
                    return ("c", "str", x.strip() if t[1] == "str.trim" else x.lstrip() if t[1] == "str.trim_start" else x.rstrip())
                if a[0][0] == "app" and a[0][1] in ("str.trim", t[1]):
                    return a[0]
                # trimming a text that is trimmed apart from constant blanks around it
                if a[0][0] == "cat":
                    ps = list(a[0][1])
                    if t[1] != "str.trim_end":
                        while ps and is_c(ps[0], "str") and not ps[0][2].strip():
                            ps.pop(0)
                    if t[1] != "str.trim_start":
                        while ps and is_c(ps[-1], "str") and not ps[-1][2].strip():
                            ps.pop()
                    if len(ps) < len(a[0][1]):
                        return go(("app", t[1], ((ps[0] if len(ps) == 1 else ("cat", tuple(ps)) if ps else ("c", "str", "")),)))
            if t[1] == "len" and len(a) == 1:
                if is_c(a[0], "str"):
                    return ("c", "int", len(a[0][2].encode()))
                if a[0][0] == "app" and a[0][1] == "chars" and is_c(a[0][2][0], "str"):
                    return ("c", "int", len(a[0][2][0][2]))
                if a[0][0] == "app" and a[0][1] == "chars":
                    return t
            if t[1] == "Eq" and len(a) == 2 and is_c(a[0]) and is_c(a[1]):
                return ("c", "bool", a[0] == a[1])
            if t[1] in ("str.starts_with", "str.ends_with") and is_c(a[0], "str"):
                p = a[1][2] if is_c(a[1], "str") else chr(a[1][2]) if is_c(a[1], "char") else None
                if p is not None:
                    return ("c", "bool", a[0][2].startswith(p) if t[1].endswith("starts_with") else a[0][2].endswith(p))
        return t
    return go(t)


def refold(I, facts):
    """facts after folding; None when they contradict"""
    out = {}
    for k, v in facts.items():
        k = fold(I, k)
        if isinstance(k, tuple) and k and k[0] in ("val", "ne") and len(k) == 2 and is_c(k[1]):
            if k[0] == "val" and is_c(v) and v != k[1]:
                return None
            if k[0] == "ne" and isinstance(v, frozenset) and k[1] in v:
                return None
        if is_c(k, "bool") and is_c(v, "bool") and k != v:
            return None
        if k in out and is_c(out[k]) and is_c(v) and out[k] != v:
            return None
        out[k] = v
    # a trimmed constant-free text: emptiness of x and of chars(x) are the same fact
    return out


def find_after(t, labels):
    """an innermost call of a string helper inside t"""
    if not isinstance(t, tuple):
        return None
    for x in t:
        r = find_after(x, labels) if isinstance(x, (tuple,)) else None
        if r is not None:
            return r
    if len(t) == 3 and t[0] == "app" and isinstance(t[1], str) and t[1].startswith("after:str:"):
        return t
    return None


def outcomes(T, o, v, facts, trace, depth=0):
    """all ways the calls of string helpers inside v can end: [(v, facts, trace)]"""
    v = fold(o.I, v)
    c = find_after(v, None)
    if c is None or depth > 6:
        f = refold(o.I, facts)
        return [] if f is None else [(v, f, trace)]
    res = []
    for t, fs, tr in T.expand(c, facts):
        m = {c: t}
        memo = {}
        v2 = subst(v, m, memo)
        fs2 = {}
        bad = False
        for k, w in fs.items():
            k2 = fold(o.I, subst(k, m, memo))
            if k2 in fs2 and is_c(fs2[k2]) and is_c(w) and fs2[k2] != w:
                bad = True
            fs2[k2] = w
        fs2 = refold(o.I, fs2)
        if bad or fs2 is None:
            continue
        res += outcomes(T, o, v2, fs2, subst(trace, m, memo) + tr, depth + 1)
    return res


def ended(trace, term):
    return any(e == ("end", term) for e in trace)


def keeps(v, s, facts, trace):
    """every line of the text s that is not blank is still in v"""
    if v == s:
        return True
    if v[0] == "app" and v[1] in TRIMS:
        return keeps(v[2][0], s, facts, trace)
    if v[0] == "cat":
        return any(keeps(x, s, facts, trace) for x in v[1])
    if v[0] == "loopacc":
        seqs = set()
        for d, fs in v[2]:
            def find(t):
                if isinstance(t, tuple):
                    if len(t) == 3 and t[0] == "elem" and isinstance(t[1], tuple) and t[1][:2] == ("app", "lines"):
                        seqs.add((t[1], t))
                    for x in t:
                        find(x)
            find(d)
            for k, w in fs:
                find(k)
        for ls, el in seqs:
            x = ls[2][0]
            if not keeps(x, s, facts, trace) or not ended(trace, ls):
                continue
            ok = True
            for d, fs in v[2]:
                fd = dict(facts)
                fd.update(dict(fs))
                if not (any(keeps(y, el, fd, trace) for y in d) or blank(fd, el)):
                    ok = False
            if ok:
                return True
    return False


def loop_seqs(v):
    """the sequences of lines a loopacc's pieces come from"""
    out = set()
    def find(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "elem" and isinstance(t[1], tuple) and t[1][:2] == ("app", "lines"):
                out.add(t[1])
            for x in t:
                find(x)
    for d, fs in v[2]:
        find(d)
    return out


def ends_line(v, facts):
    """v is empty or ends with a newline"""
    for x in reversed(parts(v)):
        if is_c(x, "str"):
            if x[2] == "":
                continue
            return x[2].endswith("\n")
        if x[0] == "loopacc":
            if not all(is_c(d[-1], "str") and d[-1][2].endswith("\n") for d, fs in x[2] if d):
                return False
            if all(d for d, fs in x[2]) and any(facts.get(app("Eq", app("len", ls[2][0]), ("c", "int", 0))) == FALSE for ls in loop_seqs(x)):
                return True
            continue
        if blank(facts, x) and x[0] == "app" and x[1] == "str.trim":
            continue
        return False
    return True
