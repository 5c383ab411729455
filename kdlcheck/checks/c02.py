"""C02: a successful v2 parse keeps the whole text."""
import sys
from .. import dump, absint
from ..absint import S, RES, OPT, St, app, is_c, show, sym, none, some, tup, mentions, TRUE, FALSE
from ..common import Api, Anchor, payload
from ..consume import Exec, NoModel, EM, last
from . import c01
from .c01 import F, assignments, nonempty, tyspec, lit

ROOTS = [("KdlDocument", "parse_v2", "document"), ("KdlNode", "parse", "node"), ("KdlEntry", "parse", "entry"), ("KdlIdentifier", "parse", "identifier")]


def run(ck):
    sys.setrecursionlimit(20000)
    ck.explanation = ("Every parser function that returns a part of the tree is interpreted on a symbolic input position: combinators move the position by a text named by its grammar and starting point, look-ahead puts it back, ordered choice and "
                      "optional parts fork. On every path that can succeed, the text consumed must be, piece by piece, what rendering the returned component writes; components of components are replaced by the contract derived for the function "
                      "that parses them, and all contracts together form a fixed point. The public entry points are then interpreted down to winnow's recoverable_parse. The rendering functions must write a fully formatted tree's pieces with nothing between them.")
    ck.rule = "for every path to Ok(v): consumed text = render(v), terminators being matched at the end of their node; render(fully formatted v) = the stored pieces in order"
    for cfg in ["none", "all"] + (["v1span"] if ck.tier == "thorough" else []):
        one(ck, dump.load(cfg), "" if cfg == "none" else cfg + ":", cfg == "none")


def one(ck, P, pre, roots):
    X = Exec(P, Api(P))
    X.solve([])
    seen = {}
    for t, m, what in ROOTS:
        public(ck, X, t, m, what, pre, seen, roots)
    X.proved = []
    for k, msg in X.errors:
        ck.fail("%s%s:%s" % (pre, k.replace("crate::", ""), msg[:160]), "")
    for k, c in X.contracts.items():
        if not hasattr(c, "sig"):
            continue
        ck.count("parser_functions_with_contracts")
        n = getattr(c, "npaths", 1)
        for _ in range(n):
            ck.ob(True, "")
        ck.count("successful_paths", n)
        ck.samples.append("%s: %d successful path(s); the text is the rendering of the result%s" % (k, n, "; terminator looked at but left" if c.term is not None else ""))
    ck.analysed |= X.used
    strict = dict(c01.SPECS)
    ends = endings(X)
    strict["KdlNode"] = strict_node
    strict["KdlDocument"] = lambda sp, o, fs: strict_doc(sp, o, fs, ends)
    c01.check_prog(ck, P, pre + "exact ", strict)


def fails_with(P, t):
    t = P.types[t]
    return t["k"] == "adt" and t["p"].endswith("result::Result") and P.tys(t["a"][1]).endswith("KdlError")


def v2_entry(n):
    return last(n) == "recoverable_parse" and "winnow" in n


def public(ck, X, t, m, what, pre, seen, roots):
    """a public parse function returns Ok only with a tree that renders to the whole text"""
    P = X.P
    key = X.api.method(t, m)
    got = []

    def hook(I, st, c, site):
        n = c.path or ""
        if last(n) == "recoverable_parse" and "winnow" in n:
            p = I.snap(st, c.args[0])
            while p[0] == "ref":
                p = I.deref(st, p)
            if p[0] != "fn" or not p[3]:
                raise NoModel("the parser given to recoverable_parse is not a function: %s" % show(p)[:80])
            X.contract(p[3])
            got.append((p[3], I.snap(st, c.args[1])))
            v = sym("the tree")
            kd = X.kind(X.out_type(p[3]))
            if kd[0] != "tree" or kd[1] != t:
                raise NoModel("%s parses something else" % p[3])
            I.settype(v, X.api.tyid(X.api.ty(t)))
            if kd[2]:
                v = some(v)
            bad = absint.seq((("one", ("agg", EM, 2, "Cut", (sym("the error"),))),))
            s1, s2, s3 = st.copy(), st.copy(), st.copy()
            s1.ev("parsed", p[3], 1)
            s2.ev("parsed", p[3], 0)
            s3.ev("parsed", p[3], 0)
            return [(s1, tup(sym("rest"), some(v), absint.seq(()))), (s2, tup(sym("rest"), some(v), bad)), (s3, tup(sym("rest"), none(), bad))]
        if not roots and (c.key or "").startswith("crate::") and c.key in P.bodies and c.dty is not None and fails_with(P, c.dty) and not X.reaches(c.key, v2_entry):
            s1, s2 = st.copy(), st.copy()
            v, e = I.fresh("other tree") if hasattr(I, "fresh") else sym("other tree"), sym("other error")
            return [(s1, ("agg", RES, 0, "Ok", (v,))), (s2, ("agg", RES, 1, "Err", (e,)))]
        if c.key and c.key.split("@")[0] in P.bodies and c.dty is not None and P.tys(c.dty).endswith("KdlError") and "Vec" in str([P.tys(a) for a in c.atys if a is not None]):
            return [(st, app("the failure"))]
        return None

    body = P.bodies[key]
    I = absint.Interp(P, hooks=[hook], display_tokens=set())
    text = sym("text")
    st = St()
    I.settype(text, body["locals"][1][0])
    rs = I.run_body(body, key, [text], st, ("root", key))
    ck.used(I)
    oks = 0
    for s, v in rs:
        v = I.freeze(s, v)
        ev = [e for e in s.trace if e[0] == "parsed"]
        good = bool(ev) and ev[-1][2] == 1
        if v[0] == "agg" and v[1] == RES and v[2] == 0:
            if not roots and not good:
                continue          # the v1 fallback
            oks += 1
            ck.ob(good, "%s%s::%s:accepts a text with recorded errors" % (pre, t, m))
            ck.ob(not good or v[4][0] == sym("the tree"), "%s%s::%s:changes the parsed %s" % (pre, t, m, what), show(v)[:200])
        else:
            ck.ob(v[0] == "agg" and v[1] == RES, "%s%s::%s:result not understood" % (pre, t, m), show(v)[:200])
            ck.ob(not good, "%s%s::%s:rejects a text that was parsed without errors" % (pre, t, m))
    ck.ob(oks > 0, "%s%s::%s:never succeeds" % (pre, t, m))
    for k, arg in got:
        ck.ob(mentions(arg, lambda x: x == text) and not mentions(arg, lambda x: x[0] == "app" and str(x[1]).startswith("str.")), "%s%s::%s:parses something other than the text given" % (pre, t, m), show(arg)[:200])
    for k in {k for k, _ in got}:
        if k not in seen:
            seen[k] = 1
            X.solve([k])
        c = X.contracts[k]
        ck.ob(not c.pre and not c.post and c.term is None, "%s%s::%s:text around the %s is lost" % (pre, t, m, what), k)


def endings(X):
    """the strings that the text of a comment terminating a node can end with when more text follows"""
    out = set()

    def go(sk, depth=0):
        if depth > 12:
            raise NoModel("endings")
        if is_c(sk, "str"):
            return {sk[2]}
        if is_c(sk, "char"):
            return {chr(sk[2])}
        n, a = sk[1], sk[2]
        if n == "alt":
            r = set()
            for x in a:
                if not X.never(x):
                    r |= go(x, depth + 1)
            return r
        if n == "tok" and last(a[0][1]) == "eof":
            return set()
        if n == "seq":
            return go(a[-1], depth + 1)
        if n == "repeat_till":
            return go(a[2], depth + 1)
        if n == "fn":
            ps = X.segs_of(a[0][1])
            if ps is None:
                raise NoModel("endings of %s" % show(sk)[:60])
            r = set()
            for p in ps:
                x = p[-1] if p else S("")
                r |= {x[2]} if is_c(x, "str") else go(x[2][0], depth + 1)
            return r
        raise NoModel("endings of %s" % show(sk)[:60])

    for c in X.contracts.values():
        if hasattr(c, "sig") and c.term is not None:
            t = c.term[2][0] if c.term[0] == "app" and c.term[1] == "opt" else c.term
            for x in expand_alts(X, t):
                f = X.firsts(x)
                if f is None or "/" in f:
                    out |= go(x)
    return out


def expand_alts(X, sk, depth=0):
    if depth < 8 and sk[0] == "app":
        if sk[1] == "alt":
            return [y for x in sk[2] for y in expand_alts(X, x, depth + 1)]
        if sk[1] == "fn":
            ps = X.segs_of(sk[2][0][1])
            if ps and all(len(p) == 1 and (is_c(p[0], "str") or p[0][1] == "at") for p in ps):
                return [y for p in ps for y in (expand_alts(X, p[0][2][0], depth + 1) if not is_c(p[0]) else [p[0]])]
        if sk[1] == "seq" and len(sk[2]) == 1:
            return expand_alts(X, sk[2][0], depth + 1)
    return [sk]


# ------------------------------------------------------------------ exact rendering
def strict_node(sp, o, facts):
    d = sp.node(o)

    def ent(el, fs):
        ed = sp.entry(el)
        for a in assignments(fs, {"entry.format": ed["format"]}):
            ld = F(ed["format"], "leading")
            if a["entry.format"] and not known_empty(fs, ld):
                yield a, [("tok", el)]
            else:
                yield a, [("sp0",), ("tok", el)]
    for a, s in c01.spec_node(sp, o, facts):
        yield a, [("each", x[1], ent) if x[0] == "each" else x for x in s]


def strict_doc(sp, o, facts, ends):
    d = sp.doc(o)

    def nod(el, fs):
        nd = sp.node(el)
        for a in assignments(fs, {"node.format": nd["format"]}):
            f = nd["format"]
            last_one = fs.get(("last", d["nodes"]))
            if not a["node.format"]:
                yield a, [("tok", el), ("ws0",)]
            elif last_one or not unended(fs, F(f, "terminator"), F(f, "trailing"), ends):
                yield a, [("tok", el)]
            else:
                yield a, [("tok", el), ("ws0",)]
    for a, s in c01.spec_doc(sp, o, facts):
        yield a, [("each", x[1], nod) if x[0] == "each" else x for x in s]


def known_empty(fs, t):
    ln = app("len", t)
    for k, v in fs.items():
        if not (isinstance(k, tuple) and k and k[0] == "app" and is_c(v, "bool")):
            continue
        op, args, v = str(k[1]).split(".")[-1], k[2], v[2]
        if op in ("Eq", "Le") and args[0] == ln and is_c(args[1], "int") and args[1][2] == 0 and v:
            return True
        if op == "Eq" and S("") in args and t in args and v:
            return True
        if op == "Lt" and args[1] == ln and is_c(args[0], "int") and args[0][2] == 0 and not v:
            return True
    return fs.get(("val", ln)) == 0


def unended(fs, t, tr, ends):
    """the path is taken only by nodes that do not end themselves: no terminator, or a comment cut off by the end of the text"""
    if not known_empty(fs, tr) and nonempty(fs, tr):
        return False
    if known_empty(fs, t):
        return True
    no = set()
    for k, v in fs.items():
        if isinstance(k, tuple) and k and k[0] == "app" and str(k[1]).endswith("ends_with") and k[2][0] == t and v == FALSE:
            x = k[2][1]
            no.add(x[2] if is_c(x, "str") else chr(x[2]) if is_c(x, "char") else None)
    comment = any(isinstance(k, tuple) and k and k[0] == "app" and str(k[1]).endswith("starts_with") and k[2][0] == t and v == TRUE for k, v in fs.items())
    return comment and all(e in no or any(x and e.endswith(x) for x in no) for e in ends)
