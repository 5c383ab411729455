"""C10: parsing succeeds only without errors, and every error reaches the caller in full."""
from .. import dump
from ..common import Api, Anchor, payload
from ..absint import show, sym, is_c, mentions, RES, OPT, TRUE, FALSE, Interp, St, app
from ..meth import Runner, TREE, fget, fields, events, nested
from .c09 import Parse, find, is_v2

DIAG = ["input", "span", "message", "label", "help", "severity"]


def run(ck):
    ck.explanation = ("try_parse is interpreted with winnow's recoverable_parse opaque: Ok needs an empty error list, and the error built from a list has one diagnostic per recorded error. Every parser function is interpreted with sub-parsers "
                      "opaque: a path on which a sub-parser failed with a cut error either fails or records that error. The v1 error conversion and the Diagnostic/Display impls of the error types are compared field by field.")
    ck.rule = "Ok => errs = []; diagnostics = map(errs) with whole input; cut failure => Err or record_err; accessor = stored field"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "none", "v1"]):
        one(ck, dump.load(cfg), "" if cfg == "all" else cfg + ":", cfg != "none")


def one(ck, P, pre, v1on):
    X = Parse(ck, P)
    api = X.api
    entry_points(ck, X, pre)
    recovery(ck, P, api, pre)
    if v1on:
        v1_error(ck, P, api, X, pre)
    exposes(ck, P, api, pre)


def is_err(r):
    return r[0] == "agg" and r[1] == RES and r[2] == 1


def entry_points(ck, X, pre):
    KE = X.api.ty("KdlError")
    KD = X.api.ty("KdlDiagnostic")
    for t in TREE:
        key = "%s%s::parse" % (pre, t)
        for o in X.run(X.api.method(t, "parse")):
            v2, ok, v1, ok1, extra = X.engine(o)
            if v2 is None or ok is None:
                ck.fail(key + ":result not decided by the recorded errors", show(o.ret)[:200])
                continue
            if not is_err(o.ret):
                ck.ob(ok or ok1, key + ":succeeds although errors were recorded", show(o.ret)[:200])
                continue
            ck.ob(not ok, key + ":fails although the parse succeeded", show(o.ret)[:200])
            e = o.ret[4][0]
            if not find(e, is_v2, []):
                continue            # the v1 error
            if not (e[0] == "agg" and e[1] == KE):
                ck.fail(key + ":error is not built from the recorded errors", show(e)[:300])
                continue
            ck.ob(fget(o.I, e, "input") == sym("input"), key + ":error does not carry the input", show(fget(o.I, e, "input"))[:200])
            errs = ("fld", v2, None, "2")
            for m in diagnostics(o, fget(o.I, e, "diagnostics"), errs, KD):
                ck.fail(key + ":" + m, show(fget(o.I, e, "diagnostics"))[:600])
            ck.ob(True, "")


def diagnostics(o, ds, errs, KD):
    """the list must hold one diagnostic per element of errs, in order"""
    out = []
    if ds[0] == "seq" and len(ds[1]) == 1 and ds[1][0][0] == "loopacc":
        its = ds[1][0][2]
    else:
        return ["diagnostics are not one per recorded error"]
    ends = [e for e in o.trace if e == ("end", errs)]
    nx = {x[2] for e in events(o.trace) if e[0] == "next" and e[1] == errs for x in [e]}
    if len(nx) != 1 or not ends:
        return ["diagnostics are not one per recorded error"]
    el = nx.pop()
    if any(nested(it[0], errs) for e in o.trace if e[0] == "loop" for it in e[2]):
        return ["not every recorded error becomes a diagnostic"]
    for acc, facts in its:
        acc = [a for a in acc if a[0] in ("one", "many", "seq")]
        if len(acc) != 1 or acc[0][0] != "one":
            out.append("diagnostics are not one per recorded error")
            continue
        d = acc[0][1]
        if not (d[0] == "agg" and d[1] == KD):
            out.append("a diagnostic is not built from its error")
            continue
        f = lambda n: fget(o.I, d, n)
        inner = None
        for n in ("help", "label", "message", "span"):
            for x in find(f(n), lambda x: len(x) == 4 and x[0] == "fld" and x[3] == n and mentions(x, lambda y: y == el), []):
                inner = x[1]
        fs = dict(facts)
        if inner is None:
            for k in fs:
                for x in find(k, lambda x: len(x) == 4 and x[0] == "fld" and x[3] in ("help", "label", "message", "span") and mentions(x, lambda y: y == el), []):
                    inner = x[1]
        if inner is None:
            out.append("a diagnostic does not use its error")
            continue
        g = lambda n: ("fld", inner, None, n)
        dk = lambda n: fs.get(("disc", g(n)))
        if f("input") != sym("input"):
            out.append("a diagnostic does not carry the input")
        if f("help") != g("help") and not opt_same(f("help"), g("help"), dk("help")):
            out.append("the help of an error is lost")
        sp = f("span")
        if dk("span") == 1:
            if sp != payload(g("span")):
                out.append("the span of an error is lost")
        elif dk("span") != 0 and not mentions(sp, lambda y: y == g("span")):
            out.append("the span of an error is lost")
        for n in ("message", "label"):
            v = f(n)
            if dk(n) == 1:
                if not mentions(v, lambda y: y == payload(g(n)) or y == g(n)):
                    out.append("the %s of an error is lost" % n)
            elif dk(n) is None and not mentions(v, lambda y: y == g(n)):
                out.append("the %s of an error is lost" % n)
    return sorted(set(out))


def opt_same(v, t, d):
    if d == 1:
        return v[0] == "agg" and v[2] == 1 and v[4][0] == payload(t)
    return d == 0 and v[0] == "agg" and v[2] == 0


# ---------------------------------------------------------------- recovery
def recovery(ck, P, api, pre):
    n = 0
    for k in sorted(P.bodies):
        b = P.bodies[k]
        if "@" in k or not b["local"]:
            continue
        calls = parse_calls(b)
        if not calls:
            continue
        n += 1
        I, res = run_fn(ck, P, k, b)
        ck.count("paths", len(res))
        key = "%s%s" % (pre, k)
        for s, v in res:
            v = I.freeze(s, v)
            err = v[0] == "agg" and v[1] == RES and v[2] == 1
            for ev, facts, last in segments(s.trace, s.facts):
                if last and err:
                    continue
                recs = [e for e in events(s.trace) if e[0] == "call" and e[1] == "record_err"]
                for e in ev:
                    if e[0] != "parse":
                        continue
                    r = e[1]
                    d = facts.get(("disc", r), s.facts.get(("disc", r)))
                    payl = ("fld", r, "Err", "0")
                    ck.count("sub_parses")
                    if d == 0 or any(mentions(x, lambda y: y == r) for x in recs) or last and mentions(v, lambda y: y == r and d is None):
                        continue
                    if any(isinstance(f, tuple) and len(f) == 3 and f[0] == "app" and f[1].endswith("is_backtrack") and mentions(f, lambda y: y == payl) and x == TRUE for f, x in list(facts.items()) + list(s.facts.items())):
                        continue
                    ck.fail(key + ":a failed parse is neither returned nor recorded", "%s returns %s" % (show(r)[:160], show(v)[:200]))
                ck.ob(True, "")
    ck.count("parser_functions", n)
    if n < 10:
        raise Anchor("parser functions calling parse_next")


def segments(trace, facts):
    """(events, facts, is the path itself) for the path and for every loop iteration in it"""
    top = [e for e in trace if e[0] != "loop"]
    yield top, facts, True
    for e in trace:
        if e[0] == "loop":
            for ev, fs in e[2]:
                for x in segments(ev, dict(fs)):
                    yield x[0], x[1], False


def is_parse(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "app" and isinstance(t[1], str) and t[1].split("#")[0].endswith("parse_next") and "#" not in t[1]


def parse_calls(b):
    out = []
    for bl in b["blocks"]:
        t = bl["t"]
        if t[0] == "call" and isinstance(t[1].get("k"), dict) and str(t[1]["k"].get("fn", "")).endswith("::parse_next"):
            out.append(t)
    return out


def run_fn(ck, P, k, b):
    def hook(I, st, c, site):
        if c.path.endswith("::parse_next") or (c.r or "").endswith("::parse_next"):
            s = st.copy()
            a = tuple(I.snap(s, I.deref(s, x)) for x in c.args)
            v = app("parse_next", *a, ("c", "str", str(site)))
            I.settype(v, c.dty)
            s.ev("parse", v)
            if c.args[-1][0] == "ref":
                I.write(s, c.args[-1][1], c.args[-1][2], app("parse_next#out", *a))
            return [(s, v)]
        if c.path.endswith("record_err"):
            s = st.copy()
            s.ev("call", "record_err", tuple(I.snap(s, I.deref(s, x)) for x in c.args))
            v = app("record_err", ("c", "str", str(site)))
            I.settype(v, c.dty)
            return [(s, v)]
        return None
    I = Interp(P, hooks=[hook], display_tokens={k for k in P.adts if k.startswith("crate::")})
    st = St()
    av = [I.param(st, "a%d" % i, b["locals"][i + 1][0]) for i in range(b["argc"])]
    res = I.run_body(b, k, av, st, ("root", k))
    ck.used(I)
    return I, res


# ---------------------------------------------------------------- v1 errors
def v1_error(ck, P, api, X, pre):
    KE, KD = api.ty("KdlError"), api.ty("KdlDiagnostic")
    k = "<%s as std::convert::From<kdl::KdlError>>::from" % KE
    if k not in P.bodies:
        raise Anchor(k)
    key = pre + "KdlError::from(v1 error)"
    rs = Runner(P, api).run(k, selfname="v")
    for o in rs:
        g = lambda n: ("fld", sym("v"), None, n)
        f = lambda n: fget(o.I, o.ret, n)
        ck.ob(f("input") == g("input"), key + ":input is lost", show(f("input")))
        ds = f("diagnostics")
        ds = ds[4] if ds[0] == "agg" and ds[1] == "array" else [x[1] for x in ds[1]] if ds[0] == "seq" and all(x[0] == "one" for x in ds[1]) else []
        if not ck.ob(len(ds) == 1 and ds[0][0] == "agg" and ds[0][1] == KD, key + ":is not one diagnostic", show(o.ret)[:300]):
            continue
        h = lambda n: fget(o.I, ds[0], n)
        ck.ob(h("input") == g("input"), key + ":diagnostic does not carry the input", show(h("input")))
        sp = h("span")
        ck.ob(mentions(sp, lambda y: y[0] == "app" and y[1].endswith("::offset") and y[2] == (g("span"),)) and mentions(sp, lambda y: y[0] == "app" and y[1].endswith("::len") and y[2] == (g("span"),)) or sp == g("span"),
              key + ":span is lost", show(sp))
        ck.ob(mentions(h("message"), lambda y: y == g("kind")), key + ":kind of error is lost", show(h("message")))
        for n in ("label", "help"):
            d = o.disc(g(n))
            v = h(n)
            ck.ob(v == g(n) or opt_same(v, g(n), d) or d == 1 and v[0] == "agg" and v[2] == 1 and mentions(v, lambda y: y == payload(g(n))), "%s:%s is lost" % (key, n), show(v))


# ---------------------------------------------------------------- exposure
def exposes(ck, P, api, pre):
    KE, KD = api.ty("KdlError"), api.ty("KdlDiagnostic")

    def go(t, trait, m):
        k = "<%s as %s>::%s" % (t, trait, m)
        if k not in P.bodies:
            ck.fail("%s%s:%s is not implemented" % (pre, t.rsplit("::", 1)[-1], m))
            return []
        rs = Runner(P, api).run(k)
        for o in rs:
            yield o, "%s%s::%s" % (pre, t.rsplit("::", 1)[-1], m)
    g = lambda n: ("fld", sym("self"), None, n)
    for t in (KE, KD):
        for o, key in go(t, "miette::Diagnostic", "source_code"):
            ck.ob(some_of(o.ret, lambda x: x == g("input")), key + ":is not the input", show(o.ret))
    for o, key in go(KE, "miette::Diagnostic", "related"):
        ok = some_of(o.ret, lambda x: whole_iter(P, o, x, g("diagnostics")))
        ck.ob(ok, key + ":does not yield every diagnostic once", show(o.ret)[:300])
    for o, key in go(KD, "miette::Diagnostic", "severity"):
        ck.ob(some_of(o.ret, lambda x: x == g("severity")), key + ":is not the stored severity", show(o.ret))
    for o, key in go(KD, "miette::Diagnostic", "help"):
        d = o.disc(g("help"))
        ck.ob(opt_same(o.ret, g("help"), d), key + ":is not the stored help", show(o.ret))
    for o, key in go(KD, "miette::Diagnostic", "labels"):
        d = o.disc(g("label"))
        lab = find(o.ret, lambda x: len(x) == 3 and x[0] == "app" and isinstance(x[1], str) and "LabeledSpan" in x[1], [])
        ok = len(lab) == 1 and lab[0][2][-1] == g("span") and (lab[0][2][0] == g("label") or some_of(lab[0][2][0], lambda x: x == payload(g("label")) if d == 1 else is_c(x, "str")) and d in (0, 1))
        ck.ob(ok, key + ":is not the stored label at the stored span", show(o.ret))
    for o, key in go(KD, "std::fmt::Display", "fmt"):
        d = o.disc(g("message"))
        em = [e[2] for e in events(o.trace) if e[0] == "emit"]
        ck.ob(d in (0, 1) and (em == [payload(g("message"))] if d == 1 else all(is_c(x, "str") for x in em)), key + ":does not show the stored message", str([show(x) for x in em]))
    # the fields are what the caller sees
    ck.ob(sorted(fields(P, KD)) == sorted(DIAG), pre + "KdlDiagnostic:fields", str(fields(P, KD)))


def some_of(r, p):
    return r[0] == "agg" and r[1] == OPT and r[2] == 1 and p(r[4][0])


def whole_iter(P, o, x, seq):
    """an iterator over all of seq, mapped by a function that returns its argument"""
    while x[0] == "iter" and x[1] in ("map", "boxed"):
        if x[1] == "map":
            f = x[3]
            st = St()
            r = o.I.models.callf(o.I, st, f, [sym("item")], ("w", 0))
            if [v for s, v in r] != [sym("item")]:
                return False
        x = x[2]
    return x[0] == "iter" and x[1] == "seq" and x[2] == seq and x[3] == 0
