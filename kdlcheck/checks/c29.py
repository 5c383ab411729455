"""C29: KdlValue's predicates, accessors and conversions are exact."""
from .. import dump
from ..common import Api, Anchor, payload, disc
from ..absint import show, sym, OPT, TRUE, FALSE, none, St, Interp
from .c14 import conv, Runs

KINDS = {"String": ("is_string", "as_string"), "Integer": ("is_integer", "as_integer"), "Float": ("is_float", "as_float"),
         "Bool": ("is_bool", "as_bool"), "Null": ("is_null", None)}
FROM = {"i128": "Integer", "f64": "Float", "bool": "Bool", "&str": "String", "std::string::String": "String"}


def run(ck):
    ck.explanation = ("Each predicate, accessor and From conversion of KdlValue is interpreted on a symbolic value; the result must depend on the variant "
                      "exactly as documented and carry the stored payload (or the argument) unchanged.")
    ck.rule = "is_X iff variant X; as_X = Some(payload) iff variant X; From keeps the argument as payload of its kind"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "none", "default"]):
        one(ck, dump.load(cfg), "" if cfg == "all" else cfg + ":")


def one(ck, P, pre):
    api = Api(P)
    R = Runs(ck, P, api)
    V = api.ty("KdlValue")
    vs = [v["n"] for v in P.adts[V]["variants"]]
    ck.ob(sorted(vs) == sorted(KINDS), pre + "KdlValue:kinds", str(vs))
    for kind, (isf, asf) in KINDS.items():
        me = vs.index(kind)
        seen = set()
        for m in (isf, asf):
            if m is None:
                continue
            # one run per kind: the variant is fixed beforehand, so every way of testing it is decided
            for i, other in enumerate(vs):
                key = "%sKdlValue::%s" % (pre, m)
                b = P.bodies[api.method("KdlValue", m)]
                I = Interp(P)
                st = St()
                x = I.param(st, "self", b["locals"][1][0])
                st.facts[("disc", x)] = i
                res = I.run_body(b, api.method("KdlValue", m), [x], st, ("root", m))
                ck.used(I)
                ck.count("paths", len(res))
                ck.ob(res, key + ":does not return", "")
                for s, v in res:
                    v = I.known(s, v)
                    v = I.deref(s, v) if v[0] == "ref" else v
                    if m == isf:
                        ck.ob(v == (TRUE if i == me else FALSE), "%s:wrong for a %s" % (key, other), show(v))
                    elif i != me:
                        ck.ob(v[0] == "agg" and v[1] == OPT and v[2] == 0, "%s:finds something in a %s" % (key, other), show(v))
                    else:
                        ck.ob(v[0] == "agg" and v[2] == 1 and I.deref(s, v[4][0]) == ("fld", x, kind, "0"), "%s:does not return the stored %s" % (key, kind), show(v))
    for src, kind in FROM.items():
        k = "<%s as std::convert::From<%s>>::from" % (V, src)
        if k not in P.bodies:
            raise Anchor(k)
        out, av = R.run(k)
        for I, s, v in out:
            v = I.freeze(s, v)
            ck.ob(v[0] == "agg" and v[3] == kind and len(v[4]) == 1 and conv(v[4][0], av[0]), "%sKdlValue::from(%s):changes the value or its kind" % (pre, src.split("::")[-1]), show(v))
    k = [k for k in P.bodies if k.startswith("<%s as std::convert::From<std::option::Option<" % V) and "@" not in k and k.endswith(">::from")]
    if len(k) != 1:
        raise Anchor("From<Option<T>> for KdlValue")
    out, av = R.run(k[0])
    got = set()
    for I, s, v in out:
        v = I.freeze(s, v)
        d = disc(s.facts, av[0])
        got.add(d)
        if d == 1:
            ck.ob(conv(v, payload(av[0])) and v != payload(av[0]), pre + "KdlValue::from(Option):present value not converted", show(v))
        else:
            ck.ob(d == 0 and v[0] == "agg" and v[3] == "Null", pre + "KdlValue::from(Option):absent value is not Null", show(v))
    ck.ob(got == {0, 1}, pre + "KdlValue::from(Option):cases", str(got))
