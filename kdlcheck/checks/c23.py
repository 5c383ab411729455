"""C23: every combination of features builds, and features only add."""
from .. import dump
from ..common import Anchor

# the features each combination has
SETS = {
    "none": "", "span": "span", "serde": "serde", "default": "span serde", "v1": "v1", "v1span": "v1 span", "v1serde": "v1 serde",
    "spanserdev1": "v1 serde span", "fallback": "v1 fb", "fallspan": "v1 fb span", "fallserde": "v1 fb serde", "all": "v1 fb span serde",
}


def run(ck):
    ck.explanation = ("The library is type-checked once for every combination of its features. The public functions with their signatures, the public types with their public fields and variants, and "
                      "the trait implementations of public types are listed for each, and every smaller combination's list must be contained in every larger one's.")
    ck.rule = "for feature sets A < B: builds(A), builds(B), api(A) is contained in api(B) with equal signatures; public structs without private fields and enums are equal"
    apis = {}
    for c, fs in SETS.items():
        try:
            P = dump.load(c)
        except dump.BuildError as e:
            ck.fail("build with features [%s]" % fs, "does not type-check: %s" % str(e)[-600:])
            continue
        ck.ob(True, "build:" + c, sample="type-checks with [%s]" % fs)
        apis[c] = api(P)
        if not apis[c][0]:
            raise Anchor("no public functions with [%s]" % fs)
        ck.count("feature_sets")
        ck.count("public_functions", len(apis[c][0]))
        ck.count("public_types", len(apis[c][1]))
    for a, fa in SETS.items():
        for b, fb in SETS.items():
            if a == b or a not in apis or b not in apis or not set(fa.split()) < set(fb.split()):
                continue
            A, B = apis[a], apis[b]
            w = "with [%s] but not with [%s]" % (fa, fb)
            for p, sigs in A[0].items():
                ck.ob(sigs <= B[0].get(p, set()), "%s:changes with features" % p, "%s: %s vs %s" % (w, sorted(sigs)[:2], sorted(B[0].get(p, set()))[:2]))
            for p, t in A[1].items():
                u = B[1].get(p)
                if not ck.ob(u is not None, "%s:missing with more features" % p, w):
                    continue
                if t["closed"]:
                    ck.ob(t == u, "%s:has other public fields with more features" % p, "%s: %s vs %s" % (w, t, u))
                else:
                    ck.ob(all(x in u["f"] for x in t["f"]), "%s:loses public fields with more features" % p, w)
            for r in A[2]:
                ck.ob(r in B[2], "%s:missing with more features" % r, w)


def api(P):
    fns = {}
    for f in P.fns:
        if f["exported"] and not f.get("trait"):
            fns.setdefault(f["path"], set()).add("(%s) -> %s" % (", ".join(P.tys(i) for i in f["in"]), f["outs"]))
    types = {}
    pub = {p for p, v in P.j["autos"].items() if v["exported"]}
    for p in pub:
        a = P.adts.get(p)
        if a is None:
            continue
        fs = [(v["n"], f["n"], f.get("ts") or P.tys(f["t"])) for v in a["variants"] for f in v["f"] if a["kind"] == "enum" or f["pub"]]
        closed = a["kind"] == "enum" or all(f["pub"] for v in a["variants"] for f in v["f"])
        types[p] = {"kind": a["kind"], "closed": closed, "f": fs, "v": [v["n"] for v in a["variants"]] if a["kind"] == "enum" else []}
    priv = {p for p, v in P.j["autos"].items() if not v["exported"]}
    impls = set()
    for i in P.impls:
        if i["trait"].startswith("crate::") or any(p in i["ref"] for p in priv):
            continue
        if any(p in i["ref"] for p in pub):
            impls.add(i["ref"])
    return fns, types, impls
