"""C31: public types can be shared between threads, and trees hold nothing that changes behind a shared reference."""
from .. import dump
from ..common import Anchor

INTERIOR = ("std::cell::", "core::cell::", "std::sync::atomic::", "core::sync::atomic::", "std::sync::Mutex", "std::sync::RwLock", "std::sync::OnceLock", "std::sync::LazyLock", "std::sync::Once",
            "std::sync::Condvar", "std::sync::mpsc", "std::sync::poison", "std::thread::", "std::fs::", "std::net::")
SHARED = ("std::sync::Arc", "std::rc::Rc", "alloc::sync::Arc", "alloc::rc::Rc")


def run(ck):
    ck.explanation = ("The compiler's trait solver is asked, for every public type of the library in several feature combinations, whether it is Send, Sync and Unpin, and whether it is unwind safe; the "
                      "types of all fields reachable from a public type are searched for interior mutability.")
    ck.rule = "public type => Send + Sync + Unpin + RefUnwindSafe; no Cell/Mutex/atomic reachable from its fields (an Arc's own counters excepted)"
    for cfg in ["all", "none"] + (["default", "v1", "fallback", "serde"] if ck.tier == "thorough" else []):
        one(ck, dump.load(cfg))


def one(ck, P):
    autos = P.j["autos"]
    pub = {p: v for p, v in autos.items() if v["exported"]}
    for n in ("KdlDocument", "KdlNode", "KdlEntry", "KdlIdentifier", "KdlValue", "KdlError", "KdlDiagnostic"):
        if not any(p.endswith("::" + n) for p in pub):
            raise Anchor("public type " + n)
    for p, v in sorted(pub.items()):
        ck.count("types")
        for t in ("send", "sync", "unpin", "refunwind"):
            ck.ob(v[t] is True, "%s:is not %s" % (p, {"send": "Send", "sync": "Sync", "unpin": "Unpin", "refunwind": "RefUnwindSafe"}[t]), v["span"], sample="%s is Send + Sync + Unpin" % p)
        bad = []
        walk(P, p, set(), bad, p)
        ck.ob(not bad, "%s:interior mutability" % p, "; ".join(bad[:3]))


def walk(P, p, seen, bad, path):
    if p in seen:
        return
    seen.add(p)
    a = P.adts.get(p)
    if not a or not p.startswith("crate::"):
        return
    for v in a["variants"]:
        for f in v["f"]:
            if f.get("t") is not None:
                ty(P, f["t"], seen, bad, path + "." + f["n"])
            elif any(x in (f.get("ts") or "") for x in INTERIOR):
                bad.append("%s: %s" % (path + "." + f["n"], f["ts"]))


def ty(P, i, seen, bad, path):
    t = P.types[i]
    k = t["k"]
    if k == "adt":
        if t["p"].startswith(INTERIOR):
            bad.append("%s: %s" % (path, t["s"]))
            return
        for a in t.get("a", []):
            ty(P, a, seen, bad, path)
        if t["p"].startswith("crate::"):
            walk(P, t["p"], seen, bad, path)
    elif k in ("ref", "ptr", "slice", "array"):
        if isinstance(t.get("t"), int):
            ty(P, t["t"], seen, bad, path)
        if k == "ptr":
            bad.append("%s: raw pointer" % path)
    elif k == "tuple":
        for a in t.get("a", t.get("ts", [])):
            if isinstance(a, int):
                ty(P, a, seen, bad, path)
    elif any(x in t["s"] for x in INTERIOR):
        bad.append("%s: %s" % (path, t["s"]))
