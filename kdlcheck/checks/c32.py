"""C32: the library only looks at and changes what it is given."""
from .. import dump
from ..common import Anchor
from .c31 import INTERIOR

BAN = {
    "std::env::": "the environment", "std::fs::": "files", "std::net::": "the network", "std::process::": "processes", "std::thread::": "threads", "std::time::": "time", "std::os::": "the system",
    "std::io::stdio": "standard input or output", "std::io::_print": "standard output", "std::io::_eprint": "standard error", "std::io::stdin": "standard input", "std::io::stdout": "standard output",
    "std::io::stderr": "standard error", "std::random": "random numbers", "std::hash::RandomState": "random hash keys", "std::collections::hash_map::RandomState": "random hash keys",
    "std::sync::Mutex": "shared state", "std::sync::RwLock": "shared state", "std::sync::Once": "shared state", "std::sync::OnceLock": "shared state", "std::sync::LazyLock": "shared state",
    "std::sync::atomic": "shared state", "core::sync::atomic": "shared state", "std::sync::poison": "shared state", "std::sync::mpsc": "shared state", "std::thread::LocalKey": "thread-local state",
    "std::backtrace": "the call stack", "std::any::type_name": "", "std::panic::Location": "", "std::ptr::addr_eq": "addresses", "std::ptr::eq": "addresses", "std::ptr::hash": "addresses",
    "std::panic::set_hook": "the panic hook", "std::panic::take_hook": "the panic hook", "std::alloc::": "the allocator",
}
SKIP = {"std::any::type_name", "std::panic::Location"}
HASHES = ("std::collections::HashMap", "std::collections::HashSet", "std::collections::hash_map::", "std::collections::hash_set::", "std::collections::hash::")
ORDERLESS = {"any", "all", "count", "sum", "product", "min", "max", "len", "size_hint", "is_empty", "into_iter", "iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values",
             "contains", "contains_key", "by_ref", "clone", "drop"}
ITERS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "union", "intersection", "difference", "symmetric_difference", "extract_if"}


def run(ck):
    ck.explanation = ("Every function constant, cast and static in the MIR of the whole library (functions, closures, promoted constants; with and without features) is enumerated. None may reach the "
                      "environment, files, time, threads, random numbers or shared mutable state, turn an address into a number, or take elements out of a hash table in its own order; and the "
                      "syntax tree may hold no unsafe code.")
    ck.rule = "no unsafe block/fn/impl/extern/static mut; no call into std::{env,fs,io,net,process,thread,time,sync locks and cells}; no mutable statics; no address casts; no hash-order iteration"
    for cfg in ["all", "none"] + (["v1", "fallback", "serde"] if ck.tier == "thorough" else []):
        one(ck, dump.load(cfg))


def one(ck, P):
    for u in P.j["unsafes"]:
        ck.fail("%s:unsafe %s" % (u["fn"], u["k"]), u["span"])
    ck.ob(True, "unsafe")
    nb = 0
    for k, b in P.bodies.items():
        if not b.get("local"):
            continue
        nb += 1
        where = b.get("path") or k
        for f in fns(b["blocks"]) + fns(b.get("promoted") or []):
            ck.count("function_references")
            check_fn(ck, P, where, f)
        casts(ck, where, b["blocks"])
    if nb < 200:
        raise Anchor("only %d bodies in the library" % nb)
    ck.count("bodies", nb)
    for s, v in P.statics.items():
        if not s.startswith("crate::"):
            continue
        t = P.types[v["t"]]["s"] if isinstance(v.get("t"), int) else str(v.get("t"))
        ck.count("statics")
        ck.ob(not any(x in t for x in INTERIOR) and "LocalKey" not in t, "static %s:can change" % s, t, sample="static %s is constant" % s)


def fns(x, out=None):
    out = [] if out is None else out
    if isinstance(x, dict):
        if isinstance(x.get("fn"), str):
            out.append(x)
        for v in x.values():
            fns(v, out)
    elif isinstance(x, list):
        for v in x:
            fns(v, out)
    return out


def hashy(P, i):
    """the type, or what it refers to, is a hash table or one of its iterators (or an adapter over one)"""
    t = P.types[i]
    if t["k"] == "ref":
        return hashy(P, t["t"])
    if t["k"] == "adt":
        if t["p"].startswith(HASHES) and not t["p"].startswith(("std::collections::hash_map::Entry", "std::collections::hash_map::Occupied", "std::collections::hash_map::Vacant")):
            return True
        if t["p"].startswith(("std::iter::", "core::iter::")):
            return any(hashy(P, a) for a in t.get("a", []))
    return False


def keyed(P, i):
    """collecting into this forgets the order"""
    t = P.types[i]
    return t["k"] == "adt" and (t["p"].startswith(HASHES[:2]) or t["p"].startswith(("std::collections::BTree", "std::collections::btree")))


def check_fn(ck, P, where, f):
    names = {f["fn"], f.get("r") or f["fn"]}
    for n in names:
        m = n.lstrip("<&")
        for b, what in BAN.items():
            if m.startswith(b) and b not in SKIP:
                ck.fail("%s:uses %s" % (where, n), what)
                return
    if any("fmt::Pointer" in n or n.endswith("new_pointer") for n in names):
        ck.fail("%s:prints an address" % where, str(names))
        return
    ga = f.get("ga") or []
    m = f.get("m") or f["fn"].rsplit("::", 1)[-1]
    tr = f.get("trait") or ""
    if ga and isinstance(ga[0], int) and hashy(P, ga[0]) and tr:
        if tr.endswith(("Iterator", "iter::DoubleEndedIterator", "iter::ExactSizeIterator")):
            if m in ORDERLESS:
                return
            if m == "collect" and len(ga) > 1 and keyed(P, ga[1]):
                return
            # an adapter keeps the order for whoever consumes it
            if m in ("map", "filter", "filter_map", "copied", "cloned", "inspect"):
                return
            ck.fail("%s:depends on hash order" % where, f["fn"])
            return
        if tr.endswith(("fmt::Debug", "fmt::Display")):
            ck.fail("%s:prints a hash table" % where, f["fn"])
            return
    if tr.endswith("iter::Extend") and len(ga) > 1 and any(isinstance(a, int) and hashy(P, a) for a in ga[1:]) and not keyed(P, ga[0]):
        ck.fail("%s:depends on hash order" % where, f["fn"])
    if not tr and f["fn"].startswith("std::collections::Hash") and m in ("drain", "retain", "extract_if"):
        ck.fail("%s:depends on hash order" % where, f["fn"])


def casts(ck, where, x):
    if isinstance(x, list):
        if len(x) > 1 and x[0] == "cast":
            ck.ob("Expose" not in str(x[1]) and "WithExposed" not in str(x[1]), "%s:turns an address into a number" % where, str(x[1]))
        for v in x:
            casts(ck, where, v)
    elif isinstance(x, dict):
        for v in x.values():
            casts(ck, where, v)
