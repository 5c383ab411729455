"""Models of std functions for the abstract interpreter (transfer functions of the domain)."""
from . import cset
from .absint import (C, S, I as INT, UNIT, TRUE, FALSE, OPT, RES, app, sym, none, some, ok, err, tup, is_c, cat, cat_items,
                     seq, seq_items, mentions, fnval, St)

IDENT_TRAITS = {
    ("std::clone::Clone", "clone"), ("std::borrow::ToOwned", "to_owned"), ("std::convert::AsRef", "as_ref"),
    ("std::ops::Deref", "deref"), ("std::borrow::Borrow", "borrow"),
    ("std::iter::IntoIterator", "into_iter"),
}
IDENT_FNS = {
    "std::string::String::as_str", "std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new",
    "std::hint::must_use", "std::string::String::into_boxed_str", "core::str::<impl str>::as_bytes", "std::str::<impl str>::into_string",
    "std::string::String::as_bytes", "std::string::String::into_bytes", "std::convert::identity", "std::hint::black_box",
    "std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied", "std::option::Option::<&mut T>::cloned",
    "std::slice::<impl [T]>::into_vec", "std::slice::<impl [T]>::to_vec", "std::vec::Vec::<T, A>::as_slice",
    "std::str::<impl str>::into_boxed_bytes", "core::fmt::rt::<impl std::fmt::Arguments<'_>>::as_str__", "std::str::<impl str>::to_owned",
    "std::mem::ManuallyDrop::<T>::new", "std::vec::Vec::<T, A>::into_boxed_slice", "std::borrow::Cow::<'_, B>::into_owned",
}
MUTREF_FNS = {
    ("std::ops::DerefMut", "deref_mut"), ("std::convert::AsMut", "as_mut"), ("std::borrow::BorrowMut", "borrow_mut"),
}
PANICS = ("panic_fmt", "core::panicking::", "unwrap_failed", "expect_failed", "std::process::exit", "std::process::abort",
          "abort_immediate", "panic_display", "begin_panic", "unreachable_unchecked")

STRLIKE = ("str", "std::string::String")


def is_strty(I, ty):
    if ty is None:
        return False
    t = I.p.types[I.p.peel(ty)]
    if t["k"] == "adt" and t["p"] in ("std::boxed::Box", "std::sync::Arc", "std::borrow::Cow") and t["a"]:
        for a in t["a"]:
            if is_strty(I, a):
                return True
        return False
    return t["s"] in STRLIKE or (t["k"] == "adt" and t["p"] == "std::string::String")


def is_primty(I, ty):
    return ty is not None and I.p.types[I.p.peel(ty)]["k"] == "prim"


def elemty(I, ty):
    if ty is None:
        return None
    t = I.p.types[I.p.peel(ty)]
    while t["k"] == "adt" and t["p"] in ("std::boxed::Box", "std::sync::Arc") and t["a"]:
        t = I.p.types[I.p.peel(t["a"][0])]
    if t["k"] in ("slice", "array"):
        return t["t"]
    if t["k"] == "adt" and t["a"] and t["p"].split("::")[-1] in ("Vec", "VecDeque", "Iter", "IterMut", "IntoIter", "Box"):
        return t["a"][0]
    return None


# ------------------------------------------------------------------ length
def length(I, st, v):
    v = I.deref(st, v)
    if is_c(v, "str"):
        return INT(len(v[2].encode()))
    if v[0] == "agg" and v[1] == "array":
        return INT(len(v[4]))
    if v[0] == "seq" and all(x[0] == "one" for x in v[1]):
        return INT(len(v[1]))
    if v[0] == "bytes":
        return INT(len(v[1]))
    if v[0] == "cat":
        return app("len", v)
    return app("len", v)


def is_empty(I, st, v):
    v = I.deref(st, v)
    if v[0] == "cat" and any(is_c(x, "str") for x in v[1]):
        return FALSE
    if v[0] == "seq" and any(x[0] == "one" for x in v[1]):
        return FALSE
    return I.binop(st, "Eq", length(I, st, v), INT(0), None)


# ------------------------------------------------------------------ equality
def equal(I, st, a, b, ty, site):
    """[(state, boolean term)]"""
    a = I.deref(st, a)
    b = I.deref(st, b)
    if a[0] == "agg" and b[0] != "agg" or b[0] == "agg" and a[0] != "agg":
        m = b if a[0] == "agg" else a
        k = a if a[0] == "agg" else b
        if k[1] in I.p.adts or k[1] in (OPT, RES):
            out = []
            for s, vi in I.branch_variant(st, m, k[1]):
                if vi != k[2]:
                    out.append((s, FALSE))
                else:
                    vn = k[3] if len(I.p.adts[k[1]]["variants"]) > 1 or I.p.adts[k[1]]["kind"] == "enum" else None
                    mm = I.materialize(m, vn)
                    if mm is None:
                        mm = ("agg", k[1], k[2], k[3], tuple(("fld", m, vn, str(i)) for i in range(len(k[4]))))
                    out += equal(I, s, k, mm, ty, site)
            return out
    if a[0] == "agg" and b[0] == "agg" and a[1] == b[1]:
        t = I.p.types[I.p.peel(ty)] if ty is not None else None
        if a[2] != b[2]:
            return [(st, FALSE)]
        acc = [(st, TRUE)]
        for i, (x, y) in enumerate(zip(a[4], b[4])):
            nxt = []
            for s, v in acc:
                if v == FALSE:
                    nxt.append((s, v))
                    continue
                for s2, w in equal(I, s, x, y, None, (site, i)):
                    nxt.append((s2, I.binop(s2, "BitAnd", v, w, None)))
            acc = nxt
        return acc
    aty = ty if ty is not None else I.tyof.get(a, I.tyof.get(b))
    t = I.adt_of(aty) if aty is not None else None
    if t is not None and t["p"] in (OPT,):
        out = []
        for s, va in I.branch_variant(st, a, OPT):
            for s2, vb in I.branch_variant(s, b, OPT):
                if va != vb:
                    out.append((s2, FALSE))
                elif va == 0:
                    out.append((s2, TRUE))
                else:
                    x = I.field(I.materialize(a, "Some") or a, "Some", 0, "0")
                    y = I.field(I.materialize(b, "Some") or b, "Some", 0, "0")
                    out += equal(I, s2, x, y, None, (site, "o"))
        return out
    if t is not None and t["p"].startswith("crate::"):
        b2 = I.p.bodies.get("<%s as std::cmp::PartialEq>::eq" % t["p"])
        if b2 is not None:
            return I.call(st, fnval("<%s as std::cmp::PartialEq>::eq" % t["p"]), [a, b], (site, "eq"))
    return [(st, I.binop(st, "Eq", a, b, None))]


# ------------------------------------------------------------------ iterators
def mk_iter(I, st, v, mode, ty=None):
    et = elemty(I, ty) if ty is not None else None
    if mode == "mut":
        fv = I.freeze(st, v)
        if et is None:
            et = elemty(I, I.tyof.get(fv))
        return ("iter", "seq", fv, 0, "mut", et if et is not None else -1, v if v[0] == "ref" else UNIT)
    v = I.deref(st, v)
    if et is None:
        et = elemty(I, I.tyof.get(v))
    return ("iter", "seq", v, 0, mode, et if et is not None else -1, UNIT)


def mkelem(I, v, pos, et):
    if v[0] == "app" and v[1] == "chars":
        e = ("elem", v, pos)
        return e
    e = ("elem", v, pos)
    if et is not None and et >= 0:
        I.settype(e, et)
    return e


def as_iter(I, st, v, ty=None):
    """coerce a value used as IntoIterator into an iterator value"""
    r = v
    if v[0] == "ref":
        inner = I.deref(st, v)
        if inner[0] == "iter":
            return inner
        t = I.p.types[ty] if ty is not None else None
        if inner[0] == "agg" and inner[1] in (OPT,):
            return ("iter", "opt", inner, 0)
        return mk_iter(I, st, v, "mut", None)
    if v[0] == "iter":
        return v
    if v[0] == "agg" and v[1] == OPT:
        return ("iter", "opt", v, 0)
    if v[0] == "agg" and v[1] == "std::ops::Range" and len(v[4]) == 2:
        return ("iter", "range", v[4][0], v[4][1], v[4][0])
    t = I.adt_of(I.tyof.get(v)) if v in I.tyof else (I.adt_of(ty) if ty is not None else None)
    if t is not None and t["p"] == OPT:
        return ("iter", "opt", v, 0)
    if t is not None and t["p"] == "std::ops::Range":
        m = I.materialize(v)
        return ("iter", "range", m[4][0], m[4][1], m[4][0])
    if t is not None and t["p"].startswith("crate::"):
        return ("iter", "user", v)
    if v[0] in ("seq",) or (v[0] == "agg" and v[1] == "array"):
        return mk_iter(I, st, v, "own", ty)
    if v[0] in ("sym", "fld", "app", "elem", "ghost"):
        return mk_iter(I, st, v, "own", ty)
    return None


def nxt(I, st, it, site, back=False):
    """advance: [(state, iterator, item|None)]"""
    k = it[1]
    g = getattr(I, "gnext", None)
    if g is not None:
        r = g(st, it, site, back)
        if r is not None:
            return r
    if k == "seq":
        _, _, v, pos, mode, et, _r = it
        if v[0] == "agg" and v[1] == "array" or (v[0] == "seq" and all(x[0] == "one" for x in v[1])):
            items = v[4] if v[0] == "agg" else tuple(x[1] for x in v[1])
            if isinstance(pos, int):
                s = st.copy()
                s.conc += 1
                if mode == "mut":
                    if pos < len(items):
                        s.ev("mutelem", v, INT(pos))
                        return [(s, it[:3] + (pos + 1,) + it[4:], ("ref", ("E", ("elem", v, pos)), ()))]
                    return [(s, it, None)]
                j = len(items) - 1 - pos if back else pos
                if 0 <= j < len(items):
                    return [(s, it[:3] + (pos + 1,) + it[4:], items[j])]
                return [(s, it, None)]
            out = [(st.copy(), it, None)]
            for x in items:
                out.append((st.copy(), it, x))
            return out
        if v[0] == "seq":
            out = [(st.copy(), it, None)]
            for n, x in enumerate(v[1]):
                if x[0] == "one":
                    out.append((st.copy(), it[:3] + ("*",) + it[4:], x[1]))
                elif x[0] == "all":
                    e = mkelem(I, x[1], ("*b" if back else "*f", site), et)
                    out.append((st.copy(), it[:3] + ("*",) + it[4:], e))
                elif x[0] == "loopacc":
                    for d in x[2]:
                        for y in d[0]:
                            if y[0] == "one":
                                s = st.copy()
                                out.append((s, it[:3] + ("*",) + it[4:], y[1]))
                else:
                    e = mkelem(I, ("seq", (x,)), ("*b" if back else "*f", site), et)
                    out.append((st.copy(), it[:3] + ("*",) + it[4:], e))
            return out
        if is_c(v, "str"):
            # characters of a constant string
            if isinstance(pos, int):
                s = st.copy()
                s.conc += 1
                j = len(v[2]) - 1 - pos if back else pos
                if 0 <= j < len(v[2]):
                    return [(s, it[:3] + (pos + 1,) + it[4:], C("char", ord(v[2][j])))]
                return [(s, it, None)]
            return [(st.copy(), it, None)] + [(st.copy(), it, C("char", ord(c))) for c in v[2]]
        p = (pos if isinstance(pos, int) else "*")
        if isinstance(pos, int):
            ep = ("b", pos) if back else pos
            np = pos + 1
        else:
            ep = ("*b" if back else "*f", site)
            np = pos
        e = mkelem(I, v, ep, et)
        s1, s0 = st.copy(), st.copy()
        # emptiness is a fact about the sequence, shared between traversals
        if pos == 0:
            r1 = I.assume(s1, is_empty(I, s1, v), False)
            r0 = I.assume(s0, is_empty(I, s0, v), True)
        else:
            r1 = r0 = True
        out = []
        if r1:
            if e not in s1.csets:
                t = I.p.types[I.p.peel(et)]["s"] if et is not None and et >= 0 else None
                if t == "char" or (v[0] == "app" and v[1] == "chars"):
                    s1.csets[e] = cset.CHARS
                    src = v[2][0] if v[0] == "app" and v[1] == "chars" else v
                    if pos == 0 and src[0] == "app" and src[1] in ("str.trim", "str.trim_end" if back else "str.trim_start"):
                        s1.csets[e] = cset.diff(cset.CHARS, WS)
                elif t == "u8":
                    s1.csets[e] = cset.rng(0, 255)
            else:
                if not isinstance(pos, int):
                    s1.csets[e] = cset.CHARS if (v[0] == "app" and v[1] == "chars") else s1.csets[e]
            item = ("ref", ("E", e), ()) if mode == "mut" else e
            if mode == "mut":
                s1.mem.pop(("E", e), None)
            s1.ev("next", v, e)
            out.append((s1, it[:3] + (np,) + it[4:], item))
        if r0:
            s0.ev("end", v)
            out.append((s0, it, None))
        return out
    if k == "opt":
        _, _, v, n = it
        if n != 0:
            return [(st.copy(), it, None)]
        out = []
        for s, vi in I.branch_variant(st, v, OPT):
            s = s.copy()
            s.conc += 1
            if vi == 0:
                out.append((s, ("iter", "opt", v, 1), None))
            else:
                x = I.field(I.materialize(v, "Some") or v, "Some", 0, "0")
                out.append((s, ("iter", "opt", v, 1), x))
        return out
    if k == "once":
        s = st.copy()
        s.conc += 1
        if it[3] == 0:
            return [(s, ("iter", "once", it[2], 1), it[2])]
        return [(s, it, None)]
    if k == "range":
        a, b = I.known(st, it[2]), I.known(st, it[3])
        if is_c(a, "int") and is_c(b, "int"):
            s = st.copy()
            s.conc += 1
            if a[2] < b[2]:
                if back:
                    return [(s, ("iter", "range", a, INT(b[2] - 1)) + it[4:], INT(b[2] - 1))]
                return [(s, ("iter", "range", INT(a[2] + 1), b) + it[4:], a)]
            return [(s, it, None)]
        e = app("inrange", a if is_c(a, "int") else INT(0), b, S(str(site)))
        s1, s0 = st.copy(), st.copy()
        if len(it) > 4:
            rg = app("rng", it[4], b)
            s1.ev("next", rg, e)
            s0.ev("end", rg)
        return [(s1, ("iter", "range", app("rangepos", S(str(site))), b) + it[4:], e), (s0, it, None)]
    if k in ("chain",):
        out = []
        a, b = (it[3], it[2]) if back else (it[2], it[3])
        for s, a2, x in nxt(I, st, a, (site, 0), back):
            if x is not None:
                out.append((s, ("iter", "chain", b, a2) if back else ("iter", "chain", a2, b), x))
            else:
                for s2, b2, y in nxt(I, s, b, (site, 1), back):
                    out.append((s2, ("iter", "chain", b2, a) if back else ("iter", "chain", a, b2), y))
        return out
    if k == "rev":
        return [(s, ("iter", "rev", i), x) for s, i, x in nxt(I, st, it[2], site, not back)]
    if k == "map":
        out = []
        for s, i, x in nxt(I, st, it[2], (site, "m"), back):
            if x is None:
                out.append((s, ("iter", "map", i, it[3]), None))
            else:
                for s2, y in callf(I, s, it[3], [x], (site, "mf")):
                    out.append((s2, ("iter", "map", i, it[3]), y))
        return out
    if k == "enum":
        out = []
        for s, i, x in nxt(I, st, it[2], (site, "e"), back):
            n = it[3]
            if x is None:
                out.append((s, ("iter", "enum", i, n), None))
            else:
                idx = INT(n) if isinstance(n, int) else app("index_of", I.snap(s, x))
                out.append((s, ("iter", "enum", i, n + 1 if isinstance(n, int) else n), tup(idx, x)))
        return out
    if k == "zip":
        out = []
        for s, i, x in nxt(I, st, it[2], (site, "za"), back):
            if x is None:
                out.append((s, ("iter", "zip", i, it[3]), None))
                continue
            for s2, j, y in nxt(I, s, it[3], (site, "zb"), back):
                out.append((s2, ("iter", "zip", i, j), None if y is None else tup(x, y)))
        return out
    if k == "skip":
        n = it[3]
        if n == 0:
            return [(s, ("iter", "skip", i, 0), x) for s, i, x in nxt(I, st, it[2], site, back)]
        out = []
        for s, i, x in nxt(I, st, it[2], (site, "sk", n), back):
            if x is None:
                out.append((s, ("iter", "skip", i, 0), None))
            elif isinstance(n, int):
                out += nxt(I, s, ("iter", "skip", i, n - 1), site, back)
            else:
                out.append((s, ("iter", "skip", i, 0), x))
        return out
    if k == "take":
        n = it[3]
        if n == 0:
            return [(st.copy(), it, None)]
        return [(s, ("iter", "take", i, n - 1 if isinstance(n, int) else n), x) for s, i, x in nxt(I, st, it[2], site, back)] + (
            [] if isinstance(n, int) else [(st.copy(), it, None)])
    if k == "peek":
        if it[3][0] == "agg" and it[3][1] == "peeked":
            x = it[3][4]
            s = st.copy()
            if isinstance(it[4], tuple) and it[4][:1] == ("evs",):
                for e in it[4][1]:
                    s.ev(*e)
            return [(s, ("iter", "peek", it[2], UNIT, ("evs", ())), x[0] if x else None)]
        return [(s, ("iter", "peek", i, UNIT, ("evs", ())), x) for s, i, x in nxt(I, st, it[2], site, back)]
    if k in ("filter", "filter_map", "take_while", "skip_while", "map_while"):
        return filt(I, st, it, site, back)
    if k == "flat":
        return flat(I, st, it, site, back)
    if k == "user":
        cell = ("uit", site)
        s = st.copy()
        s.mem[cell] = it[2]
        t = I.adt_of(I.tyof.get(it[2])) if it[2] in I.tyof else None
        adt = it[2][1] if it[2][0] == "agg" else (t["p"] if t else None)
        out = []
        for s2, r in I.call(s, fnval("<%s as std::iter::Iterator>::next" % find_impl(I, adt)), [("ref", cell, ())], (site, "u")):
            for s3, vi in I.branch_variant(s2, r, OPT):
                r2 = I.deref(s3, r)
                out.append((s3, ("iter", "user", s3.mem.get(cell, it[2])),
                            None if vi == 0 else I.field(I.materialize(r2, "Some") or r2, "Some", 0, "0")))
        return out
    # unknown iterator
    e = ("elem", it, ("*b" if back else "*f", site))
    return [(st.copy(), it, e), (st.copy(), it, None)]


def find_impl(I, adt):
    for k in I.p.bodies:
        if k.endswith("as std::iter::Iterator>::next") and k.startswith("<" + adt):
            return k[1:].split(" as std::iter")[0]
    return adt


def callf(I, st, f, args, site):
    if f[0] == "ref":
        clo = I.deref(st, f)
        if clo[0] == "clo":
            return I.call_closure(st, clo, f, args, site)
        return I.call(st, clo, args, site)
    return I.call(st, f, args, site)


def filt(I, st, it, site, back):
    k = it[1]
    cell = ("it", site, k)
    s0 = st.copy()
    s0.mem[cell] = it

    def step(s):
        cur = s.mem[cell]
        inner, f = cur[2], cur[3]
        extra = cur[4] if len(cur) > 4 else None
        out = []
        if k == "take_while" and extra == 1:
            return [("exit", s, None)]
        for s1, i2, x in nxt(I, s, inner, (site, "n"), back):
            if x is None:
                s1 = s1.copy()
                s1.mem[cell] = ("iter", k, i2, f) + ((extra,) if extra is not None else ())
                out.append(("exit", s1, None))
                continue
            if k == "skip_while" and extra == 1:
                s1 = s1.copy()
                s1.mem[cell] = ("iter", k, i2, f, 1)
                out.append(("exit", s1, x))
                continue
            for s2, r in callf(I, s1, f, [x], (site, "p")):
                if k in ("filter_map", "map_while"):
                    for s3, vi in I.branch_variant(s2, r, OPT):
                        s3 = s3.copy()
                        s3.mem[cell] = ("iter", k, i2, f)
                        if vi == 1:
                            rr = I.deref(s3, r)
                            y = I.field(I.materialize(rr, "Some") or rr, "Some", 0, "0")
                            out.append(("exit", s3, y))
                        elif k == "map_while":
                            out.append(("exit", s3, None))
                        else:
                            out.append(("back", s3, None))
                    continue
                for s3, b in I.branch_bool(s2, I.deref(s2, r)):
                    s3 = s3.copy()
                    if k == "filter":
                        s3.mem[cell] = ("iter", k, i2, f)
                        out.append(("exit", s3, x) if b else ("back", s3, None))
                    elif k == "take_while":
                        s3.mem[cell] = ("iter", k, i2, f, 0 if b else 1)
                        out.append(("exit", s3, x if b else None))
                    elif k == "skip_while":
                        s3.mem[cell] = ("iter", k, i2, f, 0 if b else 1)
                        out.append(("back", s3, None) if b else ("exit", s3, x))
        return out

    out = []
    if k in ("take_while", "map_while"):
        res = [(s, x) for kind, s, x in step(s0)]
    else:
        res = I.loop(s0, ("it", site, k), step)
    for s, x in res:
        i2 = s.mem.pop(cell)
        out.append((s, i2, x))
    return out


def flat(I, st, it, site, back):
    # ('iter','flat', inner, f|UNIT, cur)
    cell = ("it", site, "flat")
    s0 = st.copy()
    s0.mem[cell] = it

    def step(s):
        _, _, inner, f, cur = s.mem[cell]
        out = []
        if cur != UNIT:
            if cur[0] != "iter":      # widened: an inner iterator may or may not be in progress
                s1 = s.copy()
                s1.mem[cell] = ("iter", "flat", inner, f, UNIT)
                out.append(("back", s1, None))
            for s1, c2, x in nxt(I, s, cur, (site, "fc"), back):
                s1 = s1.copy()
                if x is not None:
                    s1.mem[cell] = ("iter", "flat", inner, f, c2)
                    out.append(("exit", s1, x))
                else:
                    s1.mem[cell] = ("iter", "flat", inner, f, UNIT)
                    out.append(("back", s1, None))
            return out
        for s1, i2, x in nxt(I, s, inner, (site, "fi"), back):
            s1 = s1.copy()
            if x is None:
                s1.mem[cell] = ("iter", "flat", i2, f, UNIT)
                out.append(("exit", s1, None))
                continue
            rs = [(s1, x)] if f == UNIT else callf(I, s1, f, [x], (site, "ff"))
            for s2, y in rs:
                s2 = s2.copy()
                sub = as_iter(I, s2, y, I.tyof.get(y))
                if sub is not None and sub[1] == "opt" and sub[3] == 0:
                    for s3, _, z in nxt(I, s2, sub, (site, "fo"), back):
                        s3 = s3.copy()
                        s3.conc = s.conc
                        s3.mem[cell] = ("iter", "flat", i2, f, UNIT)
                        out.append(("back" if z is None else "exit", s3, z))
                    continue
                if sub is None:
                    sub = ("iter", "unk", y)
                s2.mem[cell] = ("iter", "flat", i2, f, sub)
                s2.conc += 0
                out.append(("back", s2, None))
        return out

    out = []
    for s, x in I.loop(s0, ("it", site, "flat"), step):
        out.append((s, s.mem.pop(cell), x))
    return out


def consume(I, st, it, site, body, init=UNIT):
    """run `body(s, item, acc) -> [('back', s, acc)|('exit', s, payload)]` over an iterator; at the end exit ('end', acc)"""
    cell = ("it", site, "c")
    acell = ("it", site, "a")
    s0 = st.copy()
    s0.mem[cell] = it
    s0.mem[acell] = init

    def step(s):
        out = []
        for s1, i2, x in nxt(I, s, s.mem[cell], (site, "n")):
            s1 = s1.copy()
            s1.mem[cell] = i2
            if x is None:
                out.append(("exit", s1, ("end", s1.mem[acell])))
                continue
            for kind, s2, y in body(s1, x, s1.mem[acell]):
                if kind == "back":
                    s2 = s2.copy()
                    s2.mem[acell] = y
                    out.append(("back", s2, None))
                else:
                    out.append(("exit", s2, y))
        return out

    res = []
    for s, p in I.loop(s0, ("it", site, "c"), step):
        if isinstance(p, tuple) and p and p[0] == "end":
            p = ("end", s.mem.get(acell, p[1]))
        fin = s.mem.pop(cell, None)
        s.mem.pop(acell, None)
        res.append((s, p, fin))
    return res


# ------------------------------------------------------------------ formatting
def decode_template(bs, args):
    """[literal str | (arg, spec)]"""
    out = []
    i = 0
    nxt_arg = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + ln]).decode("utf8", "replace"))
            i += ln
        elif n == 0xC0:
            out.append((nxt_arg, None))
            nxt_arg += 1
        else:
            spec = {}
            if n & 1:
                spec["flags"] = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if n & 2:
                spec["width"] = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if n & 4:
                spec["prec"] = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if n & 8:
                nxt_arg = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if n & 16:
                spec["width_arg"] = spec.pop("width", 0)
            if n & 32:
                spec["prec_arg"] = spec.pop("prec", 0)
            out.append((nxt_arg, spec))
            nxt_arg += 1
    return out


def emit(I, st, f, piece):
    if f[0] == "ref":
        if isinstance(f[1], tuple) and f[1] and f[1][0] == "fmtbuf":
            st.mem[f[1]] = cat(st.mem.get(f[1], S("")), piece)
            return
        v = I.read(st, f[1], f[2])
        isbuf = is_c(v, "str") or v[0] == "cat" or is_strty(I, I.tyof.get(v))
        if isbuf:
            I.write(st, f[1], f[2], cat(v, piece))
            return
        if v[0] == "ref":
            return emit(I, st, v, piece)
        st.ev("emit", v, piece)
        return
    st.ev("emit", f, piece)


def write_pieces(I, st, f, fmt, site):
    """write a ('fmt', pieces) value to formatter f: [state]"""
    if fmt[0] != "fmt":
        st = st.copy()
        if is_c(fmt, "str"):
            emit(I, st, f, fmt)
        else:
            emit(I, st, f, ("disp", "fmt", fmt))
        return [st]
    states = [st.copy()]
    for n, p in enumerate(fmt[1]):
        nxt_ = []
        for s in states:
            if p[0] == "lit":
                if p[1]:
                    emit(I, s, f, S(p[1]))
                nxt_.append(s)
            else:
                nxt_ += display(I, s, f, p[1], p[2], p[3], p[4], (site, n))
        states = nxt_
    return states


def display(I, st, f, trait, ty, v, spec, site):
    v0 = v
    v = I.deref(st, v)
    t = I.p.types[I.p.peel(ty)] if ty is not None else {"k": "?", "s": "?"}
    spec = dict(spec) if spec else None
    plain = not spec or not (set(spec) - {"flags"})
    if trait == "Display" and (is_strty(I, ty) or t["s"] == "char" or is_c(v, "str") or is_c(v, "char") or v[0] == "cat"):
        s = st.copy()
        if plain:
            emit(I, s, f, v if not is_c(v, "char") else S(chr(v[2])))
        else:
            w = spec.get("width_term") or INT(spec.get("width", 0))
            if is_c(w, "int") and is_c(v, "str"):
                if len(v[2]) >= w[2] and "prec" not in spec:
                    emit(I, s, f, v)
                    return [s]
                if v[2] == "" and "prec" not in spec:
                    emit(I, s, f, S(" " * w[2]))
                    return [s]
            emit(I, s, f, app("pad", w, v))
        return [s]
    if trait == "Display" and is_c(v, "int") and plain:
        s = st.copy()
        emit(I, s, f, S(str(v[2])))
        return [s]
    if v[0] == "fmt":
        return write_pieces(I, st, f, v, site)
    if trait == "Display" and t["k"] == "adt" and t["p"] in ("std::boxed::Box", "std::sync::Arc", "std::borrow::Cow") and t["a"]:
        return display(I, st, f, trait, t["a"][-1] if t["p"].endswith("Cow") else t["a"][0], v, spec, site)
    if t["k"] == "adt" and t["p"].startswith("crate::") and t["p"] not in I.display_tokens:
        key = "<%s as std::fmt::%s>::fmt" % (t["p"], trait)
        if key not in I.p.bodies:
            for k in I.p.bodies:
                if k.startswith("<" + t["p"]) and k.endswith(" as std::fmt::%s>::fmt" % trait):
                    key = k
                    break
        if key in I.p.bodies and trait == "Display":
            out = []
            for s, r in I.call(st, fnval(key), [v0 if v0[0] == "ref" and False else v, f], (site, "d")):
                out.append(s)
            return out
    s = st.copy()
    sp = tuple(sorted(spec.items())) if spec else None
    emit(I, s, f, ("disp", trait if not sp else trait + str(sp), v))
    return [s]


def to_string(I, st, v, ty, site, trait="Display"):
    """[(state, string term)] : format the value into a fresh buffer"""
    cell = ("fmtbuf", site)
    s = st.copy()
    s.mem[cell] = S("")
    out = []
    for s2 in display(I, s, ("ref", cell, ()), trait, ty, v, None, (site, "ts")):
        out.append((s2, s2.mem.pop(cell)))
    return out


def fmt_format(I, st, fmt, site):
    cell = ("fmtbuf", site)
    s = st.copy()
    s.mem[cell] = S("")
    out = []
    for s2 in write_pieces(I, s, ("ref", cell, ()), fmt, (site, "ff")):
        out.append((s2, s2.mem.pop(cell)))
    return out


# ------------------------------------------------------------------ characters
def py_ws():
    # Unicode White_Space
    return cset.of([0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]) + ()


WS = cset.norm([(9, 13), (0x20, 0x20), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
                (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])


def rg(*xs):
    return cset.norm([(ord(a), ord(b)) for a, b in xs])


CHARPRED = {
    "is_ascii_digit": rg("09"), "is_ascii_hexdigit": rg("09", "af", "AF"), "is_ascii_alphabetic": rg("az", "AZ"),
    "is_ascii_alphanumeric": rg("09", "az", "AZ"), "is_ascii_lowercase": rg("az"), "is_ascii_uppercase": rg("AZ"),
    "is_ascii_whitespace": cset.of([9, 10, 12, 13, 32]), "is_whitespace": WS, "is_ascii": cset.rng(0, 127),
    "is_control": cset.norm([(0, 0x1F), (0x7F, 0x9F)]), "is_ascii_control": cset.norm([(0, 0x1F), (0x7F, 0x7F)]),
    "is_ascii_punctuation": cset.norm([(33, 47), (58, 64), (91, 96), (123, 126)]), "is_ascii_graphic": cset.rng(33, 126),
}


def inset(I, st, v, s):
    if is_c(v):
        return C("bool", cset.contains(s, v[2]))
    return app("inset", v, s)


# ------------------------------------------------------------------ strings
def pat_term(I, st, p):
    return I.snap(st, I.deref(st, p))


def str_fold(I, st, m, v, rest, ty):
    """constant folding of str methods; None if not foldable"""
    try:
        if m == "contains" and is_c(v, "str") and rest and not is_c(rest[0]) and rest[0] in st.csets:
            return app("inset", rest[0], cset.of([ord(c) for c in v[2]]))
        if m == "contains" and is_c(v, "str") and rest and is_c(rest[0]):
            return C("bool", (chr(rest[0][2]) if rest[0][1] == "char" else rest[0][2]) in v[2])
        if m == "starts_with" and is_c(v, "str") and is_c(rest[0]):
            return C("bool", v[2].startswith(chr(rest[0][2]) if rest[0][1] == "char" else rest[0][2]))
        if m == "ends_with" and is_c(v, "str") and is_c(rest[0]):
            return C("bool", v[2].endswith(chr(rest[0][2]) if rest[0][1] == "char" else rest[0][2]))
        if m == "trim" and is_c(v, "str"):
            return S(v[2].strip())
        if m == "trim_start" and is_c(v, "str"):
            return S(v[2].lstrip())
        if m == "trim_end" and is_c(v, "str"):
            return S(v[2].rstrip())
        if m == "replace" and is_c(v, "str") and is_c(rest[0]) and is_c(rest[1], "str"):
            return S(v[2].replace(chr(rest[0][2]) if rest[0][1] == "char" else rest[0][2], rest[1][2]))
        if m == "repeat" and is_c(v, "str") and is_c(rest[0], "int") and rest[0][2] < 1000:
            return S(v[2] * rest[0][2])
        if m in ("to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase") and is_c(v, "str") and v[2].isascii():
            return S(v[2].upper() if "upper" in m else v[2].lower())
    except Exception:
        return None
    return None


# ------------------------------------------------------------------ dispatcher
def model(I, st, c, site):
    n = c.path
    r = c.r or n
    t, m = c.trait, c.m
    a = c.args
    if m is None:
        m = n.rsplit("::", 1)[-1]

    # --- divergence
    if any(p in r for p in PANICS) or any(p in n for p in PANICS):
        return []

    # --- calls through Fn traits
    if t in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
        f = a[0]
        args = list(a[1][4]) if len(a) > 1 and a[1][0] == "agg" and a[1][1] == "tuple" else list(a[1:])
        if len(a) > 1 and a[1] == UNIT:
            args = []
        return callf(I, st, f, args, site)

    # --- constructors used as functions
    if t is None and "::" in n:
        p, vn = n.rsplit("::", 1)
        ad = I.p.adts.get(p)
        if ad and ad["kind"] == "enum":
            for i, x in enumerate(ad["variants"]):
                if x["n"] == vn and len(x["f"]) == len(a):
                    return [(st, ("agg", p, i, vn, tuple(a)))]
        ad = I.p.adts.get(n)
        if ad and ad["kind"] == "struct" and len(ad["variants"][0]["f"]) == len(a) and n not in I.p.bodies:
            return [(st, ("agg", n, 0, ad["variants"][0]["n"], tuple(a)))]

    local_body = (c.key in I.p.bodies and I.p.bodies[c.key]["local"]) or (c.r in I.p.bodies and I.p.bodies[c.r]["local"])

    # --- identity
    if (t, m) in IDENT_TRAITS and not local_body:
        if m == "into_iter":
            it = as_iter(I, st, a[0], c.atys[0])
            if it is not None:
                if it[1] == "user":
                    return [(st, it[2])]
                return [(st, it)]
            return None
        if m == "clone":
            v = I.deref(st, a[0]) if a[0][0] == "ref" else a[0]
            ty = c.atys[0]
            d = I.adt_of(ty) if ty is not None else None
            if d is not None and d["p"].startswith("crate::"):
                key = "<%s as std::clone::Clone>::clone" % d["p"]
                im = [x for x in I.p.impls if x.get("self") and x["trait"] == "std::clone::Clone" and x["ref"].find(d["p"]) >= 0]
                if key in I.p.bodies and im and not im[0].get("derived"):
                    return None
            I.settype(v, c.dty)
            return [(st, v)]
        v = a[0]
        if v[0] == "ref":
            v = I.deref(st, v)
        I.settype(v, c.dty)
        return [(st, v)]
    if (t, m) in (("std::borrow::ToOwned", "clone_into"), ("std::clone::Clone", "clone_from")) and not local_body:
        to, frm = (a[1], a[0]) if m == "clone_into" else (a[0], a[1])
        if to[0] == "ref" and (t != "std::clone::Clone" or not (I.adt_of(c.atys[0]) or {"p": ""})["p"].startswith("crate::")):
            s = st.copy()
            I.write(s, to[1], to[2], I.snap(s, frm) if frm[0] == "ref" else frm)
            return [(s, UNIT)]
    if t == "std::clone::Clone" and m == "clone" and local_body:
        b = I.p.bodies.get(c.key) or I.p.bodies.get(c.r)
        sp = I.p.types[I.p.peel(c.atys[0])] if c.atys[0] is not None else None
        for im in I.p.impls:
            if im["trait"] == "std::clone::Clone" and im.get("derived") and sp and sp["k"] == "adt" and im["self"] == sp["s"]:
                return [(st, I.deref(st, a[0]))]
        return None
    if r in IDENT_FNS or n in IDENT_FNS:
        v = a[0]
        if v[0] == "ref" and m not in ("new", "must_use", "identity", "black_box"):
            v = I.deref(st, v)
        return [(st, v)]
    if (t, m) in MUTREF_FNS and not local_body:
        return [(st, a[0])]
    if t == "std::ops::Index" and not local_body or (t == "std::ops::IndexMut" and not local_body):
        return index_model(I, st, c, site)
    if n in ("std::mem::take",):
        old = I.deref(st, a[0])
        s = st.copy()
        d = default_of(I, c.dty)
        if d is None:
            return None
        I.write(s, a[0][1], a[0][2], d) if a[0][0] == "ref" else None
        return [(s, old)]
    if n in ("std::mem::replace",):
        s = st.copy()
        old = I.deref(s, a[0])
        if a[0][0] == "ref":
            I.write(s, a[0][1], a[0][2], a[1])
        return [(s, old)]
    if n in ("std::mem::swap",):
        s = st.copy()
        if a[0][0] == "ref" and a[1][0] == "ref":
            x, y = I.deref(s, a[0]), I.deref(s, a[1])
            I.write(s, a[0][1], a[0][2], y)
            I.write(s, a[1][1], a[1][2], x)
        return [(s, UNIT)]
    if n in ("std::mem::drop", "std::mem::forget"):
        return [(st, UNIT)]
    if n == "std::mem::discriminant":
        v = I.deref(st, a[0])
        if v[0] == "agg":
            return [(st, INT(v[2]))]
        return [(st, app("discriminant", v))]
    if t == "std::default::Default" and not local_body:
        d = default_of(I, c.dty)
        if d is not None:
            return [(st, d)]
        return None

    # --- conversions
    if t in ("std::convert::Into", "std::convert::From") and not local_body and m in ("into", "from"):
        src = c.atys[0]
        v = a[0]
        if is_strty(I, c.dty) and (is_strty(I, src) or src is None):
            return [(st, I.deref(st, v))]
        if is_strty(I, c.dty) and src is not None and I.p.types[I.p.peel(src)]["s"] == "char":
            return [(st, cat(I.deref(st, v)))]
        if src is not None and c.dty is not None:
            ss, ds = I.p.types[src]["s"], I.p.types[c.dty]["s"]
            if ss == ds:
                return [(st, v)]
            st_, dt_ = I.p.types[src], I.p.types[c.dty]
            if st_["k"] == "prim" and dt_["k"] == "prim":
                return [(st, v if v in st.csets or is_c(v) else app("widen", I.deref(st, v)))]
            d = I.adt_of(c.dty)
            if d is not None and d["p"] == OPT and dt_["a"] and I.p.types[dt_["a"][0]]["s"] == ss:
                return [(st, some(v))]
            # resolve U: From<T> in the crate
            if t == "std::convert::Into":
                cand = from_impl(I, src, c.dty)
                if cand:
                    return I.call(st, fnval(cand), [v], (site, "from"))
        return None
    if t == "std::convert::TryFrom" and not local_body:
        return [(st, app("try_from:%s->%s" % (I.p.tys(c.atys[0]), I.p.tys(c.dty)), I.deref(st, a[0])))]
    if t == "std::convert::TryInto" and not local_body:
        return [(st, app("try_from:%s->%s" % (I.p.tys(c.atys[0]), I.p.tys(c.dty)), I.deref(st, a[0])))]

    # --- Option::iter / iter_mut: the payload, once
    if n.startswith("std::option::Option::<") and m in ("iter", "iter_mut"):
        k2 = c.key.replace("::%s@" % m, "::%s@" % ("as_mut" if m == "iter_mut" else "as_ref"))
        if k2 != c.key and k2 in I.p.bodies:
            return [(s, ("iter", "opt", v, 0)) for s, v in I.call(st, fnval(k2), [a[0]], (site, "as"))]
    # --- Option::as_deref and friends
    if n.startswith("std::option::Option::<") and m in ("as_deref", "as_deref_mut", "cloned", "copied"):
        v = a[0]
        if m != "as_deref_mut":
            v = I.deref(st, v) if v[0] == "ref" else v
            # payload references
            if v[0] == "agg" and v[2] == 1 and v[4] and v[4][0][0] == "ref":
                v = some(I.deref(st, v[4][0]))
            I.settype(v, c.dty)
            return [(st, v)]

    # --- comparison
    if t == "std::cmp::PartialEq" and m in ("eq", "ne") and not local_body:
        if c.key in I.no_inline:
            return None
        ty = c.atys[0]
        out = []
        for s, v in equal(I, st, a[0], a[1], ty, site):
            out.append((s, v if m == "eq" else I.unot(v)))
        return out
    if t in ("std::cmp::PartialOrd", "std::cmp::Ord") and not local_body and m in ("lt", "le", "gt", "ge"):
        op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m]
        return [(st, I.binop(st, op, I.deref(st, a[0]), I.deref(st, a[1]), None))]
    if t in ("std::cmp::PartialOrd", "std::cmp::Ord") and not local_body and m in ("partial_cmp", "cmp", "max", "min"):
        return [(st, I.settype(app(m, I.snap(st, I.deref(st, a[0])), I.snap(st, I.deref(st, a[1]))), c.dty))]

    # --- formatting
    if "fmt" in n or "ToString" in (t or "") or "ToString" in n:
        x = fmt_model(I, st, c, site, n, r, t, m, a, local_body)
        if x is not None:
            return x

    # --- iterators
    if t in ("std::iter::Iterator", "std::iter::DoubleEndedIterator", "std::iter::ExactSizeIterator", "std::iter::FusedIterator") and not local_body \
            or n in ("std::iter::once", "std::iter::empty", "std::iter::zip", "std::iter::repeat", "std::iter::from_fn", "std::iter::successors") \
            or n.startswith("std::iter::Peekable"):
        return iter_model(I, st, c, site, n, m, a)

    if t == "std::iter::Extend" and not local_body:
        return extend_model(I, st, c, site, a)
    if t == "std::iter::FromIterator" and not local_body:
        it = as_iter(I, st, a[0], c.atys[0])
        if it is None:
            return None
        return collect(I, st, it, c.dty, site)

    # --- strings
    if r.startswith("std::string::String::") or r.startswith("core::str::<impl str>::") or r.startswith("std::str::<impl str>::") \
            or n.startswith("std::string::String::") or n.startswith("std::string::<impl"):
        x = str_model(I, st, c, site, m, a)
        if x is not None:
            return x
    if t in ("std::ops::Add", "std::ops::AddAssign") and not local_body and is_strty(I, c.atys[0]):
        if t == "std::ops::Add":
            return [(st, cat(I.deref(st, a[0]), I.deref(st, a[1])))]
        s = st.copy()
        I.write(s, a[0][1], a[0][2], cat(I.deref(s, a[0]), I.deref(s, a[1])))
        return [(s, UNIT)]

    # --- chars / ints
    if m in CHARPRED and ("char" in r or "impl u8" in r):
        v = I.deref(st, a[0])
        return [(st, inset(I, st, v, CHARPRED[m]))]
    if r.startswith("std::char::methods::<impl char>::") or r.startswith("core::num::<impl") or r.startswith("std::f64") or r.startswith("core::f64") \
            or r.startswith("std::char::"):
        if m == "is_digit" and is_c(a[1], "int") and a[1][2] <= 10:
            return [(st, inset(I, st, I.deref(st, a[0]), cset.norm([(48, 47 + a[1][2])])))]
        if m == "is_digit" and is_c(a[1], "int") and a[1][2] == 16:
            return [(st, inset(I, st, I.deref(st, a[0]), CHARPRED["is_ascii_hexdigit"]))]
        if m == "from_u32" and is_c(a[0]):
            x = a[0][2]
            return [(st, some(C("char", x)) if cset.contains(cset.CHARS, x) else none())]
        if m == "len_utf8" and is_c(I.deref(st, a[0])):
            return [(st, INT(len(chr(I.deref(st, a[0])[2]).encode())))]
        if m in ("saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub") and is_c(a[0], "int") and is_c(a[1], "int"):
            x = a[0][2] - a[1][2] if "sub" in m else a[0][2] + a[1][2]
            return [(st, INT(max(0, x) if "saturating" in m else x))]
        nm = r.rsplit("<impl ", 1)[-1].replace(">", "") if "<impl " in r else r
        v = app(nm, *[I.snap(st, I.deref(st, x)) for x in a])
        I.settype(v, c.dty)
        return [(st, v)]

    # --- vectors / slices
    if r.startswith("std::vec::Vec::<") or r.startswith("core::slice::<impl [T]>::") or r.startswith("std::slice::<impl [T]>::") \
            or r.startswith("core::array::<impl [T; N]>") or r.startswith("std::collections::VecDeque"):
        x = vec_model(I, st, c, site, m, a)
        if x is not None:
            return x
    if n in ("std::boxed::Box::<T>::new_uninit",):
        s = st.copy()
        cell = ("BX", site)
        s.mem[cell] = sym("uninit")
        return [(s, ("ref", cell, ()))]
    if n in ("std::box_assume_init_into_vec_unsafe", "std::boxed::box_assume_init_into_vec_unsafe"):
        return [(st, I.snap(st, I.deref(st, a[0])))]
    if n in ("std::intrinsics::assert_inhabited",):
        return [(st, UNIT)]
    return None


def from_impl(I, src, dst):
    ss, ds = I.p.types[src]["s"], I.p.types[dst]["s"]
    for f in I.p.bodies:
        if f.endswith("::from") and "std::convert::From<" in f and f.startswith("<"):
            head, tail = f[1:].split(" as std::convert::From<", 1)
            tail = tail.rsplit(">>::from", 1)[0]
            if norm_ty(head) == norm_ty(ds) and norm_ty(tail) == norm_ty(ss):
                return f
    return None


def norm_ty(s):
    import re
    s = re.sub(r"&'\w+ ", "&", s)
    s = re.sub(r"<'\w+>", "", s)
    s = re.sub(r"'\w+, ", "", s)
    return s


def default_of(I, ty, depth=0):
    if ty is None:
        return None
    t = I.p.types[ty]
    s = t["s"]
    if is_strty(I, ty):
        return S("")
    if t["k"] == "prim":
        if s == "bool":
            return FALSE
        if s == "char":
            return C("char", 0)
        if s in ("f64", "f32"):
            return C("float", "0.0")
        return INT(0)
    if t["k"] == "tuple":
        if not t["e"]:
            return UNIT
        xs = [default_of(I, e) for e in t["e"]]
        return None if any(x is None for x in xs) else tup(*xs)
    if t["k"] == "adt":
        if t["p"] == OPT:
            return none()
        if t["p"].endswith("::Vec") or t["p"].endswith("VecDeque"):
            return seq(())
        if t["p"] in ("std::sync::Arc", "std::boxed::Box") and t["a"]:
            return default_of(I, t["a"][0])
        if t["p"].startswith("crate::"):
            b = I.p.bodies.get("<%s as std::default::Default>::default" % t["p"])
            if b is not None:
                r = I.run_body(b, b["path"], [], St(), ("default", t["p"]))
                if len(r) == 1:
                    return I.freeze(r[0][0], r[0][1])
        return app("default:" + s)
    if t["k"] == "ref":
        return default_of(I, t["t"])
    if t["k"] == "slice":
        return seq(())
    return None


def slice_term(v, lo, hi):
    """the part of v from lo to hi (None: its end); slices of slices are cut from the whole"""
    if v[0] == "app" and v[1] in ("slice:RangeTo", "slice:RangeFrom", "slice:Range"):
        k, a = v[1][6:], v[2]
        b0 = a[1] if k != "RangeTo" else None
        b1 = a[-1] if k != "RangeFrom" else None
        if b0 is None:
            if b1 is None or hi is not None or lo is not None:
                return slice_term(a[0], lo, hi if hi is not None else b1)
        elif is_c(b0, "int") and all(x is None or is_c(x, "int") for x in (lo, hi)):
            return slice_term(a[0], INT(b0[2] + (lo[2] if lo else 0)), INT(b0[2] + hi[2]) if hi else b1)
        elif lo is None and hi is not None:
            return slice_term(a[0], b0, add(b0, hi))
        elif lo is not None:
            return slice_term(a[0], add(b0, lo), add(b0, hi) if hi is not None else b1)
    if lo is not None and is_c(lo, "int") and lo[2] == 0 and hi is not None:
        lo = None
    if lo is None and hi is None:
        return v
    if lo is None:
        return app("slice:RangeTo", v, hi)
    if hi is None:
        return app("slice:RangeFrom", v, lo)
    return app("slice:Range", v, lo, hi)


def add(a, b):
    if is_c(a, "int") and is_c(b, "int"):
        return INT(a[2] + b[2])
    if is_c(b, "int") and b[2] == 0:
        return a
    return app("Add", *sorted((a, b), key=repr))


def index_model(I, st, c, site):
    base, ix = c.args
    mut = c.trait.endswith("IndexMut")
    ix = I.deref(st, ix)
    v = I.deref(st, base)
    if ix[0] == "agg" and "Range" in ix[1]:
        nm = ix[1].split("::")[-1]
        if nm == "RangeFull":
            return [(st, base if mut else v)]
        if nm == "RangeTo" and is_c(ix[4][0], "int") and ix[4][0][2] == 0:
            return [(st, S(""))]
        if nm in ("RangeTo", "RangeFrom", "Range"):
            lo = ix[4][0] if nm != "RangeTo" else None
            hi = ix[4][-1] if nm != "RangeFrom" else None
            return [(st, I.settype(slice_term(v, lo, hi), c.dty))]
        return [(st, I.settype(app("slice:" + nm, v, *ix[4]), c.dty))]
    if mut:
        e = ("elem", I.freeze(st, v), ix if not is_c(ix, "int") else ix[2])
        I.settype(e, I.p.peel(c.dty) if c.dty is not None else None)
        return [(st, ("ref", ("E", e), ()))]
    if v[0] == "agg" and v[1] == "array" and is_c(ix, "int"):
        return [(st, v[4][ix[2]])] if ix[2] < len(v[4]) else []
    if v[0] == "seq" and all(x[0] == "one" for x in v[1]) and is_c(ix, "int"):
        return [(st, v[1][ix[2]][1])] if ix[2] < len(v[1]) else []
    e = ("elem", v, ix if not is_c(ix, "int") else ix[2])
    I.settype(e, I.p.peel(c.dty) if c.dty is not None else None)
    return [(st, e)]


def fmt_model(I, st, c, site, n, r, t, m, a, local_body):
    if n.startswith("core::fmt::rt::Argument") or "fmt::rt::Argument" in n:
        if m.startswith("new_"):
            tr = {"new_display": "Display", "new_debug": "Debug"}.get(m, m[4:])
            ty = None
            for g in c.ga:
                if isinstance(g, int):
                    ty = g
            return [(st, ("fmtarg", tr, ty, a[0]))]
        if m == "from_usize":
            return [(st, ("fmtarg", "usize", None, I.deref(st, a[0])))]
    if n.startswith("std::fmt::Arguments") or r.startswith("std::fmt::Arguments"):
        if m in ("from_str", "from_str_nonconst"):
            v = I.deref(st, a[0])
            return [(st, ("fmt", (("lit", v[2]),) if is_c(v, "str") else (("arg", "Display", None, v, None),)))]
        if m == "new":
            tpl = I.deref(st, a[0])
            if is_c(tpl, "str"):
                bs = list(tpl[2].encode("latin1")) if all(ord(x) < 256 for x in tpl[2]) else list(tpl[2].encode())
            elif tpl[0] == "agg":
                bs = [x[2] for x in tpl[4]]
            else:
                return [(st, ("fmt", (("lit", "?"),)))]
            args = I.deref(st, a[1])
            al = args[4] if args[0] == "agg" else ()
            out = []
            for p in decode_template(bs, al):
                if isinstance(p, str):
                    out.append(("lit", p))
                else:
                    i, spec = p
                    x = I.deref(st, al[i]) if i < len(al) else ("fmtarg", "Display", None, sym("?"))
                    if spec:
                        spec = dict(spec)
                        if "width_arg" in spec:
                            w = I.deref(st, al[spec.pop("width_arg")])
                            spec["width_term"] = I.known(st, w[3]) if w[0] == "fmtarg" else w
                        if "prec_arg" in spec:
                            w = I.deref(st, al[spec.pop("prec_arg")])
                            spec["prec"] = I.known(st, w[3]) if w[0] == "fmtarg" else w
                    out.append(("arg", x[1], x[2], x[3], tuple(sorted(spec.items())) if spec else None))
            return [(st, ("fmt", tuple(out)))]
    if n == "std::fmt::format" or r == "std::fmt::format":
        return fmt_format(I, st, a[0], site)
    if m == "write_fmt" and not local_body:
        return [(s, ok(UNIT)) for s in write_pieces(I, st, a[0], I.deref(st, a[1]), site)]
    if m in ("write_str", "pad") and not local_body:
        s = st.copy()
        emit(I, s, a[0], I.deref(s, a[1]))
        return [(s, ok(UNIT))]
    if m == "write_char" and not local_body:
        s = st.copy()
        emit(I, s, a[0], cat(I.deref(s, a[1])) if is_c(I.deref(s, a[1])) else I.deref(s, a[1]))
        return [(s, ok(UNIT))]
    if m == "to_string" and (t == "std::string::ToString" or "ToString" in n):
        ty = c.atys[0]
        if ty is None and c.ga and isinstance(c.ga[0], int):
            ty = c.ga[0]
        return to_string(I, st, a[0], ty, site)
    if t in ("std::fmt::Display",) and m == "fmt" and not local_body:
        return [(s, ok(UNIT)) for s in display(I, st, a[1], "Display", c.atys[0], a[0], None, site)]
    if t == "std::fmt::Debug" and m == "fmt":
        s = st.copy()
        emit(I, s, a[1], ("disp", "Debug", I.snap(s, I.deref(s, a[0]))))
        return [(s, ok(UNIT))]
    if t in ("std::fmt::LowerHex", "std::fmt::UpperHex", "std::fmt::Binary", "std::fmt::Octal", "std::fmt::LowerExp", "std::fmt::UpperExp") and m == "fmt":
        s = st.copy()
        emit(I, s, a[1], ("disp", t.split("::")[-1], I.deref(s, a[0])))
        return [(s, ok(UNIT))]
    return None


def collect(I, st, it, dty, site):
    t = I.adt_of(dty) if dty is not None else None
    p = t["p"] if t else ""
    if p == "std::string::String" or is_strty(I, dty):
        def body(s, x, acc):
            return [("back", s, cat(acc, I.deref(s, x)))]
        return [(s, pl[1]) for s, pl, _ in consume(I, st, it, site, body, S(""))]
    if p.endswith("::Vec") or p.endswith("VecDeque") or (p == "std::boxed::Box"):
        # an unfiltered traversal of one sequence collects to that sequence
        if it[1] == "seq" and it[3] == 0 and it[4] != "mut":
            return [(st, it[2])]

        def body(s, x, acc):
            return [("back", s, seq(seq_items(acc) + (("one", I.snap(s, x)),)))]
        return [(s, I.settype(pl[1], dty)) for s, pl, _ in consume(I, st, it, site, body, seq(()))]
    if p in (RES, OPT) and t["a"]:
        good = 0 if p == RES else 1

        def body(s, x, acc):
            out = []
            x = I.deref(s, x)
            for s2, vi in I.branch_variant(s, x, p):
                if vi == good:
                    y = I.field(I.materialize(x, "Ok" if p == RES else "Some") or x, "Ok" if p == RES else "Some", 0, "0")
                    if is_strty(I, t["a"][0]):
                        out.append(("back", s2, cat(acc, y)))
                    else:
                        out.append(("back", s2, seq(seq_items(acc) + (("one", I.snap(s2, y)),))))
                else:
                    if p == RES:
                        e = I.field(I.materialize(x, "Err") or x, "Err", 0, "0")
                        out.append(("exit", s2, err(e)))
                    else:
                        out.append(("exit", s2, none()))
            return out
        res = []
        init = S("") if is_strty(I, t["a"][0]) else seq(())
        for s, pl, _ in consume(I, st, it, site, body, init):
            if pl[0] == "end":
                res.append((s, ok(pl[1]) if p == RES else some(pl[1])))
            else:
                res.append((s, pl))
        return res
    # other collections: opaque but effects of producing the items are kept

    def body(s, x, acc):
        return [("back", s, seq(seq_items(acc) + (("one", I.snap(s, x)),)))]
    return [(s, I.settype(app("collect:" + p, pl[1]), dty)) for s, pl, _ in consume(I, st, it, site, body, seq(()))]


def put_back(I, s, ref, it):
    if ref[0] == "ref":
        I.write(s, ref[1], ref[2], it)


def iter_model(I, st, c, site, n, m, a):
    if n == "std::iter::once":
        return [(st, ("iter", "once", a[0], 0))]
    if n == "std::iter::empty":
        return [(st, ("iter", "seq", seq(()), 0, "own", -1, UNIT))]
    if n == "std::iter::repeat" or n == "std::iter::from_fn" or n == "std::iter::successors":
        return [(st, ("iter", "unk", app(n, *[I.snap(st, x) for x in a])))]
    recv = a[0] if a else UNIT
    cur = I.deref(st, recv)
    it = cur if cur[0] == "iter" else None
    if it is None:
        it = as_iter(I, st, cur, c.atys[0])
        if it is None or it[1] == "seq" and cur[0] in ("sym", "fld", "app", "elem"):
            # an unknown iterator value: treat as a sequence of unknown items
            it = ("iter", "seq", cur, 0, "own", -1, UNIT)
            et = None
            if m == "next" and c.dty is not None:
                t = I.adt_of(c.dty)
                if t is not None and t["a"]:
                    et = t["a"][0]
            if et is None and cur in I.tyof:
                et = elemty(I, I.tyof[cur])
            if et is not None:
                it = ("iter", "seq", cur, 0, "own", et, UNIT)
    if m in ("next", "next_back"):
        out = []
        for s, i2, x in nxt(I, st, it, site, m == "next_back"):
            s = s.copy()
            if it[1] == "user":
                put_back(I, s, recv, i2[2])
            else:
                put_back(I, s, recv, i2)
            out.append((s, none() if x is None else some(x)))
        return out
    if m in ("iter", "into_iter", "by_ref"):
        return [(st, recv if m == "by_ref" else it)]
    if m in ("map", "filter", "filter_map", "map_while"):
        return [(st, ("iter", m, it, a[1]))]
    if m in ("take_while", "skip_while"):
        return [(st, ("iter", m, it, a[1], 0))]
    if m == "inspect":
        return [(st, it)]
    if m == "enumerate":
        return [(st, ("iter", "enum", it, 0))]
    if m == "rev":
        return [(st, ("iter", "rev", it))]
    if m in ("cloned", "copied", "fuse"):
        return [(st, it)]
    if m == "peekable":
        return [(st, ("iter", "peek", it, UNIT, ("evs", ())))]
    if m == "peek" and it[1] == "peek":
        if it[3][0] == "agg" and it[3][1] == "peeked":
            x = it[3][4]
            return [(st, some(x[0]) if x else none())]
        out = []
        for s, i2, x in nxt(I, st, it[2], site):
            s = s.copy()
            # visiting happens at `next`; remember what it will report
            n0 = len(st.trace)
            evs = s.trace[n0:]
            s.trace = s.trace[:n0]
            for e in evs:
                if e[0] in ("next", "end"):
                    s.ev("peek", e[1], int(e[0] == "next"))
            put_back(I, s, recv, ("iter", "peek", i2, ("agg", "peeked", 0, "", () if x is None else (x,)), ("evs", evs)))
            out.append((s, none() if x is None else some(x)))
        return out
    if m in ("skip", "take"):
        k = I.known(st, a[1])
        if m == "skip" and hasattr(I, "gnext") and not (is_c(k, "int") and k[2] == 0):
            return [(st, ("iter", "gskip", it, k))]
        return [(st, ("iter", m, it, k[2] if is_c(k, "int") else "*"))]
    if m == "chain":
        o = as_iter(I, st, a[1], c.atys[1]) or ("iter", "unk", a[1])
        return [(st, ("iter", "chain", it, o))]
    if m == "zip" or n == "std::iter::zip":
        o = as_iter(I, st, a[1], c.atys[1]) or ("iter", "unk", a[1])
        return [(st, ("iter", "zip", it, o))]
    if m == "flatten":
        return [(st, ("iter", "flat", it, UNIT, UNIT))]
    if m == "flat_map":
        return [(st, ("iter", "flat", it, a[1], UNIT))]
    if m == "collect":
        return collect(I, st, it, c.dty, site)
    if m == "for_each":
        def body(s, x, acc):
            return [("back", s2, UNIT) for s2, _ in callf(I, s, a[1], [x], (site, "f"))]
        return [(s, UNIT) for s, pl, _ in consume(I, st, it, site, body)]
    if m == "fold":
        def body(s, x, acc):
            return [("back", s2, y) for s2, y in callf(I, s, a[2], [acc, x], (site, "f"))]
        return [(s, pl[1]) for s, pl, _ in consume(I, st, it, site, body, a[1])]
    if m in ("try_for_each", "try_fold"):
        fi = 1 if m == "try_for_each" else 2
        t = I.adt_of(c.dty)
        p = t["p"] if t else RES

        def body(s, x, acc):
            out = []
            args = [x] if fi == 1 else [acc, x]
            for s2, r in callf(I, s, a[fi], args, (site, "f")):
                r = I.deref(s2, r)
                for s3, vi in I.branch_variant(s2, r, p):
                    vn = I.p.adts[p]["variants"][vi]["n"]
                    y = I.field(I.materialize(r, vn) or r, vn, 0, "0")
                    if vn in ("Ok", "Some", "Continue"):
                        out.append(("back", s3, y))
                    else:
                        out.append(("exit", s3, r if r[0] == "agg" else ("agg", p, vi, vn, (y,) if vn != "None" else ())))
            return out
        vs = {RES: 0, OPT: 1}.get(p, 0)
        vn = {RES: "Ok", OPT: "Some"}.get(p, "Continue")
        return [(s, ("agg", p, vs, vn, (pl[1],)) if pl[0] == "end" else pl)
                for s, pl, _ in consume(I, st, it, site, body, UNIT if fi == 1 else a[1])]
    if m in ("any", "all", "find", "position", "find_map", "rposition", "rfind"):
        g0 = hasattr(I, "gpos")
        if m in ("rposition", "rfind"):
            it = ("iter", "rev", it)

        def body(s, x, acc):
            out = []
            for s2, r in callf(I, s, a[1], [x], (site, "f")):
                r = I.deref(s2, r)
                if m == "find_map":
                    for s3, vi in I.branch_variant(s2, r, OPT):
                        out.append(("exit", s3, r if r[0] == "agg" else some(I.field(I.materialize(r, "Some") or r, "Some", 0, "0")))
                                   if vi == 1 else ("back", s3, acc))
                    continue
                for s3, b in I.branch_bool(s2, r):
                    if m == "any":
                        out.append(("exit", s3, TRUE) if b else ("back", s3, acc))
                    elif m == "all":
                        out.append(("back", s3, acc) if b else ("exit", s3, FALSE))
                    elif m in ("find", "rfind"):
                        out.append(("exit", s3, some(x)) if b else ("back", s3, acc))
                    else:
                        if b:
                            out.append(("exit", s3, some(I.gpos(s3, it, x) if g0 else app("index_of", I.snap(s3, x)))))
                        else:
                            out.append(("back", s3, acc))
            return out
        res = []
        for s, pl, fin in consume(I, st, it, site, body):
            if pl[0] == "end":
                v = {"any": FALSE, "all": TRUE}.get(m, none())
            else:
                v = pl
            if fin is not None and recv[0] == "ref":
                put_back(I, s, recv, fin if m not in ("rposition", "rfind") else fin[2])
            res.append((s, v))
        return res
    if m == "last":
        def body(s, x, acc):
            return [("back", s, some(x))]
        res = []
        if hasattr(I, "gnext"):
            return [(s, pl[1] if pl[1] != UNIT else none()) for s, pl, _ in consume(I, st, it, site, body, none())]
        for s, i2, x in nxt(I, st, ("iter", "rev", it), site):
            res.append((s, none() if x is None else some(x)))
        return res
    if m == "nth" and hasattr(I, "gnth"):
        out = []
        for s, i2, x in I.gnth(st, it, I.known(st, a[1]), site):
            s = s.copy()
            put_back(I, s, recv, i2)
            out.append((s, none() if x is None else some(x)))
        return out
    if m == "nth":
        k = I.known(st, a[1])
        out = []
        for s, i2, x in nxt(I, st, ("iter", "skip", it, k[2] if is_c(k, "int") else "*"), site):
            s = s.copy()
            put_back(I, s, recv, i2[2])
            if x is not None and not is_c(k, "int"):
                x = app("nth", I.snap(s, it), k, S(str(site)))
                I.settype(x, None)
            out.append((s, none() if x is None else some(x)))
        return out
    if m in ("count", "sum", "product", "max", "min", "max_by_key", "min_by_key", "len", "size_hint", "max_by", "min_by"):
        # keep effects of producing items
        def body(s, x, acc):
            return [("back", s, acc)]
        out = []
        if m == "count" and hasattr(I, "gnext"):
            def body(s, x, acc):
                return [("back", s, I.binop(s, "Add", acc, INT(1), None))]
            return [(s, pl[1]) for s, pl, _ in consume(I, st, it, site, body, INT(0))]
        for s, pl, _ in consume(I, st, it, site, body):
            out.append((s, I.settype(app("iter." + m, I.snap(s, it)), c.dty)))
        return out
    if m == "partition" and len(a) == 2:
        def part(keep):
            def body(s, x, acc):
                out = []
                s = s.copy()
                cell = ("part", site)
                s.mem[cell] = x
                for s2, r in callf(I, s, a[1], [("ref", cell, ())], (site, "p")):
                    for s3, b in I.branch_bool(s2, I.deref(s2, r)):
                        out.append(("back", s3, seq(seq_items(acc) + (("one", I.snap(s3, x)),)) if b == keep else acc))
                return out
            return body
        out = []
        for s, p1, _ in consume(I, st, it, (site, "yes"), part(True), seq(())):
            for s2, p2, _ in consume(I, s, it, (site, "no"), part(False), seq(())):
                out.append((s2, ("agg", "tuple", 0, "", (p1[1], p2[1]))))
        return out
    if m in ("unzip", "partition"):
        return [(st, I.settype(app("iter." + m, I.snap(st, it), *[I.snap(st, x) for x in a[1:]]), c.dty))]
    if m in ("sort", "step_by", "cycle", "scan"):
        return [(st, ("iter", "unk", app("iter." + m, I.snap(st, it), *[I.snap(st, x) for x in a[1:]])))]
    return None


def extend_model(I, st, c, site, a):
    it = as_iter(I, st, a[1], c.atys[1])
    if it is None or a[0][0] != "ref":
        return None
    cur = I.deref(st, a[0])
    isstr = is_strty(I, I.p.peel(c.atys[0])) if c.atys[0] is not None else False

    def body(s, x, acc):
        s = s.copy()
        if isstr:
            I.write(s, a[0][1], a[0][2], cat(I.deref(s, a[0]), I.deref(s, x)))
        else:
            I.write(s, a[0][1], a[0][2], seq(seq_items(I.deref(s, a[0])) + (("one", I.snap(s, x)),)))
        return [("back", s, UNIT)]
    if not isstr and it[1] == "seq" and it[3] == 0 and it[4] != "mut":
        s = st.copy()
        I.write(s, a[0][1], a[0][2], seq(seq_items(cur) + seq_items(it[2])))
        return [(s, UNIT)]
    return [(s, UNIT) for s, _, _ in consume(I, st, it, site, body)]


def str_model(I, st, c, site, m, a):
    v = I.deref(st, a[0]) if a else UNIT
    ref = a[0] if a and a[0][0] == "ref" else None
    if m in ("new", "with_capacity"):
        return [(st, S(""))]
    if m == "push_str" or m == "push":
        s = st.copy()
        x = I.deref(s, a[1])
        if ref:
            I.write(s, ref[1], ref[2], cat(v, x))
        return [(s, UNIT)]
    if m in ("insert_str", "insert"):
        s = st.copy()
        x = I.deref(s, a[2])
        k = I.known(s, a[1])
        if is_c(k, "int") and k[2] == 0:
            nv = cat(x, v)
        else:
            nv = app("str.insert", v, k, x)
        if ref:
            I.write(s, ref[1], ref[2], nv)
        return [(s, UNIT)]
    if m == "clear":
        s = st.copy()
        if ref:
            I.write(s, ref[1], ref[2], S(""))
        return [(s, UNIT)]
    if m in ("truncate", "retain", "pop", "remove", "drain", "replace_range", "extend_from_within"):
        s = st.copy()
        args = [I.snap(s, I.deref(s, x)) for x in a]
        if m == "truncate" and is_c(args[1], "int") and args[1][2] == 0:
            nv = S("")
        else:
            nv = app("str." + m, *args)
        if ref:
            I.write(s, ref[1], ref[2], nv)
        rv = UNIT if m in ("truncate", "retain", "replace_range", "extend_from_within") else I.settype(app("str." + m + ".ret", *args), c.dty)
        return [(s, rv)]
    if m in ("reserve", "shrink_to_fit"):
        return [(st, UNIT)]
    if m == "len":
        return [(st, length(I, st, v))]
    if m == "is_empty":
        return [(st, is_empty(I, st, v))]
    if m in ("chars", "bytes", "char_indices", "lines", "split_whitespace"):
        if m == "chars":
            if is_c(v, "str"):
                return [(st, ("iter", "seq", v, 0, "own", -1, UNIT))]
            return [(st, ("iter", "seq", app("chars", v), 0, "own", -1, UNIT))]
        if is_c(v, "str") and m in ("lines", "split_whitespace"):
            xs = v[2].split("\n") if m == "lines" else v[2].split()
            if m == "lines" and xs and xs[-1] == "":
                xs = xs[:-1]
            return [(st, ("iter", "seq", seq([("one", S(x)) for x in xs]), 0, "own", -1, UNIT))]
        return [(st, ("iter", "seq", app(m, v), 0, "own", -1, UNIT))]
    args = [I.snap(st, I.deref(st, x)) for x in a[1:]]
    f = str_fold(I, st, m, v, args, None)
    if f is not None:
        return [(st, f)]
    if m == "is_char_boundary" and is_c(args[0], "int") and args[0][2] == 0:
        return [(st, TRUE)]
    if m in ("strip_prefix", "strip_suffix") and is_c(v, "str") and is_c(args[0], "str"):
        p = args[0][2]
        if m == "strip_prefix":
            return [(st, some(S(v[2][len(p):])) if v[2].startswith(p) else none())]
        return [(st, some(S(v[2][:len(v[2]) - len(p)])) if v[2].endswith(p) else none())]
    if m == "parse":
        x = app("str.parse:" + (I.p.tys(c.dty) if c.dty is not None else "?"), v)
        # FromStr of a local type: resolve
        t = I.adt_of(c.dty)
        if t is not None and t["a"]:
            okt = I.adt_of(t["a"][0])
            if okt is not None and okt["p"].startswith("crate::"):
                key = "<%s as std::str::FromStr>::from_str" % okt["p"]
                if key in I.p.bodies:
                    return I.call(st, fnval(key), [v], (site, "fs"))
        I.settype(x, c.dty)
        return [(st, x)]
    if m == "split_at" and len(args) == 1:
        return [(st, tup(I.settype(slice_term(v, None, args[0]), I.tyof.get(v)), I.settype(slice_term(v, args[0], None), I.tyof.get(v))))]
    x = app("str." + m, v, *args)
    I.settype(x, c.dty)
    return [(st, x)]


def vec_model(I, st, c, site, m, a):
    v = I.deref(st, a[0]) if a else UNIT
    ref = a[0] if a and a[0][0] == "ref" else None
    if m in ("new", "with_capacity") and not (a and m == "new"):
        return [(st, I.settype(seq(()), c.dty))]
    if m == "push" or m == "push_back":
        s = st.copy()
        if ref:
            I.write(s, ref[1], ref[2], seq(seq_items(v) + (("one", I.snap(s, a[1])),)))
        return [(s, UNIT)]
    if m == "push_front":
        s = st.copy()
        if ref:
            I.write(s, ref[1], ref[2], seq((("one", I.snap(s, a[1])),) + seq_items(v)))
        return [(s, UNIT)]
    if m == "clear":
        s = st.copy()
        if ref:
            I.write(s, ref[1], ref[2], seq(()))
        return [(s, UNIT)]
    if m in ("append", "extend_from_slice"):
        s = st.copy()
        o = I.deref(s, a[1])
        if ref:
            I.write(s, ref[1], ref[2], seq(seq_items(v) + seq_items(o)))
        if m == "append" and a[1][0] == "ref":
            I.write(s, a[1][1], a[1][2], seq(()))
        return [(s, UNIT)]
    if m == "len":
        return [(st, length(I, st, v))]
    if m == "is_empty":
        return [(st, is_empty(I, st, v))]
    if m in ("iter", "into_iter"):
        if ref and v[0] == "seq":
            pass
        return [(st, mk_iter(I, st, v, "ref", c.atys[0]))]
    if m == "iter_mut":
        return [(st, mk_iter(I, st, a[0], "mut", c.atys[0]))]
    if m in ("drain",) and ref:
        s = st.copy()
        it = mk_iter(I, s, v, "own", c.atys[0])
        I.write(s, ref[1], ref[2], seq(()))
        return [(s, it)]
    if m in ("insert", "remove", "retain", "sort", "sort_by", "sort_by_key", "swap_remove", "truncate", "dedup", "reverse", "swap", "pop",
             "retain_mut", "pop_front", "pop_back", "sort_unstable_by", "sort_unstable", "sort_unstable_by_key", "resize", "split_off", "dedup_by_key"):
        s = st.copy()
        args = tuple(I.snap(s, I.deref(s, x)) for x in a)
        s.ev("call", "vec." + m, args, c.span)
        nv = app("vec." + m, *args)
        if m == "insert" and is_c(args[1], "int") and args[1][2] == 0:
            nv = seq((("one", args[2]),) + seq_items(v))
        if m == "remove" and is_c(args[1], "int") and args[1][2] == 0 and v[0] == "seq" and v[1] and v[1][0][0] == "one":
            nv = seq(v[1][1:])
            I.write(s, ref[1], ref[2], nv) if ref else None
            return [(s, v[1][0][1])]
        if v in I.tyof:
            I.settype(nv, I.tyof[v])
        if ref:
            I.write(s, ref[1], ref[2], nv)
        t = I.p.types[c.dty] if c.dty is not None else None
        if t is not None and t["k"] == "tuple" and not t["e"]:
            return [(s, UNIT)]
        if m in ("remove", "swap_remove"):
            e = ("elem", v, args[1] if not is_c(args[1], "int") else args[1][2])
            return [(s, I.settype(e, c.dty))]
        rv = app("vec." + m + ".ret", *args)
        return [(s, I.settype(rv, c.dty))]
    if m in ("first", "last", "get", "first_mut", "last_mut", "get_mut"):
        mut = m.endswith("_mut")
        b = m.replace("_mut", "")
        if v[0] == "seq" and all(x[0] == "one" for x in v[1]) or v[0] == "agg":
            items = v[4] if v[0] == "agg" else [x[1] for x in v[1]]
            ix = {"first": 0, "last": len(items) - 1}.get(b)
            if b == "get":
                k = I.known(st, a[1])
                ix = k[2] if is_c(k, "int") else None
            if ix is not None and not mut:
                return [(st, some(items[ix]) if 0 <= ix < len(items) else none())]
        pos = {"first": 0, "last": ("b", 0)}.get(b)
        if pos is None:
            k = I.known(st, a[1])
            pos = k[2] if is_c(k, "int") else ("ix", k)
        if v[0] == "seq" and v[1] and v[1][-1][0] == "one" and b == "last" and not mut:
            return [(st, some(v[1][-1][1]))]
        e = ("elem", I.freeze(st, v), pos)
        t = I.adt_of(c.dty)
        et = t["a"][0] if t is not None and t["a"] else None
        if et is not None:
            I.settype(e, I.p.peel(et))
        out = []
        emp = is_empty(I, st, v) if b in ("first", "last") or pos == 0 else app("Le", length(I, st, v), a[1])
        for s, bb in I.branch_bool(st, emp):
            out.append((s, none() if bb else some(("ref", ("E", e), ()) if mut else e)))
        return out
    if m == "contains":
        x = I.deref(st, a[1])
        items = None
        if v[0] == "agg" and v[1] == "array":
            items = v[4]
        elif v[0] == "seq" and all(y[0] == "one" for y in v[1]):
            items = [y[1] for y in v[1]]
        if items is not None and all(is_c(y) for y in items):
            if is_c(x):
                return [(st, C("bool", x in items))]
            if all(y[1] in ("char", "int") for y in items):
                return [(st, inset(I, st, x, cset.of([y[2] for y in items])))]
            return [(st, app("oneof", x, tuple(sorted(items, key=repr))))]
        return [(st, app("contains", v, x))]
    if m in ("join", "concat"):
        sep = I.deref(st, a[1]) if len(a) > 1 else S("")
        items = v[4] if v[0] == "agg" else ([y[1] for y in v[1]] if v[0] == "seq" and all(y[0] == "one" for y in v[1]) else None)
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(sep)
                parts.append(x)
            return [(st, cat(*parts))]
        x = app("join", v, sep)
        return [(st, x)]
    if m in ("to_vec", "into_vec", "as_slice", "as_mut_slice", "into_boxed_slice"):
        return [(st, a[0] if m == "as_mut_slice" else v)]
    if m in ("reserve", "shrink_to_fit"):
        return [(st, UNIT)]
    return None
