"""C07: equality, hashing and ordering agree and ignore spans."""
import itertools
from .. import dump, absint
from ..absint import Interp, St, show, is_c, sym, app, mentions, subst, TRUE, FALSE, OPT, I as INT
from ..common import Api, Anchor
from ..meth import fields

STRUCTS = ["KdlDocument", "KdlNode", "KdlEntry", "KdlIdentifier"]
FMTS = ["KdlDocumentFormat", "KdlNodeFormat", "KdlEntryFormat"]
A, B = sym("a"), sym("b")
SWAP = {A: B}


def derived(P, ty, trait):
    for im in P.impls:
        if im["trait"] == trait and im.get("self") and ty in im["ref"] and im["self"].split("<")[0].endswith(ty.split("::")[-1]):
            return bool(im.get("derived"))
    return None


def ab(t):
    """t(a) -> t(b)"""
    return subst(t, {A: B})


def ba(t):
    return subst(t, {B: A})


def is_comp(t):
    """a component of a or b: (owner, path)"""
    x = t
    while x[0] == "fld":
        x = x[1]
    return x in (A, B)


def eq_hook(I, st, c, site):
    """comparison of a component of `a` with the same component of `b` is one atom"""
    if c.m in ("eq", "ne") and c.trait == "std::cmp::PartialEq" and len(c.args) == 2:
        x, y = I.deref(st, c.args[0]), I.deref(st, c.args[1])
        if x in (A, B) and y in (A, B):
            return None
        if is_comp(x) and is_comp(y):
            if mentions(x, lambda v: v == B):
                x, y = y, x
            t = app("EQ", x, y)
            return [(st, t if c.m == "eq" else I.unot(t))]
    return None


def eval_bool(t, asg):
    if is_c(t, "bool"):
        return t[2]
    if t[0] == "app":
        if t[1] == "Not":
            r = eval_bool(t[2][0], asg)
            return None if r is None else not r
        if t[1] == "BitAnd":
            r = [eval_bool(x, asg) for x in t[2]]
            return False if False in r else (None if None in r else True)
        if t[1] == "BitOr":
            r = [eval_bool(x, asg) for x in t[2]]
            return True if True in r else (None if None in r else False)
        if t[1] == "BitXor":
            r = [eval_bool(x, asg) for x in t[2]]
            return None if None in r else r[0] != r[1]
    return asg.get(t)


def atoms_of(t, acc):
    if is_c(t, "bool"):
        return
    if t[0] == "app" and t[1] in ("Not", "BitAnd", "BitOr", "BitXor"):
        for x in t[2]:
            atoms_of(x, acc)
        return
    acc.add(t)


def comp_of(t):
    """component name of an atom comparing a.f with b.f (both sides functions of that component only), else None"""
    if t[0] != "app" or t[1] not in ("EQ", "Eq") or len(t[2]) != 2:
        return None
    x, y = t[2]
    if mentions(x, lambda v: v == B):
        x, y = y, x
    if ab(x) != y:
        return None
    roots = set()
    mentions(x, lambda v: (v[0] == "fld" and v[1] == A and roots.add(v[3])) and False)
    if len(roots) != 1:
        return None
    f = list(roots)[0]
    return f, x == ("fld", A, None, f)


def struct_eq(ck, P, api, t, ty, pre):
    key = "<%s as std::cmp::PartialEq>::eq" % ty
    fs = [f for f in fields(P, ty) if f != "span"]
    k = "%s%s::eq" % (pre, t)
    if derived(P, ty, "std::cmp::PartialEq"):
        sp = "span" in fields(P, ty)
        ck.ob(not sp, k + ":derived equality compares spans", "")
        return
    if key not in P.bodies:
        raise Anchor(key)
    I = Interp(P, hooks=[eq_hook])
    st = St()
    for s in (A, B):
        I.tyof[s] = api.tyid(ty)
    res = I.run_body(P.bodies[key], key, [A, B], st, ("root", key))
    ck.used(I)
    paths = []
    allat = set()
    for s, v in res:
        at = set()
        atoms_of(v, at)
        cond = {}
        for f, val in s.facts.items():
            if isinstance(f, tuple) and f and f[0] == "app" and isinstance(val, tuple) and is_c(val, "bool"):
                cond[f] = val[2]
                at.add(f)
            elif isinstance(f, tuple) and f and f[0] == "disc":
                cond[f] = val
                at.add(f)
        allat |= at
        paths.append((cond, v))
    ck.count("paths", len(paths))
    # every component must occur, spans must not
    spans = [x for x in allat if mentions(x, lambda v: v[0] == "fld" and v[3] == "span")]
    ck.ob(not spans, k + ":depends on the span", show(spans[0]) if spans else "")
    whole = {}
    for x in allat:
        c = comp_of(x)
        if c and c[1]:
            whole.setdefault(c[0], set()).add(x)
    for f in fs:
        # differing only in f -> must be False on every path
        def run_with(diff):
            """possible results when exactly the components in `diff` differ"""
            out = set()
            for cond, v in paths:
                asg = {}
                okp = True
                for x in allat:
                    if x[0] == "disc":
                        continue
                    c = comp_of(x)
                    if c is None:
                        continue
                    if c[0] not in diff:
                        asg[x] = True
                    elif c[1]:
                        asg[x] = False
                for x, val in cond.items():
                    if x in asg and asg[x] != val:
                        okp = False
                # discriminants of equal components agree
                for x, val in cond.items():
                    if x[0] == "disc" and x[1][0] == "fld" and mentions(x, lambda q: q == A):
                        y = ab(x)
                        rf = root_field(x[1])
                        if y in cond and cond[y] != val and rf not in diff:
                            okp = False
                if not okp:
                    continue
                r = eval_bool(v, asg)
                out |= {True, False} if r is None else {r}
            return out
        r = run_with({f})
        ck.ob(f in whole and r == {False}, "%s:%s not compared" % (k, f), "objects differing in %s can compare equal" % f,
              sample="%s compares %s" % (t, f))
    r = run_with(set())
    ck.ob(r == {True}, k + ":equal components can compare unequal", "")
    # any set of differences is unequal
    if len(fs) <= 6:
        for n in range(2, len(fs) + 1):
            for d in itertools.combinations(fs, n):
                r = run_with(set(d))
                ck.ob(r == {False}, "%s:objects differing in %s can compare equal" % (k, "+".join(d)), "")


def root_field(t):
    while t[0] == "fld" and t[1] != A and t[1] != B:
        t = t[1]
    return t[3] if t[0] == "fld" else None


def hash_terms(P, api, ty, root):
    """[(facts, [hashed terms])]"""
    key = "<%s as std::hash::Hash>::hash" % ty
    if key not in P.bodies:
        raise Anchor(key)

    def hook(I, st, c, site):
        if c.m in ("hash", "hash_slice") and c.trait == "std::hash::Hash":
            x = I.deref(st, c.args[0])
            if x == root:
                return None
            s = st.copy()
            s.ev("hash", I.freeze(s, x))
            return [(s, absint.UNIT)]
        if c.trait == "std::hash::Hasher" and c.m.startswith("write"):
            s = st.copy()
            for x in c.args[1:]:
                s.ev("hash", I.freeze(s, I.deref(s, x)))
            return [(s, absint.UNIT)]
        return None
    no = [f for f in P.bodies if f == ""]
    I = Interp(P, hooks=[hook], no_inline=local_float_fns(P))
    I.tyof[root] = api.tyid(ty)
    st = St()
    h = sym("hasher")
    st.mem[("P", "hasher")] = h
    res = I.run_body(P.bodies[key], key, [root, ("ref", ("P", "hasher"), ())], st, ("root", key))
    return I, [(s.facts, list(walk_hash(s.trace))) for s, v in res]


def walk_hash(tr):
    for e in tr:
        if e[0] == "hash":
            yield e[1]
        elif e[0] == "loop":
            for ev, fs in e[2]:
                yield from walk_hash(ev)


def local_float_fns(P):
    """crate functions from f64 to f64: normalisations, treated as opaque"""
    out = []
    for f in P.fns:
        b = P.bodies.get(f["path"])
        if b and b["argc"] == 1 and P.types[P.peel(b["locals"][1][0])]["s"] == "f64" and P.tys(b["locals"][0][0]) == "f64":
            out.append(f["path"])
    return out


def struct_hash(ck, P, api, t, ty, pre):
    k = "%s%s::hash" % (pre, t)
    if derived(P, ty, "std::hash::Hash"):
        ck.ob("span" not in fields(P, ty), k + ":derived hash includes the span", "")
        return
    I, hs = hash_terms(P, api, ty, sym("a"))
    ck.used(I)
    for facts, terms in hs:
        ck.count("hash_paths")
        for x in terms:
            bad = mentions(x, lambda v: v[0] == "fld" and v[1] == A and v[3] == "span") or x == A
            ck.ob(not bad, k + ":hash includes the span", show(x))
            # a hashed function of a float or of an address is not a function of the compared components
            unk = mentions(x, lambda v: v[0] == "app" and ("as_ptr" in str(v[1]) or "addr" in str(v[1])))
            ck.ob(not unk, k + ":hash depends on an address", show(x))
        for f, v in facts.items():
            bad = mentions(f, lambda v: v[0] == "fld" and v[1] == A and v[3] == "span")
            ck.ob(not bad, k + ":hash depends on the span", show(f) if isinstance(f, tuple) else "")
    ck.ob(any(t for _, t in hs), k + ":nothing hashed", "")


# ------------------------------------------------------------------ values
def value_paths(P, api, ty, m, trait):
    key = "<%s as %s>::%s" % (ty, trait, m)
    if key not in P.bodies:
        return None, None

    I = Interp(P, no_inline=local_float_fns(P))
    st = St()
    for s in (A, B):
        I.tyof[s] = api.tyid(ty)
    return I, I.run_body(P.bodies[key], key, [A, B], st, ("root", key))


def payload_term(v, variant):
    return ("fld", v, variant, "0")


def same_disc(facts):
    """facts compare the discriminants of a and b: True/False/None"""
    for f, v in facts.items():
        if isinstance(f, tuple) and f and f[0] == "app" and f[1] in ("Eq", "EQ") and is_c(v, "bool"):
            if mentions(f, lambda q: q == app("discriminant", A)) and mentions(f, lambda q: q == app("discriminant", B)):
                return v[2]
    return None


def variant_pairs(P, ty, I, res):
    """{(va, vb): [(facts, result)]}"""
    vs = [x["n"] for x in P.adts[ty]["variants"]]
    out = {}
    for s, v in res:
        for i, x in enumerate(vs):
            for j, y in enumerate(vs):
                okp = True
                for o, n in ((A, i), (B, j)):
                    d = s.facts.get(("disc", o))
                    if isinstance(d, int) and d != n:
                        okp = False
                    if isinstance(d, tuple) and n in d[1]:
                        okp = False
                sd = same_disc(s.facts)
                if sd is not None and sd != (i == j):
                    okp = False
                if okp:
                    out.setdefault((x, y), []).append((s.facts, v))
    return vs, out


def disc_value(t, same):
    """value of a boolean term that compares the discriminants"""
    if is_c(t, "bool"):
        return t[2]
    if t[0] == "app" and t[1] == "Not":
        r = disc_value(t[2][0], same)
        return None if r is None else not r
    if t[0] == "app" and t[1] == "Eq" and all(mentions(t, lambda q: q == app("discriminant", o)) or mentions(t, lambda q: q[0] == "disc" and q[1] == o) for o in (A, B)):
        return same
    return None


def check_value(ck, P, api, pre):
    ty = api.ty("KdlValue")
    k = pre + "KdlValue"
    if derived(P, ty, "std::cmp::PartialEq"):
        ck.ob(False, k + ":eq:derived on a float", "NaN would make the Eq impl wrong")
        return
    I, res = value_paths(P, api, ty, "eq", "std::cmp::PartialEq")
    if res is None:
        raise Anchor("PartialEq for KdlValue")
    ck.used(I)
    vs, pairs = variant_pairs(P, ty, I, res)
    keys = {}
    for x in vs:
        for y in vs:
            for facts, v in pairs.get((x, y), []):
                ck.count("value_eq_paths")
                if x != y:
                    r = disc_value(v, False)
                    ck.ob(r is False, "%s::eq:%s can equal %s" % (k, x, y), show(v))
                    continue
                if not P.adts[ty]["variants"][vs.index(x)]["f"]:
                    r = disc_value(v, True)
                    ck.ob(r is True, "%s::eq:%s not equal to itself" % (k, x), show(v))
                    continue
                # payload comparison: result (with the branch facts) is Eq(key(a), key(b))
                kt = eq_key(facts, v)
                if ck.ob(kt is not None, "%s::eq:%s payloads are not compared by one key" % (k, x), show(v)):
                    keys.setdefault(x, set()).add(kt)
        ck.ob((x, x) in pairs, "%s::eq:%s never compared" % (k, x), "")
    fkey = None
    for x, ks in keys.items():
        p = payload_term(A, x)
        if x == "Float":
            ck.ob(len(ks) == 1, k + "::eq:Float compared by different keys", "")
            fkey = list(ks)[0]
            ck.ob(nan_free(P, fkey, p), k + "::eq:Float NaN is not equal to itself", "the Eq impl promises a == a; the compared key %s can be NaN" % show(fkey))
            inj = fkey
        else:
            ck.ob(ks == {p}, "%s::eq:%s compared by %s" % (k, x, ", ".join(show(q) for q in ks)), "different values can compare equal")
    # hash: every hashed term is a function of the compared key, insensitive to the sign of zero
    I, hs = hash_terms(P, api, ty, A)
    ck.used(I)
    for facts, terms in hs:
        d = facts.get(("disc", A))
        names = [vs[d]] if isinstance(d, int) else [n for i, n in enumerate(vs) if not (isinstance(d, tuple) and i in d[1])]
        for n in names:
            ck.count("value_hash_paths")
            p = payload_term(A, n)
            for x in list(terms):
                if n != "Float":
                    continue
                y = subst(x, {fkey: sym("key")}) if fkey is not None else x
                ck.ob(not mentions(y, lambda q: q == p), k + "::hash:Float hashed from the raw value", "%s is not a function of the compared key" % show(x))
                ck.ob(zero_safe(y), k + "::hash:Float hash distinguishes 0.0 from -0.0", show(x))
                # branch facts on the raw float
            for f in facts:
                if n == "Float" and isinstance(f, tuple) and f[0] == "app":
                    g = subst(f, {fkey: sym("key")}) if fkey is not None else f
                    ck.ob(not mentions(g, lambda q: q == p), k + "::hash:Float hash branches on the raw value", show(f))
    # ordering
    if any(im["trait"] == "std::cmp::PartialOrd" and im["ref"].find(ty) >= 0 for im in P.impls):
        if derived(P, ty, "std::cmp::PartialOrd"):
            ck.ob(False, k + "::partial_cmp:derived ordering compares floats by value",
                  "NaN == NaN and inf == f64::MAX hold under ==, but partial_cmp does not return Equal for them")
        else:
            check_ord(ck, P, api, ty, vs, keys, k)
    else:
        ck.note("KdlValue has no ordering")


def eq_key(facts, v):
    """key(a) if the boolean v is key(a) == key(b)"""
    if v[0] == "app" and v[1] in ("Eq", "EQ"):
        x, y = v[2]
        if mentions(x, lambda q: q == B):
            x, y = y, x
        if ab(x) == y and mentions(x, lambda q: q == A) and not mentions(x, lambda q: q == B):
            return x
    return None


def nan_free(P, key, p):
    """the key of a float cannot be NaN: a crate function whose paths return non-NaN constants or an argument excluded from NaN"""
    if key == p:
        return False
    if key[0] == "app" and key[1] == "to_bits":
        return True
    if key[0] == "app" and key[1] in P.bodies and key[2] == (p,):
        I = Interp(P)
        b = P.bodies[key[1]]
        st = St()
        x = sym("x")
        I.tyof[x] = P.peel(b["locals"][1][0])
        for s, v in I.run_body(b, key[1], [x], st, ("root", key[1])):
            v = I.deref(s, v)
            if is_c(v, "float"):
                if str(v[2]).lower() == "nan":
                    return False
                continue
            if v == x:
                nn = [f for f, val in s.facts.items() if isinstance(f, tuple) and f[0] == "app" and "is_nan" in f[1] and val == FALSE]
                nf = [f for f, val in s.facts.items() if isinstance(f, tuple) and f[0] == "app" and f[1] in ("Eq", "EQ") and f[2] == (x, x) and val == TRUE]
                if nn or nf:
                    continue
                return False
            if v[0] == "app" and v[1] == "Neg" and is_c(v[2][0], "float"):
                continue
            if v[0] == "sym" and "MAX" in str(v[1]):
                continue
            return False
        return True
    return False


def zero_safe(t):
    """no sub-term distinguishes 0.0 from -0.0 of the key"""
    k = sym("key")
    if not mentions(t, lambda q: q == k):
        return True
    if t == k:
        return False
    if t[0] == "app":
        op = str(t[1])
        if op.startswith("cast:f64:"):
            return ":f" not in op[9:]
        if op == "Add" and any(is_c(x, "float") and float(x[2]) == 0.0 for x in t[2]):
            return True
        base = op.split("::")[-1]
        if base in ("trunc", "fract", "floor", "ceil", "round"):
            return False      # still a signed zero; must be cast afterwards
        if base in ("abs",):
            return True
        if op.startswith("cast:"):
            return zero_safe(t[2][0])
        return all(zero_safe(x) for x in t[2])
    return all(zero_safe(x) for x in t if isinstance(x, tuple))


def inner_zero(t):
    return t


def check_ord(ck, P, api, ty, vs, keys, k):
    I, res = value_paths(P, api, ty, "partial_cmp", "std::cmp::PartialOrd")
    if res is None:
        raise Anchor("PartialOrd for KdlValue")
    ck.used(I)
    _, pairs = variant_pairs(P, ty, I, res)
    for x in vs:
        for y in vs:
            for facts, v in pairs.get((x, y), []):
                ck.count("value_ord_paths")
                e = cmp_kind(v)
                if x != y:
                    ck.ob(e != "equal", "%s::partial_cmp:%s can be Equal to %s" % (k, x, y), show(v))
                    if e == "other":
                        ck.ob(rank_cmp(v, vs.index(x), vs.index(y)), "%s::partial_cmp:%s against %s" % (k, x, y), show(v))
                    continue
                if x not in keys:
                    ck.ob(e == "equal" or rank_cmp(v, 1, 1), "%s::partial_cmp:%s not Equal to itself" % (k, x), show(v))
                    continue
                kt = list(keys[x])[0]
                want = (kt, ab(kt))
                okk = False
                t = v
                if t[0] == "agg" and t[3] == "Some":
                    t = t[4][0]
                if t[0] == "app" and str(t[1]).split("::")[-1] in ("partial_cmp", "cmp", "total_cmp"):
                    a = t[2]
                    okk = tuple(a) == want and str(t[1]).split("::")[-1] != "total_cmp"
                ck.ob(okk, "%s::partial_cmp:%s not ordered by the compared key" % (k, x), "%s, while == compares %s" % (show(v), show(kt)))


def cmp_kind(v):
    if v[0] == "agg" and v[3] == "None":
        return "none"
    if v[0] == "agg" and v[3] == "Some":
        w = v[4][0]
        if w[0] == "agg":
            return "equal" if w[3] == "Equal" else "order"
    return "other"


def rank_cmp(v, i, j):
    """ordering of two different constants, or of the discriminants"""
    t = v
    if t[0] == "agg" and t[3] == "Some":
        t = t[4][0]
    if t[0] == "app" and str(t[1]).split("::")[-1] in ("partial_cmp", "cmp"):
        x, y = t[2]
        if is_c(x) and is_c(y):
            return (x[2] == y[2]) == (i == j)
        if x[0] == "disc" and y[0] == "disc":
            return True
    return False


def run(ck):
    ck.explanation = ("eq, hash and partial_cmp of every public tree, format and value type are interpreted on symbolic objects a, b; the result is a boolean "
                      "function of component equalities, decided by its truth table; hashed terms must be functions of the compared components.")
    ck.rule = "a == b iff all components other than spans are equal; hash and ordering are functions of the compared keys only"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "none", "span"]):
        P = dump.load(cfg)
        pre = "" if cfg == "all" else cfg + ":"
        api = Api(P)
        for t in STRUCTS + FMTS:
            ty = api.ty(t)
            struct_eq(ck, P, api, t, ty, pre)
            struct_hash(ck, P, api, t, ty, pre)
        check_value(ck, P, api, pre)
