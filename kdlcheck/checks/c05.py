"""C05: what is written for a value or a name without a spelling of its own is read back as that value."""
import sys
from .. import dump, absint, cset, peg
from .. import grammar as g
from ..absint import Interp, St, show, is_c, sym, mentions, TRUE, FALSE, OPT
from ..common import Api, Anchor
from ..peg import Extract, Lang, Count, difference, parallel, canon, seq, lit, rep
from . import c03

ASCII = cset.rng(0, 127)
ANYS = rep(0, None, ("set", cset.CHARS))
INF, NINF = "7ff0000000000000", "fff0000000000000"


FLIP = {"Eq": "Eq", "Le": "Ge", "Lt": "Gt", "Ge": "Le", "Gt": "Lt"}


class Odd(Exception):
    """a piece of output this analysis has no language for"""


def no_of(e):
    return ("not", e)


def must(e):
    """look-ahead: the whole text is in e"""
    return ("not", no_of(seq(e, ("eof",))))


def nonempty():
    return must(rep(1, None, ("set", cset.CHARS)))


def only(cs):
    return must(rep(0, None, ("set", cs)))


def facts_lang(X, I, x, s):
    """look-aheads that the path's facts put on the string term x (facts without a model are left out: that makes the set larger)"""
    out = []
    chars = ("app", "chars", (x,))
    ln, cln = ("app", "len", (x,)), ("app", "len", (chars,))

    def size(n, yes):
        e = rep(n, n, ("set", cset.CHARS)) if n == 0 else None
        if n == 0:
            out.append(must(e) if yes else nonempty())

    def known_set(t):
        try:
            return X.charset(t)
        except (peg.NoModel, absint.Unsupported):
            return None

    def first(cs, yes):
        """the first byte is there and (not) in cs"""
        if not cset.subset(cs, ASCII):
            return
        e = seq(("set", cs), ANYS)
        out.append(must(e) if yes else no_of(("set", cs)))

    for k, v in s.facts.items():
        if k[0] == "disc" and k[1][0] == "app" and k[1][1] in ("str.find", "str.rfind") and k[1][2][0] == x:
            cs = known_set(k[1][2][1])
            if cs is not None and v == 0:
                out.append(only(cset.diff(cset.CHARS, cs)))
        elif k[0] == "ne":
            if k[1] == x:
                for c in v:
                    if is_c(c, "str"):
                        out.append(no_of(seq(lit(c[2]), ("eof",))))
            elif k[1] in (ln, cln):
                for c in v:
                    if c[2] == 0:
                        size(0, False)
        elif k[0] == "val":
            if k[1] == x and is_c(v, "str"):
                out.append(must(lit(v[2])))
            elif k[1] in (ln, cln) and v[2] == 0:
                size(0, True)
        elif k[0] == "app" and v in (TRUE, FALSE):
            op, a = k[1], k[2]
            yes = v == TRUE
            if op == "strpred":
                if a[0] == x:
                    out.append(pred_lang(X, a[1][2], yes))
                continue
            if op == "oneof" and a[0] == x and all(is_c(c, "str") for c in a[1]):
                e = peg.alt(*[lit(c[2]) for c in a[1]])
                out.append(must(e) if yes else no_of(seq(e, ("eof",))))
                continue
            if op == "Eq" and len(a) == 2 and x in a:
                o = a[0] if a[1] == x else a[1]
                if is_c(o, "str"):
                    e = seq(lit(o[2]), ("eof",))
                    out.append(must(lit(o[2])) if yes else no_of(e))
                continue
            if op in FLIP and len(a) == 2 and is_c(a[0]):
                op, a = FLIP[op], (a[1], a[0])
            if op in FLIP and len(a) == 2 and a[0] in (ln, cln) and is_c(a[1], "int"):
                n = a[1][2]
                lo = {"Eq": None, "Le": n if not yes else None, "Lt": n - 1 if not yes else None, "Ge": n - 1 if yes else None, "Gt": n if yes else None}[op]
                if lo is not None and lo >= 0:       # more than lo bytes: at least one character
                    out.append(nonempty())
                    if a[0] == cln:
                        out.append(must(rep(lo + 1, None, ("set", cset.CHARS))))
                    elif lo >= 1:                    # not a single ASCII character
                        out.append(no_of(seq(("set", ASCII), ("eof",))))
                hi = {"Eq": n if yes else None, "Le": n if yes else None, "Lt": n - 1 if yes else None, "Ge": n - 1 if not yes else None, "Gt": n if not yes else None}[op]
                if hi is not None and 0 <= hi <= 8:
                    out.append(must(rep(0, hi, ("set", ASCII if a[0] == ln and hi == 1 else cset.CHARS))))
            elif op in ("str.starts_with", "str.contains", "str.ends_with") and len(a) == 2 and a[0] == x:
                e = lit(a[1][2]) if is_c(a[1], "str") else None
                if e is None:
                    cs = known_set(a[1])
                    if cs is None:
                        continue
                    e = ("set", cs)
                if op == "str.starts_with":
                    out.append(must(seq(e, ANYS)) if yes else no_of(e))
                elif op == "str.contains" and e[0] == "set" and not yes:
                    out.append(only(cset.diff(cset.CHARS, e[1])))
                elif op == "str.ends_with" and e[0] == "set" and not yes:
                    out.append(must(("or", (("eps",), seq(rep(0, None, ("set", cset.CHARS)), ("set", cset.diff(cset.CHARS, e[1])))))))
    # what is left after prefixes have been taken off
    for k, v in s.facts.items():
        if k[0] == "disc" and k[1][0] == "app" and k[1][1] == "str.strip_prefix" and v in (0, 1):
            pre, e = rest_of(k[1][2][0], x, known_set), pattern(k[1][2][1], known_set)
            if pre is not None and e is not None:
                out.append(must(seq(*pre, e, ANYS)) if v == 1 else no_of(seq(*pre, e)))
        elif k[0] == "app" and k[1] == "str.starts_with" and k[2][0] != x and v in (TRUE, FALSE):
            pre, e = rest_of(k[2][0], x, known_set), pattern(k[2][1], known_set)
            if pre is not None and e is not None:
                out.append(must(seq(*pre, e, ANYS)) if v == TRUE else no_of(seq(*pre, e)))
    # single steps through the characters: where they ended is how many there are
    seen, prev = 0, None
    for e in s.trace:
        if e[0] in ("next", "peek", "end") and e[1] == chars:
            pos = position(e[2], x, chars) if e[0] == "next" else None
            if pos is not None:
                seen = max(seen, pos[1] + 1)
            elif (e[0] == "end" or e[0] == "peek" and e[2] == 0) and not (prev and prev[0] == "loop") and seen <= 8:
                out.append(must(rep(seen, seen, ("set", cset.CHARS)) if seen else ("eps",)))
        prev = e
    if seen:
        out.append(must(seq(*[("set", cset.CHARS)] * seen, ANYS)))
    # single bytes and characters of the string
    at = {}
    for k, v in s.facts.items():
        if k[0] == "app" and k[1] in FLIP and len(k[2]) == 2 and v in (TRUE, FALSE):
            op, a = k[1], k[2]
            if is_c(a[0]):
                op, a = FLIP[op], (a[1], a[0])
            pos = position(a[0], x, chars)
            if pos is not None and is_c(a[1]) and isinstance(a[1][2], int):
                cs = cset.cmp(op, a[1][2])
                at[pos] = cset.inter(at.get(pos, cset.ALL), cs if v == TRUE else cset.compl(cs))
    for t, cs in list(s.csets.items()) + [(k[2][0], k) for k, v in s.facts.items() if k[0] == "app" and k[1] == "inset"]:
        pos = position(t, x, chars)
        if pos is None:
            continue
        if isinstance(cs, tuple) and cs and cs[0] == "app":
            val = s.facts[cs]
            base = cs[2][1]
            cs = base if val == TRUE else cset.compl(base)
        kind, i = pos
        cur = at.get(pos, cset.ALL)
        at[pos] = cset.inter(cur, cs)
    for t in list(s.facts):
        if t[0] in ("val", "ne") and len(t) == 2:
            pos = position(t[1], x, chars)
            if pos is None:
                continue
            v = s.facts[t]
            if t[0] == "val" and isinstance(v[2], int):
                at[pos] = cset.inter(at.get(pos, cset.ALL), cset.single(v[2]))
            elif t[0] == "ne":
                at[pos] = cset.diff(at.get(pos, cset.ALL), cset.of([c[2] for c in v if isinstance(c[2], int)]))
    for (kind, i), cs in at.items():
        if kind == "byte":
            # byte i in cs; the texts whose first i characters are not all ASCII are left unconstrained
            a = cset.inter(cs, ASCII)
            no = cset.diff(ASCII, cs)
            out.append(no_of(seq(*[("set", ASCII)] * i, ("set", no))))
            if cset.subset(cs, ASCII) and i == 0:
                out.append(must(seq(("set", a), ANYS)))
        else:
            out.append(no_of(seq(*[("set", cset.CHARS)] * i, ("set", cset.diff(cset.CHARS, cs)))))
    # completed searches through all characters
    for e in s.trace:
        if e[0] == "loop":
            cs = each(e, chars)
            if cs is not None and ("end", chars) in s.trace:
                out.append(only(cs))
    return out


def pattern(t, known_set):
    if is_c(t, "str"):
        return lit(t[2])
    cs = known_set(t)
    return None if cs is None else ("set", cs)


def rest_of(t, x, known_set):
    """the prefixes taken off x where the string term t is what is left of x"""
    if t == x:
        return ()
    if t[0] == "fld" and t[2:] == ("Some", "0") and t[1][0] == "app" and t[1][1] == "str.strip_prefix":
        pre, e = rest_of(t[1][2][0], x, known_set), pattern(t[1][2][1], known_set)
        return None if pre is None or e is None else (*pre, e)
    return None


PRED = {}


def pred_lang(X, key, yes):
    """zero-width: the whole text satisfies (or does not) the crate's own predicate over strings"""
    if (id(X), key, yes) in PRED:
        return PRED[id(X), key, yes]
    b = X.P.bodies[key]
    I = Interp(X.P, hooks=[char_preds(X)], max_steps=12000000)
    st = St()
    x = I.param(st, "text", b["locals"][1][0])
    x = I.deref(st, x)
    alts = []
    for s, v in I.run_body(b, key, [x], st, ("root", key)):
        for s2, r in I.branch_bool(s, v):
            if r == yes:
                alts.append(seq(*facts_lang(X, I, x, s2)))
    X.used |= I.inlined | {b["path"]}
    alts = sorted(set(alts), key=repr)
    r = ("not", ("eps",)) if not alts else alts[0] if len(alts) == 1 else ("or", tuple(alts))
    PRED[id(X), key, yes] = r
    return r


def position(t, x, chars):
    """('byte', i) / ('char', i) of string x that term t is"""
    if not isinstance(t, tuple):
        return None
    if t[0] == "elem" and len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) == 3 and is_c(t[2], "int"):
        if t[1] == chars:
            return ("char", t[2][2])
        if t[1] == x:
            return ("byte", t[2][2])
    if t[0] == "elem" and isinstance(t[2], int):
        return ("char", t[2]) if t[1] == chars else ("byte", t[2]) if t[1] == x else None
    if t[0] == "app" and t[1] in ("idx", "cidx", "index") and t[2][0] == x and is_c(t[2][1], "int"):
        return ("byte", t[2][1][2])
    if t[0] == "app" and t[1] == "cast" and t[2]:
        return position(t[2][0], x, chars)
    return None


def each(loop, chars):
    """every element of a finished loop over chars lies in this set (None: not known)"""
    u = ()
    for ev, fs in loop[2]:
        el = [e[2] for e in ev if e[0] == "next" and e[1] == chars]
        if len(el) != 1:
            return None
        cs = [c for (k, c) in fs if k == ("cs", el[0])]
        u = cset.union(u, cs[0] if cs else cset.CHARS)
    return cset.inter(u, cset.CHARS)


def hexes(cs, upper=False):
    if cset.size(cset.inter(cs, cset.CHARS)) > 300:
        return seq(rep(1, 6, ("set", peg.HEX)))
    xs = [("%X" if upper else "%x") % c for a, b in cset.inter(cs, cset.CHARS) for c in range(a, b + 1)]
    return ("or", tuple(lit(h) for h in xs)) if len(xs) > 1 else lit(xs[0])


DEBUG_INT = seq(peg.alt(lit("-"), ("eps",)), rep(1, None, ("set", peg.DIG)))
D1 = rep(1, None, ("set", peg.DIG))
# what {:?} (and {}) write for a finite f64: with a fraction or an exponent ({:?}), or possibly without ({})
SIGNED = ("or", (lit("-"), ("eps",)))
EXP = seq(lit("e"), SIGNED, D1)
DEBUG_FLOAT = seq(SIGNED, D1, ("or", (seq(lit("."), D1, ("or", (EXP, ("eps",)))), EXP)))
DISP_FLOAT = seq(SIGNED, D1, ("or", (seq(lit("."), D1), ("eps",))))


def emitted(s):
    """flat list of emissions and loops of a path"""
    for e in s.trace:
        if e[0] == "emit":
            for p in absint.cat_items(e[2]):
                yield ("p", p)
        elif e[0] == "loop":
            yield ("loop", e)


def piece(p, el, cs, kind=None):
    """language of one emitted term inside the loop over the string's characters"""
    if is_c(p, "str"):
        return lit(p[2])
    if is_c(p, "char"):
        return lit(chr(p[2]))
    q = p
    if q[0] == "disp" and q[1] == "Display":
        q = q[2]
    if q == el:
        return ("set", cset.inter(cs, cset.CHARS))
    if p[0] == "disp" and p[1] in ("lower_hex", "upper_hex"):
        t = p[2]
        while t[0] == "app" and t[1] == "cast":
            t = t[2][0]
        if t == el:
            return hexes(cs, p[1] == "upper_hex")
    raise Odd(show(p)[:80])


def run(ck):
    sys.setrecursionlimit(1000000)
    ck.explanation = ("Every path of the code that writes a value or a name without stored spelling is interpreted abstractly; what it writes (constants, the string itself under the path's conditions, one piece per class of characters) is a language, "
                      "which must be contained in the texts the parser's extracted grammar reads as a value of that kind, with every written piece denoting the character it was written for.")
    ck.rule = "language(written) is contained in language(runs of the parser that build that kind of value), piece by piece with the characters denoted"
    P = dump.load("none")
    X, keys = c03.roots(ck, P)
    for r in ("entry", "identifier"):
        if r not in keys:
            return
        try:
            canon(X, ("fn", keys[r]))
        except (peg.NoModel, absint.Unsupported) as x:
            ck.fail("%s:grammar not understood" % r, str(x)[:200])
            return
    ck.analysed |= X.used
    jobs = []
    api = Api(P)
    V = api.ty("KdlValue")
    vs = [v["n"] for v in P.adts[V]["variants"]]
    key = api.trait_method("KdlValue", "std::fmt::Display", "fmt")
    for kind in ("String", "Integer", "Float", "Bool", "Null"):
        I, res, av = paths(P, key, {0: ("disc", vs.index(kind))}, X)
        ck.used(I)
        ck.ob(res, "KdlValue::fmt:%s:does not return" % kind, "")
        pay = ("fld", av[0], kind, "0")
        done(ck, "KdlValue::fmt:" + kind, kind, X, I, res, pay, jobs)
    # names
    key = api.trait_method("KdlIdentifier", "std::fmt::Display", "fmt")
    I, res, av = paths(P, key, {}, X)
    ck.used(I)
    repr_ = api.field("KdlIdentifier", "repr", av[0])
    val = api.field("KdlIdentifier", "value", av[0])
    res = [(s, v) for s, v in res if s.facts.get(("disc", repr_)) in (0, ("not", frozenset([1])))]
    ck.ob(res, "KdlIdentifier::fmt:no path without a spelling", "")
    done(ck, "KdlIdentifier::fmt", "String", X, I, res, val, jobs, root="identifier")
    # the bare spelling chosen when a v1 entry is respelled
    spelled(ck, P, api, X, vs, jobs)
    solve(ck, X, keys, jobs)


def char_preds(X):
    """calls of the crate's own predicates over one character stand for the set they accept"""
    memo = {}

    def hook(I, st, c, site):
        b = X.P.bodies.get(c.key)
        if b is None or b["argc"] != 1 or len(c.args) != 1:
            return None
        ty = [X.P.types[b["locals"][i][0]] for i in (0, 1)]
        if ty[0]["k"] != "prim" or ty[0]["s"] != "bool":
            return None
        if ty[1]["s"] in ("&str", "&'{erased} str", "&'static str") or ty[1]["k"] == "ref" and ty[1]["s"].endswith("str"):
            x = I.snap(st, I.deref(st, c.args[0]))
            return None if is_c(x) else [(st, absint.app("strpred", x, absint.S(c.key)))]
        if ty[1]["k"] != "prim" or ty[1]["s"] != "char":
            return None
        ch = I.deref(st, c.args[0])
        if is_c(ch) or ch not in st.csets:
            return None
        if c.key not in memo:
            try:
                memo[c.key] = X.charset(("fn", c.path, c.key, c.key, None, None, (), True))
            except (peg.NoModel, absint.Unsupported):
                memo[c.key] = None
        cs = memo[c.key]
        return None if cs is None else [(st, absint.app("inset", ch, cs))]
    return hook


def paths(P, key, fix, X):
    b = P.bodies[key]
    I = Interp(P, hooks=[char_preds(X)], max_steps=12000000)
    I.acc_cs = True
    st = St()
    av = [I.param(st, "a%d" % i, b["locals"][i + 1][0]) for i in range(b["argc"])]
    for i, f in fix.items():
        st.facts[("disc", av[i])] = f[1]
    return I, I.run_body(b, key, av, st, ("root", key)), av


def done(ck, name, kind, X, I, res, pay, jobs, root="entry"):
    for n, (s, v) in enumerate(res):
        v = I.known(s, v)
        if not (v[0] == "agg" and v[2] == 0):
            continue                       # the sink failed
        ck.count("paths")
        try:
            if kind == "String":
                strings(ck, name, X, I, s, pay, jobs, root)
            else:
                others(ck, name, kind, I, s, pay, jobs)
        except Odd as x:
            ck.fail("%s:written text not understood" % name, str(x))


def strings(ck, name, X, I, s, x, jobs, root):
    em = list(emitted(s))
    plain = [p for k, p in em if k == "p"]
    want = lambda t: t.startswith("char:") or t == "String"
    if len(em) == 1 and em[0][0] == "p" and strip(em[0][1]) == x:
        jobs.append((name + ":bare", seq(*facts_lang(X, I, x, s), ANYS), root, ("plain",), "a string is written bare that is not read back as itself"))
        return
    parts, loops = [], 0
    chars = ("app", "chars", (x,))
    loopev = {e[1]: e for k, e in em if k == "loop"}
    for k, p in em:
        if k == "p" and p[0] != "loopacc":
            parts.append(piece(p, None, ()))
            continue
        if k == "p":
            if p[1] not in loopev:
                raise Odd("text gathered by something else than a loop over the characters")
            its = []
            els = {e[2] for ev, fs in loopev[p[1]][2] for e in ev if e[0] == "next" and e[1] == chars}
            if len(els) != 1:
                raise Odd("loop that does not take one character at a time")
            its = [([q for y in d for q in absint.cat_items(y)], fs, list(els)) for d, fs in p[2]]
        else:
            its = [([q for e in ev if e[0] == "emit" for q in absint.cat_items(e[2])], fs,
                    [e[2] for e in ev if e[0] == "next" and e[1] == chars]) for ev, fs in p[2]]
            if not any(o for o, fs, el in its):
                continue               # a loop that only looks
        loops += 1
        alts = []
        for out, fs, el in its:
            if len(el) != 1:
                raise Odd("loop that does not take one character at a time")
            cs = [c for (k2, c) in fs if k2 == ("cs", el[0])]
            cs = cset.inter(cs[0] if cs else cset.CHARS, cset.CHARS)
            eqs = [c for (k2, c) in fs if k2 == ("val", el[0])]
            if eqs and is_c(eqs[0], "char"):
                cs = cset.inter(cs, cset.single(eqs[0][2]))
            if not cs:
                continue
            pc = seq(*[piece(q, el[0], cs) for q in out])
            if pc == ("eps",):
                ck.fail("%s:characters are not written" % name, cset.show(cs))
                continue
            ck.ob(True, "")
            alts.append(pc)
            one = cs[0][0] if cset.size(cs) == 1 else None
            self_ = len(out) == 1 and strip(out[0]) == el[0]
            mode = ("identity",) if self_ else ("hex",) if any(q[0] == "disp" and q[1].endswith("_hex") for q in out) else ("char", one, cs)
            jobs.append((name + ":piece", seq(lit('"'), pc, lit('"')), root, mode, "a character is written as something that is not read back as it"))
        if alts:
            parts.append(("star", alts[0] if len(alts) == 1 else ("or", tuple(sorted(set(alts), key=repr)))))
    if loops == 0:
        # constants only: the path must fix the string
        f = s.facts.get(("val", x))
        empty = s.facts.get(("val", ("app", "len", (x,)))) == absint.I(0) or f == absint.S("") or any(e == ("end", chars) for e in s.trace) and not any(e[0] in ("next", "loop") for e in s.trace)
        if not (empty and all(is_c(p, "str") for p in plain) and "".join(p[2] for p in plain) == '""'):
            # an empty loop is fine, too
            raise Odd(" ".join(show(p)[:40] for p in plain))
    elif loops != 1 or ("end", chars) not in s.trace:
        raise Odd("more than one loop, or one that may stop early")
    jobs.append((name + ":quoted", seq(*parts), root, ("any",), "a quoted string is written that is not read back as a string"))


def strip(p):
    return p[2] if p[0] == "disp" and p[1] == "Display" else p


def others(ck, name, kind, I, s, x, jobs):
    parts = []
    for k, p in emitted(s):
        if k != "p":
            raise Odd("loop")
        if is_c(p, "str"):
            parts.append(lit(p[2]))
        elif p[0] == "disp" and p[2] == x and p[1] in ("Debug", "Display"):
            if kind == "Integer":
                parts.append(DEBUG_INT)
            elif kind == "Bool":
                vals = {True: ("true",), False: ("false",)}
                f = s.facts.get(x)
                w = ["true"] if f == TRUE else ["false"] if f == FALSE else ["true", "false"]
                parts.append(("boolean", w))
            elif kind == "Float":
                parts.append(DEBUG_FLOAT if p[1] == "Debug" else DISP_FLOAT)
            else:
                raise Odd(show(p))
        elif strip(p) == x and kind == "Integer":
            parts.append(DEBUG_INT)
        else:
            raise Odd(show(p)[:80])
    if kind == "Bool":
        f = [b for b in (True, False) if s.facts.get(x) in (None, TRUE if b else FALSE)]
        for b in f:
            ps = [lit("true" if b else "false") if p[0] == "boolean" else p for p in parts]
            jobs.append((name, seq(*ps), "entry", ("kind", ("Bool:True", "Bool:1") if b else ("Bool:False", "Bool:0")), "a boolean is not read back as itself"))
        return
    if kind == "Float":
        for cls in floats(s, x):
            num = [p for p in parts if p in (DEBUG_FLOAT, DISP_FLOAT)]
            if cls == "finite":
                jobs.append((name, seq(*parts), "entry", ("kind", ("Float",)), "a finite float is written as something else"))
            elif num:
                ck.fail("%s:%s is written as a number" % (name, cls), "{:?} writes it as a bare word")
            else:
                jobs.append((name, seq(*parts), "entry", ("nan",) if cls == "nan" else ("kind", ("Float:" + (INF if cls == "inf" else NINF),)), "%s is not read back as itself" % cls))
        return
    jobs.append((name, seq(*parts), "entry", ("kind", (kind,)), "the value is not read back as %s" % kind))


def floats(s, x):
    """classes of floats the path's facts allow"""
    out = []
    for c in ("finite", "inf", "ninf", "nan"):
        okc = True
        for k, v in s.facts.items():
            if k[0] == "val" and k[1] == x:
                okc &= {INF: "inf", NINF: "ninf"}.get(v[2], "finite") == c
            elif k[0] == "ne" and k[1] == x:
                okc &= not ((c == "inf" and ("c", "float", INF) in v) or (c == "ninf" and ("c", "float", NINF) in v))
            elif k[0] == "app" and v in (TRUE, FALSE) and k[2] and k[2][0] == x:
                n = str(k[1]).rsplit("::", 1)[-1]
                t = {"is_nan": c == "nan", "is_infinite": c in ("inf", "ninf"), "is_finite": c == "finite"}.get(n)
                if t is None and c in ("inf", "ninf"):
                    t = {"is_sign_positive": c == "inf", "is_sign_negative": c == "ninf"}.get(n)
                    if n in ("Lt", "Le", "Gt", "Ge") and k[2][1] == ("c", "float", "0000000000000000"):
                        t = (c == "ninf") if n in ("Lt", "Le") else (c == "inf")
                if t is not None:
                    okc &= t == (v == TRUE)
        if okc:
            out.append(c)
    return out


def spelled(ck, P, api, X, vs, jobs):
    k = api.method("KdlEntry", "ensure_v2")
    b = P.bodies[k]
    I = Interp(P, hooks=[char_preds(X)], max_steps=12000000)
    I.acc_cs = True
    st = St()
    cell = ("self",)
    base = sym("self")
    st.mem[cell] = base
    I.tyof[base] = api.tyid(api.ty("KdlEntry"))
    val = api.field("KdlEntry", "value", base)
    st.facts[("disc", val)] = vs.index("String")
    res = I.run_body(b, k, [("ref", cell, ())], st, ("root", k))
    ck.used(I)
    x = ("fld", val, "String", "0")
    n = 0
    for s, v in res:
        o = I.freeze(s, s.mem[cell])
        for t in peg.subterms(o):
            if t[0] == "agg" and t[1].endswith("::KdlEntryFormat"):
                flds = [f["n"] for f in P.adts[t[1]]["variants"][0]["f"]] if "f" in P.adts[t[1]]["variants"][0] else None
                if any(strip(y) == x for y in t[4]):
                    n += 1
                    jobs.append(("KdlEntry::ensure_v2:bare", seq(*facts_lang(X, I, x, s), ANYS), "entry", ("plain",), "a string is spelled bare that is not read back as itself"))
    ck.note("ensure_v2: %d paths spell a string bare" % n)


def solve(ck, X, keys, jobs):
    merged = {}
    for name, lang, root, mode, why in jobs:
        merged.setdefault((name, root, mode, why), set()).add(lang)
    todo = []
    for (name, root, mode, why), langs in merged.items():
        langs = sorted(langs, key=repr)
        todo.append(((name, root, mode, langs[0] if len(langs) == 1 else ("or", tuple(langs))), why))

    def go(item):
        (name, root, mode, lang), why = item

        def f():
            L = Lang(X.expand)
            L.want = wanted(mode)
            A = Lang()
            w, side, n, cls = difference(A, seq(lang, ("eof",)), L, seq(("fn", keys[root]), ("eof",)), Count({'"""': 0, '/*': 1} if mode[0] == "any" else {'"""': 0}), sub=True)
            return w, n
        return f
    # one process for many small jobs
    import os
    w = 8
    groups = [todo[i::w] for i in range(w)]

    def batch(items):
        fs = [go(i) for i in items]
        return lambda: [f() for f in fs]
    for items, (st, v) in zip(groups, parallel([batch(i) for i in groups])):
        if st == "ok":
            for ((name, root, mode, lang), why), (w_, n) in zip(items, v):
                ck.count("inclusions")
                ck.count("automaton_states", n)
                ck.ob(w_ is None, "%s:%s" % (name, why), "%r" % (w_,))
        elif items:
            ck.fail("analysis failed", "%s %s" % (st, str(v)[:200]))


def wanted(mode):
    from .c04 import isnan
    k = mode[0]
    if k == "kind":
        return lambda t: t in mode[1]
    if k == "nan":
        return isnan
    if k in ("plain", "identity"):
        return lambda t: t == "String"
    if k == "hex":
        return lambda t: t in ("String", "char:hex")
    if k == "char":
        one = mode[1]
        return lambda t: t == "String" or (one is not None and t == "char:%d" % one)
    return lambda t: t == "String" or t.startswith("char:") and t != "char:?"
