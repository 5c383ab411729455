"""Grammar extraction from parser-combinator code and exact language comparison.

`Extract` abstractly interprets the parser functions of the crate: combinator calls
stay symbolic terms, `parse_next` is a three-way fork (ok / backtrack / cut), and the
decision tree of each function becomes one node of a parsing-expression grammar.
`Lang` compares the (regular) languages of such grammars with reference grammars by
derivatives of boolean combinations of continuations (alternating automata,
canonicalised as BDDs), so that ordered choice, possessive repetition, look-ahead and
cut are treated exactly.  Nothing is run; no solver is used.
"""
from . import absint, cset
from .absint import Interp, St, sym, app, is_c, S, I as INT, C, cat, cat_items, OPT, RES, UNIT, mentions

EM = "winnow::error::ErrMode"


class NoModel(Exception):
    """the construct is outside the combinators the extraction knows"""


DIG = ((48, 57),)
HEX = cset.norm([(48, 57), (65, 70), (97, 102)])
OCT = ((48, 55),)
ALPHA = cset.norm([(65, 90), (97, 122)])
FNSETS = {"is_dec_digit": DIG, "is_hex_digit": HEX, "is_oct_digit": OCT, "is_alpha": ALPHA, "is_alphanum": cset.union(DIG, ALPHA),
          "is_space": cset.of([32, 9]), "is_newline": cset.of([10])}
TOKFNS = {"digit1": (1, DIG), "digit0": (0, DIG), "hex_digit1": (1, HEX), "hex_digit0": (0, HEX), "oct_digit1": (1, OCT), "oct_digit0": (0, OCT),
          "alpha1": (1, ALPHA), "alpha0": (0, ALPHA), "alphanumeric1": (1, cset.union(DIG, ALPHA)), "space1": (1, cset.of([32, 9])),
          "space0": (0, cset.of([32, 9]))}


def seq(*es):
    out = []
    for e in es:
        if e[0] == "seq":
            out += e[1]
        elif e[0] != "eps":
            out.append(e)
    return ("eps",) if not out else out[0] if len(out) == 1 else ("seq", tuple(out))


def lit(s):
    return seq(*[("set", cset.single(ord(c))) for c in s])


def caseless(s):
    return seq(*[("set", cset.of([ord(c.lower()), ord(c.upper())])) for c in s])


def alt(*es):
    return es[0] if len(es) == 1 else ("alt", tuple(es))


def rep(lo, hi, e):
    return ("rep", lo, hi, e)


def subterms(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield from subterms(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        yield from subterms(y)


class Extract:
    def __init__(self, P, input_ty="Recoverable"):
        self.P = P
        self.fns = {}
        self.shapes = {}
        self.busy = set()
        self.cells = {}
        self.used = set()
        self.pvals = {}
        self.I = None
        self.unmodelled = set()

    # ------------------------------------------------------------ terms
    def interp(self):
        I = Interp(self.P, hooks=[self.hook], max_depth=60)
        I.display_tokens = {p for p in self.P.adts if p.startswith("crate::")}
        return I

    def rng(self, t):
        if is_c(t, "int"):
            return t[2], t[2]
        if t[0] == "agg":
            n = t[1].rsplit("::", 1)[-1]
            v = [x[2] if is_c(x, "int") else None for x in t[4]]
            if n == "RangeFrom":
                return v[0], None
            if n == "Range":
                return v[0], v[1] - 1
            if n == "RangeFull":
                return 0, None
            if n == "RangeTo":
                return 0, v[0] - 1
            if n == "RangeToInclusive":
                return 0, v[0]
            if n == "RangeInclusive":
                return v[0], v[1]
        if t[0] == "app" and str(t[1]).endswith("RangeInclusive::<Idx>::new"):
            return t[2][0][2], t[2][1][2]
        raise NoModel("repetition bounds %s" % absint.show(t))

    def charset(self, t):
        """set of characters accepted by a token set / predicate"""
        if is_c(t, "char"):
            return cset.single(t[2])
        if is_c(t, "str"):
            return cset.of([ord(c) for c in t[2]])
        if t[0] == "agg" and t[1] in ("array", "tuple"):
            s = ()
            for x in t[4]:
                s = cset.union(s, self.charset(x))
            return s
        if t[0] == "agg" and "Range" in t[1]:
            n = t[1].rsplit("::", 1)[-1]
            v = [x[2] for x in t[4] if is_c(x)]
            if n == "RangeInclusive":
                return cset.rng(v[0], v[1])
            if n == "Range":
                return cset.rng(v[0], v[1] - 1)
            if n == "RangeFrom":
                return cset.rng(v[0], 0x10FFFF)
            if n == "RangeFull":
                return cset.CHARS
        if t[0] == "app" and str(t[1]).endswith("RangeInclusive::<Idx>::new"):
            return cset.rng(t[2][0][2], t[2][1][2])
        if t[0] == "fn" and t[1].rsplit("::", 1)[-1] in FNSETS and not t[7]:
            return FNSETS[t[1].rsplit("::", 1)[-1]]
        if t[0] in ("fn", "clo"):
            I = self.interp()
            st = St()
            c = sym("ch")
            for i, ty in enumerate(self.P.types):
                if ty and ty["k"] == "prim" and ty["s"] == "char":
                    I.tyof[c] = i
                    break
            st.csets[c] = cset.CHARS
            st.mem[("chp",)] = t
            rs = self.models(I).callf(I, st, ("ref", ("chp",), ()) if t[0] == "clo" else t, [c], ("cs",))
            s = ()
            for s1, v in rs:
                for s2, b in I.branch_bool(s1, v):
                    if b:
                        s = cset.union(s, s2.csets.get(c, cset.CHARS))
                    extra = [k for k in s2.facts if mentions(k, lambda x: x == c) and not (k[0] in ("val", "ne"))]
                    if extra and not all(k[0] == "app" and k[1] in ("inset", "Eq", "Le", "Lt", "Ge", "Gt") for k in extra):
                        raise NoModel("character predicate %s" % absint.show(extra[0]))
            self.used |= I.inlined
            return s
        raise NoModel("token set %s" % absint.show(t))

    def models(self, I):
        return I.models

    # ------------------------------------------------------------ parser terms -> grammar
    def ast(self, t):
        k = t[0]
        if k in ("exact", "atleast", "optsome", "optnone"):
            return self.part_ast(t)
        if k == "c":
            if t[1] == "str":
                return lit(t[2])
            if t[1] == "char":
                return ("set", cset.single(t[2]))
            if t[1] == "unit":
                return ("eps",)
        if k == "agg":
            if t[1] == "tuple":
                return seq(*[self.ast(x) for x in t[4]])
            if t[1] == "array":
                return seq(*[self.ast(x) for x in t[4]])
            if t[1].endswith("Caseless"):
                return caseless(t[4][0][2])
        if k == "fn":
            n = t[1].rsplit("::", 1)[-1]
            if not t[7]:
                if n == "any":
                    return ("set", cset.CHARS)
                if n == "eof":
                    return ("eof",)
                if n == "empty":
                    return ("eps",)
                if n == "fail":
                    return ("fail",)
                if n == "rest":
                    return rep(0, None, ("set", cset.CHARS))
                if n in TOKFNS:
                    return rep(TOKFNS[n][0], None, ("set", TOKFNS[n][1]))
                if n in ("newline",):
                    return lit("\n")
                if n == "line_ending":
                    return alt(lit("\n"), lit("\r\n"))
                raise NoModel("parser " + t[1])
            key = t[3] or t[2] or t[1]
            return ("fn", key)
        if k == "clo":
            key = ("clo", t)
            self.cells[key] = t
            return ("fn", key)
        if k == "cat":
            return ("opaque", absint.show(t)[:60])
        if k == "app":
            n = str(t[1]).rsplit("::", 1)[-1]
            a = t[2]
            w = "winnow" in str(t[1])
            if not w:
                return ("opaque", absint.show(t)[:60])
            if n == "alt":
                items = a[0][4]
                return alt(*[self.ast(x) for x in items])
            if n == "opt":
                return alt(self.ast(a[0]), ("eps",))
            if n == "trace":
                return self.ast(a[1])
            if n == "cut_err":
                return ("cut", self.ast(a[0]))
            if n in ("context", "void", "take", "with_taken", "with_span", "span", "output_into", "by_ref", "recognize", "err_into", "complete_err", "parse_to", "default_value"):
                return self.ast(a[0])
            if n == "backtrack_err":
                raise NoModel("backtrack_err")
            if n in ("map", "value"):
                if n == "map":
                    vals = self.constants(a[0])
                    if vals and len(vals) > 1:
                        out = []
                        for src, v in vals:
                            e, tg = self.ast(src), self.tag("map", a[1], v)
                            out.append(("tag", tg, e) if tg else e)
                        return alt(*out)
                e = self.ast(a[0])
                tg = self.tag(n, a[1])
                return ("tag", tg, e) if tg else e
            if n in ("try_map", "parse_to"):
                e = self.ast(a[0])
                return e
            if n in ("verify_map", "verify"):
                return self.verify(self.ast(a[0]), n, a[1], a[0])
            if n == "repeat":
                lo, hi = self.rng(a[0])
                return rep(lo, hi, self.ast(a[1]))
            if n == "repeat_till":
                lo, hi = self.rng(a[0])
                e, z = self.ast(a[1]), self.ast(a[2])
                return ("till", lo, hi, e, z)
            if n in ("separated",):
                lo, hi = self.rng(a[0])
                e, s = self.ast(a[1]), self.ast(a[2])
                if hi is not None:
                    raise NoModel("bounded separated")
                body = seq(e, rep(max(0, lo - 1), None, seq(s, e)))
                return body if lo >= 1 else alt(body, ("eps",))
            if n == "fold" and "Repeat" in str(t[1]):
                return self.ast(a[0])
            if n == "preceded" or n == "terminated":
                return seq(self.ast(a[0]), self.ast(a[1]))
            if n in ("delimited", "separated_pair"):
                return seq(*[self.ast(x) for x in a])
            if n == "not":
                return ("not", self.ast(a[0]))
            if n == "peek":
                return ("peek", self.ast(a[0]))
            if n == "one_of":
                return ("set", self.charset(a[0]))
            if n == "none_of":
                return ("set", cset.diff(cset.CHARS, self.charset(a[0])))
            if n == "take_while":
                lo, hi = self.rng(a[0])
                return rep(lo, hi, ("set", self.charset(a[1])))
            if n == "take_till":
                lo, hi = self.rng(a[0])
                return rep(lo, hi, ("set", cset.diff(cset.CHARS, self.charset(a[1]))))
            if n == "take" and is_c(a[0], "int"):
                return rep(a[0][2], a[0][2], ("set", cset.CHARS))
            if n == "literal":
                return self.ast(a[0])
            if n == "Caseless":
                return caseless(a[0][2])
            if n == "cond" and is_c(a[0], "bool"):
                return self.ast(a[1]) if a[0][2] else ("eps",)
            raise NoModel("combinator " + n)
        if k in ("fld", "sym", "elem"):
            return ("opaque", absint.show(t)[:60])
        raise NoModel("parser term %s" % absint.show(t)[:80])

    def constants(self, t):
        """(parser, constant it yields) for an alternative of constants, else None"""
        if t[0] == "app" and "winnow" in str(t[1]):
            n = str(t[1]).rsplit("::", 1)[-1]
            if n == "alt":
                out = []
                for x in t[2][0][4]:
                    c = self.constants(x)
                    if c is None:
                        return None
                    out += c
                return out
            if n == "value" and t[2][1][0] == "c":
                return [(t[2][0], t[2][1])]
            if n in ("context", "by_ref"):
                return self.constants(t[2][0])
            if n == "trace":
                return self.constants(t[2][1])
        return None

    def onechar(self, t):
        """does this parser yield the one character it takes?"""
        if t[0] == "c":
            return t[1] == "char"
        if t[0] == "fn":
            return t[1].rsplit("::", 1)[-1] == "any" and not t[7]
        if t[0] == "app" and "winnow" in str(t[1]):
            n = str(t[1]).rsplit("::", 1)[-1]
            if n in ("one_of", "none_of"):
                return True
            if n in ("context", "by_ref", "cut_err", "verify"):
                return self.onechar(t[2][0])
            if n == "trace":
                return self.onechar(t[2][1])
            if n == "preceded":
                return self.onechar(t[2][1])
            if n == "terminated":
                return self.onechar(t[2][0])
            if n == "alt":
                return all(self.onechar(x) for x in t[2][0][4])
        return False

    def verify_char(self, e, n, f):
        """verify / verify_map of a single character: the characters kept, by what they become"""
        if e[0] in ("cut", "tag"):
            r = self.verify_char(e[-1], n, f)
            return r and (*e[:-1], r)
        if e[0] == "seq" and e[1][-1][0] == "set" and all(x[0] in ("not", "peek") for x in e[1][:-1]):
            r = self.verify_char(e[1][-1], n, f)
            return r and seq(*e[1][:-1], r)
        if e[0] == "alt":
            rs = [self.verify_char(x, n, f) for x in e[1]]
            return alt(*rs) if all(rs) else None
        if e[0] != "set":
            return None
        I = self.interp()
        st = St()
        c = sym("ch")
        for i, ty in enumerate(self.P.types):
            if ty and ty["k"] == "prim" and ty["s"] == "char":
                I.tyof[c] = i
                break
        st.csets[c] = e[1]
        st.mem[("vf",)] = f
        st.mem[("va",)] = c
        arg = c if n == "verify_map" else ("ref", ("va",), ())
        out = {}
        for s, v in self.models(I).callf(I, st, ("ref", ("vf",), ()) if f[0] == "clo" else f, [arg], ("vm",)):
            if n == "verify":
                rs = [(s2, c) for s2, b in I.branch_bool(s, v) if b]
            elif v[0] == "agg" and v[1] == OPT:
                rs = [(s, I.known(s, v[4][0]))] if v[2] == 1 else []
            else:
                # then_some and the like: an Option by a condition is split where it is used
                return None
            for s2, o in rs:
                extra = [k for k in s2.facts if mentions(k, lambda x: x == c) and k[0] not in ("val", "ne")]
                if not all(k[0] == "app" and k[1] in ("inset", "Eq", "Ne", "Le", "Lt", "Ge", "Gt") for k in extra):
                    return None
                cs = s2.csets.get(c, e[1])
                val = s2.facts.get(("val", c))
                if val is not None and isinstance(val[2], int):
                    cs = cset.inter(cs, cset.single(val[2]))
                if o == c or (val is not None and o == val):
                    if n == "verify" or cset.size(cs) > 64:
                        k = "same"
                    else:
                        for a, b in cs:
                            for x in range(a, b + 1):
                                out["char:%d" % x] = cset.union(out.get("char:%d" % x, ()), cset.single(x))
                        continue
                else:
                    k = "char:%d" % o[2] if is_c(o, "char") else "char:?"
                out[k] = cset.union(out.get(k, ()), cs)
        self.used |= I.inlined
        alts = [("set", cs) if k == "same" else ("tag", k, ("set", cs)) for k, cs in sorted(out.items()) if cs]
        return alt(*alts) if alts else ("fail",)

    def tag(self, n, f, arg=sym("mapped")):
        """variant of the public value type produced by a mapping, if evident"""
        try:
            if n == "value":
                v = f
            else:
                I = self.interp()
                st = St()
                rs = self.models(I).callf(I, st, f, [arg], ("map",))
                vs = {self.kdl(r) for s, r in rs}
                return vs.pop() if len(vs) == 1 else None
            return self.kdl(v)
        except (absint.Unsupported, absint.Budget, NoModel):
            return None

    def kdl(self, v):
        if v[0] == "agg" and v[1] == OPT and v[2] == 1:
            v = v[4][0]
        if is_c(v, "char"):
            return "char:%d" % v[2]
        if v[0] == "app" and "char::" in str(v[1]) and mentions(v, lambda x: x == sym("mapped")):
            return "char:?"
        if v[0] == "agg" and v[1].endswith("::KdlValue"):
            if v[3] == "Bool" and is_c(v[4][0], "bool"):
                return "Bool:" + str(v[4][0][2])
            if v[3] == "Float" and v[4][0][0] == "c":
                return "Float:%s" % (v[4][0][2],)
            return v[3]
        return None

    def tags(self, e, seen=None):
        seen = seen if seen is not None else set()
        out = set()
        if e[0] == "tag":
            return {e[1]}
        if e[0] == "fn":
            if e in seen:
                return out
            seen.add(e)
            return self.tags(self.expand(e), seen)
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out |= self.tags(x, seen)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        out |= self.tags(y, seen)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, tuple) and z and isinstance(z[0], str):
                                out |= self.tags(z, seen)
        return out

    def verify(self, e, n, f, src):
        """verify / verify_map: what does the closure reject?"""
        if self.onechar(src):
            r = self.verify_char(e, n, f)
            if r is not None:
                return r
        I = self.interp()
        st = St()
        vt = self.valueterm(src, e)
        st.mem[("vf",)] = f
        st.mem[("va",)] = vt
        arg = vt if n == "verify_map" else ("ref", ("va",), ())
        rs = self.models(I).callf(I, st, ("ref", ("vf",), ()) if f[0] == "clo" else f, [arg], ("vm",))
        self.used |= I.inlined
        rej, acc = [], []
        for s, v in rs:
            if n == "verify":
                for s2, b in I.branch_bool(s, v):
                    (acc if b else rej).append((s2, None))
            elif v[0] == "agg" and v[1] == OPT:
                (acc if v[2] == 1 else rej).append((s, v))
            elif v[0] == "app" and str(v[1]).endswith("from_u32"):
                hx = any(y[0] == "app" and "from_str_radix" in str(y[1]) and y[2][-1] == INT(16) for y in subterms(v))
                return ("tag", "char:hex" if hx else "char:?", ("scalar", e))
            else:
                raise NoModel("verify on %s" % absint.show(v)[:60])
        if not rej:
            return e
        # rejected texts: equality with constants
        txt = sym("text")
        excl, incl = set(), set()
        for s, v in rej:
            eqs = [k for k, b in s.facts.items() if k[0] == "app" and k[1] == "Eq" and txt in k[2] and b == absint.TRUE]
            if len(eqs) == 1:
                o = [x for x in eqs[0][2] if x != txt]
                if o and is_c(o[0], "str"):
                    excl.add(o[0][2])
                    continue
            one = [k for k, b in s.facts.items() if k[0] == "app" and k[1] == "oneof" and k[2][0] == txt and b == absint.TRUE]
            if len(one) == 1 and not eqs and all(is_c(x, "str") for x in one[0][2][1]):
                excl |= {x[2] for x in one[0][2][1]}
                continue
            raise NoModel("verify condition")
        return ("xset", e, frozenset(excl))

    def valueterm(self, src, e):
        """abstract output value of a parser, for verify closures"""
        k = src[0]
        if k == "app":
            n = str(src[1]).rsplit("::", 1)[-1]
            if n in ("repeat", "take", "take_while", "take_till"):
                return sym("text")
            if n in ("context", "by_ref"):
                return self.valueterm(src[2][0], e)
            if n in ("trace",):
                return self.valueterm(src[2][1], e)
            if n == "cut_err":
                return self.valueterm(src[2][0], e)
            if n == "map":
                I = self.interp()
                inner = self.valueterm(src[2][0], e)
                rs = self.models(I).callf(I, St(), src[2][1], [inner], ("vt",))
                if len(rs) == 1:
                    return rs[0][1]
        if k == "agg" and src[1] == "tuple":
            return ("agg", "tuple", 0, "", tuple(self.valueterm(x, e) for x in src[4]))
        tg = self.tags(e)
        if tg == {"String"}:
            vp = [p for p in self.P.adts if p.endswith("::KdlValue") and p.startswith("crate::")][0]
            vi = [i for i, x in enumerate(self.P.adts[vp]["variants"]) if x["n"] == "String"][0]
            v = ("agg", vp, vi, "String", (sym("text"),))
            key = src[3] if k == "fn" else None
            b = self.P.bodies.get(key) if key else None
            if b is not None and "Option<" in self.P.types[b["locals"][0][0]]["s"]:
                return absint.some(v)
            return v
        return sym("parsed")

    # ------------------------------------------------------------ functions
    def expand(self, e):
        key = e[1]
        if key in self.fns:
            return self.fns[key]
        self.fns[key] = ("rec", key)
        try:
            r = self.tree_of(key)
        except BaseException:
            del self.fns[key]
            raise
        self.fns[key] = r
        return r

    def tree_of(self, key):
        I = self.interp()
        st = St()
        if isinstance(key, tuple) and key[0] == "clo":
            clo = self.cells[key]
            b = self.P.bodies.get(clo[1]) or self.P.bodies.get(clo[2])
            if b is None:
                raise NoModel("closure parser")
            st.mem[("input",)] = sym("input")
            st.mem[("self",)] = clo
            t = self.P.types[b["locals"][1][0]]
            first = ("ref", ("self",), ()) if t["k"] == "ref" else clo
            rs = I.run_body(b, clo[1], [first, ("ref", ("input",), ())], st, ("peg", str(key)[:40]))
        else:
            b = self.P.bodies.get(key) or self.P.bodies.get(key.split("@")[0])
            if b is None or b["argc"] < 1:
                raise NoModel("parser function %s" % key)
            st.mem[("input",)] = sym("input")
            I.tyof[sym("input")] = self.P.peel(b["locals"][b["argc"]][0])
            args = [I.param(st, "a%d" % i, b["locals"][i + 1][0]) for i in range(b["argc"] - 1)] + [("ref", ("input",), ())]
            rs = I.run_body(b, key, args, st, ("peg", key))
            self.used.add(b["path"])
        self.used |= I.inlined
        paths = []
        sk = None
        for s, v in rs:
            ev = [x for x in s.trace if x[0] in ("parse", "dirty", "reset")]
            if any(x[0] == "loop" and mentions(x, lambda y: y and y[0] == "parse") for x in s.trace):
                raise NoModel("hand-written parsing loop in %s" % (key,))
            leaf = self.leaf(I, s, v)
            if leaf == "ok" and not any(x[0] == "dirty" for x in ev):
                a = self.skel(I, s, I.deref(s, v)[4][0])
                sk = a if sk is None else self.meet(sk, a)
            if any(x[0] == "dirty" for x in ev):
                leaf = "cut"
            paths.append((tuple(x for x in ev if x[0] != "dirty"), leaf))
        self.shapes[key] = sk
        t = self.trie(paths, 0, key)
        tg = self.kdl(self.fill(sk, ("tag",), ())) if sk is not None and sk != "?" else None
        return ("tag", tg, t) if tg else t

    def leaf(self, I, s, v):
        v = I.deref(s, v)
        if v[0] == "agg" and v[1] == RES:
            if v[2] == 0:
                return "ok"
            e = v[4][0]
            if e[0] == "agg" and e[1] == EM:
                return "back" if e[3] == "Backtrack" else "cut"
            raise NoModel("parser error %s" % absint.show(e)[:80])
        raise NoModel("parser result %s" % absint.show(v)[:80])

    def trie(self, paths, i, key):
        done = [p for p in paths if len(p[0]) == i]
        more = [p for p in paths if len(p[0]) > i]
        if done and more:
            return ("nd", self.trie(done, i, key), self.trie(more, i, key))
        if done:
            ls = {p[1] for p in done}
            if len(ls) > 1:
                ls.discard("cut") if ls == {"ok", "cut"} else None
                if len(ls) > 1:
                    raise NoModel("result depends on values in %s" % (key,))
                return ("nd", ("eps",), ("cutfail",))
            l = ls.pop()
            return {"ok": ("eps",), "back": ("fail",), "cut": ("cutfail",)}[l]
        heads = {p[0][i][:2] for p in more}
        if len(heads) != 1:
            # value-dependent continuation: nondeterministic
            return ("nd",) + tuple(self.trie([p for p in more if p[0][i][:2] == h], i, key) for h in sorted(heads, key=str))
        h = heads.pop()
        if h[0] == "reset":
            return ("reset", self.trie(more, i + 1, key))
        outs = {}
        for p in more:
            outs.setdefault(p[0][i][2], []).append(p)
        sub = {o: self.trie(ps, i + 1, key) for o, ps in outs.items()}
        oks = tuple((self.guard(h[1], o[1]), t) for o, t in sub.items() if isinstance(o, tuple))
        back = sub.get("back", ("fail",))
        cut = sub.get("cut", ("cutfail",))
        e = self.whole(h[1])
        if len({t for _, t in oks}) == 1 and len(oks) == len(self.parts(self.pvals[h[1]])):
            oks = ((e, oks[0][1]),)          # what was parsed makes no difference
        if back == ("fail",) and cut == ("cutfail",) and len(oks) == 1:
            return seq(oks[0][0], oks[0][1])
        return ("bind", e, oks, back, cut)

    # ------------------------------------------------------------ parse_next
    def parts(self, t):
        """split a parser term into alternatives with known outputs: [(term-path index, term)]"""
        k = t[0]
        if k == "fn" and t[1].rsplit("::", 1)[-1] == "fail" and not t[7]:
            return []
        if k == "app":
            n = str(t[1]).rsplit("::", 1)[-1]
            a = t[2]
            if n == "alt":
                return list(a[0][4])
            if n == "opt":
                inner = self.parts(a[0])
                return [("optsome", t[1], tuple(inner), i) for i in range(len(inner))] + [("optnone", a[0])]
            if n in ("context", "take", "cut_err", "void", "with_span", "with_taken", "by_ref", "map", "value", "peek"):
                inner = self.parts(a[0])
                if len(inner) > 1:
                    if inner[0][0] == "exact" or inner[0][0] == "optsome":
                        return [t]
                    return [("app", t[1], (x,) + a[1:]) for x in inner]
            if n == "trace":
                inner = self.parts(a[1])
                if len(inner) > 1:
                    return [("app", t[1], (a[0], x)) for x in inner]
            try:
                e = self.ast(t) if n in ("repeat", "take_while", "one_of") else None
            except (NoModel, absint.Unsupported):
                e = None
            if e is not None and e[0] == "rep" and e[2] is None and e[3][0] == "set" and cset.size(e[3][1]) == 1:
                one = S(chr(e[3][1][0][0]))
                return [("exact", one, j) for j in range(e[1], 4)] + [("atleast", one, 4)]
            if e is not None and e[0] == "set" and 1 < cset.size(e[1]) <= 4:
                return [C("char", x) for a, z in e[1] for x in range(a, z + 1)]
        return [t]

    def part_ast(self, t):
        if t[0] == "exact":
            return seq(lit(t[1][2] * t[2]), ("not", lit(t[1][2])))
        if t[0] == "atleast":
            self.capped = True
            return ("fail",)
        if t[0] == "optsome":
            xs, i = t[2], t[3]
            if xs[0][0] == "exact":
                return self.part_ast(xs[i])
            return seq(*[("not", self.part_ast(x)) for x in xs[:i]], self.part_ast(xs[i]))
        if t[0] == "optnone":
            return ("not", self.ast(t[1]))
        return self.ast(t)

    def guard(self, pid, i):
        t = self.pvals[pid]
        ps = self.parts(t)
        if len(ps) == 1:
            return self.ast(t)
        if t[0] == "app" and ps[0][0] not in ("exact", "optsome"):
            g = [("not", self.part_ast(x)) for x in ps[:i]]
            return seq(*g, self.part_ast(ps[i]))
        return self.part_ast(ps[i])

    def whole(self, pid):
        return self.ast(self.pvals[pid])

    def shape(self, key, site):
        """output skeleton of a parser function: what every clean successful run returns,
        as far as constructors go (None when runs differ)"""
        self.expand(("fn", key))
        sk = self.shapes.get(key)
        return self.fill(sk, (str(site), key), ()) if sk is not None else None

    def fill(self, sk, base, path):
        if sk == "?":
            return app("parsed", ("sym", str(base)), ("sym", "/".join(map(str, path))))
        if sk == "ne":
            return app("netext", ("sym", str(base)), ("sym", "/".join(map(str, path))))
        if sk[0] == "const":
            return sk[1]
        return sk[1][:4] + (tuple(self.fill(x, base, path + (i,)) for i, x in enumerate(sk[2])),)

    def skel(self, I, s, v, d=0):
        v = I.deref(s, v)
        if v[0] == "c":
            return ("const", v)
        if v[0] == "app" and v[1] == "netext" or v[0] == "cat" and any(x[0] == "app" and x[1] == "netext" for x in cat_items(v)):
            return "ne"
        if v[0] == "agg" and d < 6:
            return ("agg", v[:4], tuple(self.skel(I, s, x, d + 1) for x in v[4]))
        return "?"

    def meet(self, a, b):
        if a == b:
            return a
        if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and len(a[2]) == len(b[2]):
            return ("agg", a[1], tuple(self.meet(x, y) for x, y in zip(a[2], b[2])))
        return "?"

    def outval(self, t, site):
        """output value term of a successful parse"""
        try:
            v = self.outval1(t, site)
        except (absint.Unsupported, absint.Budget, NoModel):
            v = None
        return v if v is not None else app("parsed", ("sym", str(site)), t)

    def callo(self, f, arg):
        I = self.interp()
        rs = self.models(I).callf(I, St(), f, [arg], ("ov",))
        vs = [I.snap(s, v) for s, v in rs]
        return vs[0] if len(vs) == 1 else None

    def outval1(self, t, site):
        k = t[0]
        if k == "exact":
            return S(t[1][2] * t[2])
        if k == "optsome":
            return absint.some(self.outval(t[2][t[3]], site))
        if k == "optnone":
            return absint.none()
        if k == "c" and t[1] in ("str", "char"):
            return t
        if k == "app":
            n = str(t[1]).rsplit("::", 1)[-1]
            if n in ("context", "by_ref", "cut_err", "peek"):
                return self.outval(t[2][0], site)
            if n == "trace":
                return self.outval(t[2][1], site)
            if n == "take":
                return self.text(t[2][0], site)
            if n == "void":
                return UNIT
            if n == "value":
                return t[2][1]
            if n == "map":
                return self.callo(t[2][1], self.outval(t[2][0], (site, "m")))
            if n == "with_span":
                return ("agg", "tuple", 0, "", (self.outval(t[2][0], (site, "s")), app("parsed", ("sym", str(site)), ("sym", "span"))))
            if n == "with_taken":
                return ("agg", "tuple", 0, "", (self.outval(t[2][0], (site, "s")), self.text(t[2][0], (site, "t"))))
            if n == "verify_map":
                r = self.callo(t[2][1], self.outval(t[2][0], (site, "m")))
                if r is not None and r[0] == "agg" and r[1] == OPT and r[2] == 1:
                    return r[4][0]
        if k == "agg" and t[1] == "tuple":
            return ("agg", "tuple", 0, "", tuple(self.outval(x, (site, i)) for i, x in enumerate(t[4])))
        if k in ("fn", "clo"):
            e = self.ast(t)
            if e[0] == "fn":
                return self.shape(e[1], site)
        return None

    def text(self, t, site):
        if t[0] == "c" and t[1] in ("str", "char"):
            return cat(t)
        if t[0] == "agg" and t[1] == "tuple":
            return cat(*[self.text(x, (site, i)) for i, x in enumerate(t[4])])
        if t[0] == "app":
            n = str(t[1]).rsplit("::", 1)[-1]
            if n in ("context", "by_ref", "cut_err", "map", "value", "void", "take"):
                return self.text(t[2][0], site)
            if n == "trace":
                return self.text(t[2][1], site)
        try:
            ne = not self.nullable(self.ast(t))
        except NoModel:
            ne = False
        return app("netext" if ne else "textof", ("sym", str(site)), t)

    def nullable(self, e, seen=()):
        """can the node succeed without consuming anything?"""
        k = e[0]
        if k in ("set", "fail", "cutfail"):
            return False
        if k == "seq":
            return all(self.nullable(x, seen) for x in e[1])
        if k in ("alt", "or"):
            return any(self.nullable(x, seen) for x in e[1])
        if k == "nd":
            return any(self.nullable(x, seen) for x in e[1:])
        if k == "rep":
            return e[1] == 0 or self.nullable(e[3], seen)
        if k == "till":
            return self.nullable(e[4], seen) and (e[1] == 0 or self.nullable(e[3], seen))
        if k in ("cut", "xset", "scalar", "reset"):
            return self.nullable(e[1], seen)
        if k == "tag":
            return self.nullable(e[2], seen)
        if k == "fn":
            return False if e in seen else self.nullable(self.expand(e), seen + (e,))
        if k == "rec":
            return False
        if k == "bind":
            return any(self.nullable(g, seen) and self.nullable(t, seen) for g, t in e[2]) or self.nullable(e[3], seen) or self.nullable(e[4], seen)
        return True

    def hook(self, I, st, c, site):
        m = c.m or (c.path or "").rsplit("::", 1)[-1]
        tr = c.trait or ""
        if m == "parse_next" and tr.endswith("winnow::Parser") or (m == "parse_next" and "winnow" in (c.path or "")):
            p = I.snap(st, c.args[0])
            while p[0] == "ref":
                p = I.deref(st, p)
            ty = c.dty
            pid = (str(site), hash(p))
            self.pvals[pid] = p
            out = []
            ps = self.parts(p)
            for i, x in enumerate(ps):
                s = st.copy()
                s.ev("parse", pid, ("ok", i))
                v = self.outval(x, site)
                out.append((s, absint.ok(self.typed(I, v, ty))))
            for kind, vn, vi in (("back", "Backtrack", 1), ("cut", "Cut", 2)):
                s = st.copy()
                s.ev("parse", pid, kind)
                out.append((s, absint.err(("agg", EM, vi, vn, (app("perr", ("sym", str(site))),)))))
            return out
        n = c.path or ""
        if m == "to_string" and tr.endswith("ToString") or m == "format" and "fmt" in n:
            a = I.snap(st, c.args[0])
            while a[0] == "ref":
                a = I.deref(st, a)
            return [(st, a if is_c(a, "str") else app("rendered", a))]
        if m == "is_empty" and c.args:
            a = I.snap(st, c.args[0])
            while a[0] == "ref":
                a = I.deref(st, a)
            if self.skel(I, st, a) == "ne":
                return [(st, absint.FALSE)]
            return None
        if m == "fmt" and tr.endswith(("Display", "Debug")):
            return [(st, absint.ok(UNIT))]
        if m in ("is_backtrack", "is_incomplete", "is_needed") and "winnow" in n:
            e = I.deref(st, c.args[0])
            if e[0] == "agg" and e[1] == EM:
                return [(st, C("bool", (e[3] == "Backtrack") == (m == "is_backtrack") if m == "is_backtrack" else e[3] == "Incomplete"))]
            return None
        if m in ("map", "convert") and "ErrMode" in n:
            e = I.deref(st, c.args[0])
            if e[0] == "agg" and e[1] == EM:
                return [(st, ("agg", EM, e[2], e[3], (app("perr", ("sym", str(site))),)))]
        if m == "reset" and "winnow" in n:
            s = st.copy()
            s.ev("reset", I.snap(st, c.args[-1]))
            return [(s, UNIT)]
        if m == "checkpoint" and "winnow" in n:
            return [(st, app("checkpoint", ("sym", str(len([e for e in st.trace if e[0] in ("parse", "reset")])))))]
        if m == "record_err" and "winnow" in n:
            s = st.copy()
            s.ev("dirty")
            return [(s, absint.ok(UNIT))]
        if m == "from_recoverable_error" and "winnow" in n:
            return [(st, c.args[-1])]
        if m in ("current_token_start", "previous_token_end", "offset_from", "eof_offset") and "winnow" in n:
            return [(st, app(m, ("sym", str(len(st.trace)))))]
        return None

    def typed(self, I, v, resty):
        if resty is not None:
            t = self.P.types[self.P.peel(resty)]
            if t["k"] == "adt" and t["a"]:
                I.settype(v, t["a"][0])
        return v


# ---------------------------------------------------------------------- languages
class Bdd:
    def __init__(self):
        self.t = {}
        self.n = [None, None]      # 0,1 terminals
        self.m = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.t.get(k)
        if r is None:
            r = len(self.n)
            self.n.append(k)
            self.t[k] = r
        return r

    def var(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.m.get(k)
        if r is not None:
            return r
        v = min(self.n[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x > 1 and self.n[x][0] == v:
                return self.n[x][2 if b else 1]
            return x
        r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.m[k] = r
        return r

    def no(self, f):
        return self.ite(f, 0, 1)

    def an(self, f, g):
        return self.ite(f, g, 0)

    def orr(self, f, g):
        return self.ite(f, 1, g)

    def xor(self, f, g):
        return self.ite(f, self.no(g), g)

    def support(self, f, acc=None, seen=None):
        acc = acc if acc is not None else set()
        seen = seen if seen is not None else set()
        if f > 1 and f not in seen:
            seen.add(f)
            v, l, h = self.n[f]
            acc.add(v)
            self.support(l, acc, seen)
            self.support(h, acc, seen)
        return acc


class N(tuple):
    """hash-consed grammar node / continuation: equality is identity"""
    __slots__ = ()
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


_nodes = {}
_raw = {}


def mk(*parts):
    key = tuple([id(x) if type(x) is N else x for x in parts])
    r = _nodes.get(key)
    if r is None:
        r = _nodes[key] = N(parts)
    return r


def intern(e):
    if type(e) is N:
        return e
    if not isinstance(e, tuple):
        return e
    r = _raw.get(id(e))
    if r is not None and r[0] is e:
        return r[1]
    if e and e[0] in ("set", "opaque"):
        n = mk(*e)
    elif e and e[0] == "fn":
        n = mk("fn", e[1])
    elif e and e[0] == "endfn":
        n = mk("endfn", e[1])
    elif e and e[0] == "tag":
        n = mk("tag", e[1], intern(e[2]))
    elif e and e[0] == "xset":
        n = mk("xset", intern(e[1]), e[2])
    else:
        n = mk(*[intern(x) for x in e])
    _raw[id(e)] = (e, n)
    return n


TOP, END = mk("top"), mk("end")
EPS, FAIL, CUTFAIL = mk("eps"), mk("fail"), mk("cutfail")
EOF = -1


class Budget(Exception):
    pass


class Lang:
    """expand: callable resolving ('fn', key) nodes; want: only runs through this value tag count"""

    def __init__(self, expand=None, max_states=300000):
        self.expand0 = expand
        self.exps = {}
        self.b = Bdd()
        self.ids = {}
        self.conts = []
        self.memo = {}
        self.active = set()
        self.notes = set()
        self.max_states = max_states
        self.want = None

    def expand(self, e):
        r = self.exps.get(e[1])
        if r is None:
            r = self.exps[e[1]] = intern(self.expand0(("fn", e[1])))
        return r

    # continuation interning -------------------------------------------------
    def id(self, k):
        i = self.ids.get(k)
        if i is None:
            i = len(self.conts)
            self.ids[k] = i
            self.conts.append(k)
        return i

    def atom(self, k):
        if k is TOP:
            return 1
        return self.b.var(self.id(k))

    def lang(self, e):
        """the texts e matches entirely"""
        return self.atom(mk("s", intern(e), END))

    def counted(self, k):
        while k[0] == "s":
            k = k[2]
        return k is END

    # derivative of a continuation -------------------------------------------
    def D(self, k, c):
        """BDD over continuations after consuming c (or 0/1 at the end of input)"""
        if k is TOP:
            return 1
        if k is END:
            return 1 if c == EOF else 0
        key = (k, c)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.active:
            return 0
        self.active.add(key)
        try:
            if k[0] == "s":
                r = self.S(k[1], k[2], c)
            else:
                r = self.X(k[1], c)
        finally:
            self.active.discard(key)
        self.memo[key] = r
        return r

    def s(self, e, k, c):
        return self.D(mk("s", e, k), c)

    def x(self, e, c):
        return self.D(mk("x", e), c)

    def back(self, e, c):
        b = self.b
        r = b.no(self.s(e, TOP, c))
        return b.an(r, b.no(self.x(e, c))) if r else 0

    def rest(self, e):
        es = e[1]
        return es[1] if len(es) == 2 else mk(e[0], mk(*es[1:]))

    def S(self, e, k, c):
        b = self.b
        t = e[0]
        if t == "eps" or t == "endfn":
            return self.D(k, c)
        if t == "set":
            return self.atom(k) if c != EOF and cset.contains(e[1], c) else 0
        if t == "eof":
            return self.D(k, c) if c == EOF else 0
        if t == "fail" or t == "cutfail":
            return 0
        if t == "seq":
            return self.s(e[1][0], mk("s", self.rest(e), k), c)
        if t == "alt":
            r = self.s(e[1][0], k, c)
            if len(e[1]) > 1:
                bk = self.back(e[1][0], c)
                if bk:
                    r = b.orr(r, b.an(bk, self.s(self.rest(e), k, c)))
            return r
        if t == "nd" or t == "or":
            r = 0
            for y in (e[1:] if t == "nd" else e[1]):
                r = b.orr(r, self.s(y, k, c))
            return r
        if t == "star":                 # declarative repetition (not possessive)
            return b.orr(self.D(k, c), self.s(e[1], mk("s", e, k), c))
        if t == "rep":
            _, lo, hi, y = e
            if hi is not None and hi == 0:
                return self.D(k, c)
            nxt = mk("rep", max(0, lo - 1), None if hi is None else hi - 1, y)
            r = self.s(y, mk("s", nxt, k), c)
            if lo == 0:
                bk = self.back(y, c)
                if bk:
                    r = b.orr(r, b.an(bk, self.D(k, c)))
            return r
        if t == "till":
            _, lo, hi, y, z = e
            if hi is not None:
                raise NoModel("bounded repeat_till")
            more = self.s(y, mk("s", mk("till", max(0, lo - 1), hi, y, z), k), c)
            if lo > 0:
                return more
            return b.orr(self.s(z, k, c), b.an(self.back(z, c), more))
        if t == "not":
            r = self.back(e[1], c)
            return b.an(r, self.D(k, c)) if r else 0
        if t == "peek":
            r = self.s(e[1], TOP, c)
            return b.an(r, self.D(k, c)) if r else 0
        if t == "and":
            r = self.s(e[1], k, c)
            return b.an(r, self.s(e[2], TOP, c)) if r else 0
        if t == "cut":
            return self.s(e[1], k, c)
        if t == "fn":
            y = self.expand(e)
            if y[0] == "rec":
                raise NoModel("unresolved recursion %s" % (e[1],))
            return self.s(y, k, c)
        if t == "tag":
            if self.want is not None and self.counted(k) and not self.want(e[1]):
                return 0
            return self.s(e[2], k, c)
        if t == "bind":
            _, p, oks, back, cut = e
            r = 0
            for pr in oks:
                g, sub = pr
                r = b.orr(r, self.s(g, mk("s", self.unreset(sub), k), c))
            if back[0] != "fail":
                bk = self.back(p, c)
                if bk:
                    r = b.orr(r, b.an(bk, self.s(self.unreset(back), k, c)))
            if cut[0] not in ("cutfail", "fail"):
                cx = self.unreset(cut)
                xx = self.x(p, c)
                if xx:
                    r = b.orr(r, b.an(xx, self.s(cx, k, c)))
            return r
        if t == "reset":
            return self.s(e[1], k, c)
        if t == "xset":
            r = self.s(e[1], k, c)
            for y in e[2]:
                r = b.an(r, b.no(self.exact(e[1], y, c)))
            return r
        if t == "scalar":
            r = self.s(e[1], k, c)
            return b.an(r, self.s(intern(SCALAR), TOP, c)) if r else 0
        if t == "opaque":
            self.notes.add("parser built from a run-time value: %s" % e[1])
            return 0
        raise NoModel("grammar node " + t)

    def unreset(self, e):
        return e[1] if e[0] == "reset" else e

    def exact(self, e, y, c):
        """e consumes exactly the text y"""
        if e[0] == "rep" and e[2] is None and len(y) >= e[1]:
            return self.s(intern(seq(lit(y), ("not", e[3]))), TOP, c)
        if e[0] == "cut":
            return self.exact(e[1], y, c)
        raise NoModel("exact text of %s" % e[0])

    def X(self, e, c):
        """BDD: e fails with a cut"""
        b = self.b
        t = e[0]
        if t in ("eps", "set", "eof", "fail", "endfn", "opaque"):
            return 0
        if t == "cutfail":
            return 1
        if t == "seq":
            return b.orr(self.x(e[1][0], c), self.s(e[1][0], mk("x", self.rest(e)), c))
        if t == "alt":
            r = self.x(e[1][0], c)
            if len(e[1]) > 1:
                bk = self.back(e[1][0], c)
                if bk:
                    r = b.orr(r, b.an(bk, self.x(self.rest(e), c)))
            return r
        if t in ("nd", "or"):
            r = 0
            for y in (e[1:] if t == "nd" else e[1]):
                r = b.orr(r, self.x(y, c))
            return r
        if t == "rep":
            _, lo, hi, y = e
            if hi is not None and hi == 0:
                return 0
            nxt = mk("rep", max(0, lo - 1), None if hi is None else hi - 1, y)
            return b.orr(self.x(y, c), self.s(y, mk("x", nxt), c))
        if t == "till":
            _, lo, hi, y, z = e
            more = b.orr(self.x(y, c), self.s(y, mk("x", mk("till", max(0, lo - 1), hi, y, z)), c))
            if lo > 0:
                return more
            return b.orr(self.x(z, c), b.an(self.back(z, c), more))
        if t in ("not", "peek"):
            return self.x(e[1], c)
        if t == "cut":
            return b.no(self.s(e[1], TOP, c))
        if t == "fn":
            return self.x(self.expand(e), c)
        if t == "tag":
            return self.x(e[2], c)
        if t == "bind":
            _, p, oks, back, cut = e
            r = 0
            for g, sub in oks:
                r = b.orr(r, self.s(g, mk("x", self.unreset(sub)), c))
            if back[0] != "fail":
                bk = self.back(p, c)
                if bk:
                    r = b.orr(r, b.an(bk, self.x(self.unreset(back), c)))
            xx = self.x(p, c)
            if xx:
                r = b.orr(r, b.an(xx, 1 if cut[0] == "cutfail" else self.x(self.unreset(cut), c)))
            return r
        if t == "reset":
            return self.x(e[1], c)
        if t in ("xset", "scalar", "and"):
            return self.x(e[1], c)
        raise NoModel("grammar node %s (cut)" % t)

    # -------------------------------------------------------------- exploration
    def classes(self, roots, other=None, oroots=()):
        cuts = {0, 0x110000}
        sets = set()
        seen = set()

        def walk(e):
            if not isinstance(e, tuple) or id(e) in seen:
                return
            seen.add(id(e))
            if e and e[0] == "set":
                sets.add(e[1])
                for a, z in e[1]:
                    cuts.add(max(0, a))
                    cuts.add(min(z, 0x10FFFF) + 1)
                return
            if e and e[0] == "fn":
                if e[1] not in fseen:
                    fseen.add(e[1])
                    try:
                        walk((cur or self).expand(e))
                    except NoModel as x:
                        self.notes.add("not modelled: %s" % x)
                return
            if e and e[0] == "xset":
                for x in e[2]:
                    for ch in x:
                        sets.add(cset.single(ord(ch)))
                        cuts.add(ord(ch))
                        cuts.add(ord(ch) + 1)
            if e and e[0] == "scalar":
                walk(intern(SCALAR))
            if e and e[0] in ("opaque", "endfn"):
                return
            for x in e[1:] if e and isinstance(e[0], str) else e:
                if isinstance(x, tuple):
                    walk(x)
        fseen = set()
        cur = None
        for r in roots:
            walk(intern(r))
        cur = other
        for r in oroots:
            walk(intern(r))
        cuts |= {0xD800, 0xE000}
        sets = sorted(sets)
        cs = sorted(cuts)
        # one representative per combination of sets: characters no set tells apart are alike
        rep = {}
        for a, z in zip(cs, cs[1:]):
            if not 0xD800 <= a < 0xE000:
                rep.setdefault(tuple(cset.contains(x, a) for x in sets), a)
        for x in reversed("a0 ;-+"):
            if ord(x) in cs:
                sig = tuple(cset.contains(y, ord(x)) for y in sets)
                rep[sig] = ord(x)
        return sorted(rep.values())

    def deriv(self, f, c, memo):
        if f < 2:
            return f
        r = memo.get(f)
        if r is None:
            v, lo, hi = self.b.n[f]
            r = self.b.ite(self.D(self.conts[v], c), self.deriv(hi, c, memo), self.deriv(lo, c, memo))
            memo[f] = r
        return r

    pass


class Count:
    """texts with at most n occurrences of each word (the constructs that nest are bounded this way)"""

    def __init__(self, most):
        self.words = sorted((w, n) for w, n in most.items() if n is not None)
        self.fail = {}
        for w, _ in self.words:
            f = [0] * (len(w) + 1)
            j = 0
            for i in range(1, len(w)):
                while j and w[i] != w[j]:
                    j = f[j]
                if w[i] == w[j]:
                    j += 1
                f[i + 1] = j
            self.fail[w] = f

    def start(self):
        return tuple((0, 0) for _ in self.words)

    def step(self, st, c):
        out = []
        c = chr(c)
        for (w, n), (j, k) in zip(self.words, st):
            f = self.fail[w]
            if j == len(w):
                j = f[j]
            while j and w[j] != c:
                j = f[j]
            if w[j] == c:
                j += 1
            if j == len(w):
                k += 1
                if k > n:
                    return None
            out.append((j, k))
        return tuple(out)


def parallel(jobs, width=6, mem=5 << 30):
    """run each job in a forked process; a job that runs out of memory yields ("budget", message)"""
    import os, pickle, resource, select, signal
    res = {}
    todo = list(enumerate(jobs))
    live = {}
    while todo or live:
        while todo and len(live) < width:
            i, f = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                    try:
                        v = ("ok", f())
                    except (MemoryError, Budget) as x:
                        v = ("budget", type(x).__name__)
                    except (NoModel, absint.Unsupported, absint.Budget) as x:
                        v = ("nomodel", "%s: %s" % (type(x).__name__, x))
                    except Exception as x:
                        v = ("error", "%s: %s" % (type(x).__name__, x))
                    with os.fdopen(w, "wb") as o:
                        pickle.dump(v, o)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (i, pid, [])
        for r in select.select(list(live), [], [])[0]:
            d = os.read(r, 1 << 16)
            if d:
                live[r][2].append(d)
                continue
            i, pid, buf = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res[i] = pickle.loads(b"".join(buf))
            except Exception:
                res[i] = ("budget", "the process ended")
    return [res[i] for i in range(len(jobs))]


def difference(A, ea, B, eb, count, alphabet=None, sub=False):
    """shortest text that exactly one of the two grammars accepts (or, with `sub`, that A
    accepts and B does not), within `count`.  Returns (text | None, side, states, classes)."""
    if alphabet:
        cls = [ord(x) for x in alphabet]
    else:
        cls = A.classes([ea], B, [eb])
    memos = {}

    def dv(L, f, c):
        if f < 2:
            return f if c != EOF else f
        m = memos.get((id(L), c))
        if m is None:
            m = memos[(id(L), c)] = {}
        return L.deriv(f, c, m)
    start = (A.lang(ea), B.lang(eb), count.start())
    seen = {start: None}
    order = [start]
    i = 0
    while i < len(order):
        cur = order[i]
        i += 1
        fa, fb, fs = cur
        ra, rb = dv(A, fa, EOF), dv(B, fb, EOF)
        if ra != rb and (ra or not sub):
            w = []
            g = cur
            while seen[g] is not None:
                g, c = seen[g]
                w.append(c)
            return "".join(chr(c) for c in reversed(w)), ("first" if ra else "second"), i, cls
        for c in cls:
            s2 = count.step(fs, c)
            if s2 is None:
                continue
            ga = dv(A, fa, c)
            if sub and ga == 0:
                continue
            gb = dv(B, fb, c)
            if ga < 2 and ga == gb:
                continue
            g = (ga, gb, s2)
            if g not in seen:
                seen[g] = (cur, c)
                order.append(g)
        if len(order) > A.max_states:
            raise Budget("more than %d automaton states" % A.max_states)
    return None, None, i, cls


H1 = ("set", HEX)
SCALAR = None


def _scalar():
    global SCALAR
    z = ("star", lit("0"))
    nz = [("set", cset.diff(HEX, cset.single(48)))]

    def h(n):
        return seq(*[H1] * n) if n else ("eps",)
    # value of the run of hex digits before '}' is a Unicode scalar value
    D = cset.of([ord(c) for c in "dD"])
    small = [seq(nz[0], h(n)) for n in range(0, 3)]
    four = [seq(("set", cset.diff(HEX, cset.union(D, cset.single(48)))), h(3)), seq(("set", D), ("set", OCT), h(2))]
    five = [seq(nz[0], h(4))]
    six = [seq(lit("10"), h(4))]
    body = ("or", tuple([("eps",)] + small + four + five + six))
    SCALAR = seq(lit("u{"), z, body, lit("}"))


_scalar()


# ---------------------------------------------------------------------- entry points
def anchor(P, api, t, m):
    """the parser function behind a public parse method, which must return Ok exactly when
    that function followed by the end of input succeeds without recorded errors.
    Returns (key, problems)."""
    key = api.method(t, m)
    got = []

    def hook(I, st, c, site):
        n = c.path or ""
        if n.rsplit("::", 1)[-1] == "recoverable_parse" and "winnow" in n:
            p = I.snap(st, c.args[0])
            while p[0] == "ref":
                p = I.deref(st, p)
            got.append((p, I.snap(st, c.args[1])))
            v = sym("the tree")
            bad = absint.seq((("one", ("agg", EM, 2, "Cut", (sym("the error"),))),))
            out = []
            for ok, val, errs in ((1, absint.some(v), absint.seq(())), (0, absint.some(v), bad), (0, absint.none(), bad)):
                s = st.copy()
                s.ev("parsed", ok)
                out.append((s, absint.tup(sym("rest"), val, errs)))
            return out
        if c.key and c.key.split("@")[0] in P.bodies and c.dty is not None and P.tys(c.dty).endswith("KdlError") and "Vec" in str([P.tys(a) for a in c.atys if a is not None]):
            return [(st, app("the failure"))]
        return None
    body = P.bodies[key]
    I = Interp(P, hooks=[hook])
    text = sym("text")
    st = St()
    I.settype(text, body["locals"][1][0])
    bad = []
    oks = 0
    for s, v in I.run_body(body, key, [text], st, ("root", key)):
        v = I.freeze(s, v)
        ev = [e for e in s.trace if e[0] == "parsed"]
        good = len(ev) == 1 and ev[-1][1] == 1
        if v[0] == "agg" and v[1] == RES and v[2] == 0:
            oks += 1
            if not good:
                bad.append("returns Ok although errors were recorded")
        elif v[0] == "agg" and v[1] == RES:
            if good:
                bad.append("returns Err although the text was parsed without errors")
        else:
            bad.append("result not understood: %s" % absint.show(v)[:100])
    if not oks:
        bad.append("never succeeds")
    for p, arg in got:
        if not mentions(arg, lambda x: x == text) or mentions(arg, lambda x: x[0] == "app" and str(x[1]).startswith("str.")):
            bad.append("parses something other than the text given")
    ps = {p for p, _ in got}
    if len(ps) != 1:
        bad.append("%d parsers are tried" % len(ps))
        return None, bad, I
    return ps.pop(), bad, I


def canon(X, root):
    """the whole grammar under `root`, with functions named by order of appearance"""
    names = {}
    order = []

    def ref(k):
        if k not in names:
            names[k] = len(names)
            order.append(k)
        return names[k]

    def go(e):
        if isinstance(e, tuple):
            if e and e[0] == "fn":
                return ("fn", ref(e[1]))
            if e and e[0] == "opaque":
                return ("opaque",)
            return tuple(go(x) for x in e)
        return e
    out = [go(root)]
    i = 0
    while i < len(order):
        out.append(go(X.expand(("fn", order[i]))))
        i += 1
    return tuple(out)
