"""C18: the deserializer hands every piece of data to the type as it is."""
import sys
from .. import absint, dump
from ..absint import Interp, St, sym, app, is_c, show, I as Int, TRUE, FALSE, UNIT, OPT, RES, S
from ..common import Anchor

SELF, VIS, SEED = sym("self"), sym("visitor"), sym("seed")
SCALARS = ["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64", "char", "str", "string", "bytes", "byte_buf"]
KINDS = ["String", "Integer", "Float", "Bool", "Null"]
INT_VISITS = {"visit_" + x for x in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128")}
SHAPES = [(a, p, c) for a in (0, 1, 2, 3) for p in (0, 1, 2) for c in (None, 0, 1, 2)]


def last(n):
    return str(n).rsplit("::", 1)[-1]


def hook(I, st, c, site):
    t = str(c.trait or "")
    n = str(c.path) + " " + str(c.r)
    if last(c.path) in ("parse", "from_str") and ("str" in n or "KdlDocument" in n) and "::de::" not in n:
        s = st.copy()
        return [(s, I.settype(app("parse", *[I.freeze(s, a) for a in c.args]), c.dty))]
    ask = t.endswith("Visitor") and c.m.startswith("visit_") or t.endswith(("DeserializeSeed", "::Deserialize")) and c.m == "deserialize"
    if not ask:
        return None
    s = st.copy()
    args = tuple(I.freeze(s, a) for a in c.args)
    r = app("q:" + c.m, *args)
    I.settype(r, c.dty)
    s.ev("ask", c.m, args, r)
    return [(s, r)]


class Path:
    def __init__(self, I, st, ret, cell):
        self.I, self.st = I, st
        self.ret = I.freeze(st, ret)
        self.facts = st.facts
        self.asks = [e for e in st.trace if e[0] == "ask"]
        self.inner = [e for e in st.trace if e[0] == "loop" and any(x[0] == "ask" for ev, fs in e[2] for x in ev)]
        self.after = I.freeze(st, st.mem[cell]) if cell is not None and cell in st.mem else None


class De:
    def __init__(self, ck, P):
        self.ck, self.P = ck, P
        self.interps = []
        self.names = {}
        self.errf = None
        for k in P.adts:
            if k.startswith("crate::") and k.endswith("::Error") and "de" in k.split("::"):
                self.errf = k

    def key(self, adt, m):
        c = [k for k in self.P.bodies if k.startswith("<" + adt) and k.endswith(">::" + m) and k[len(adt) + 1] in "< "]
        if len(c) == 1:
            return c[0]
        if not c:
            return None
        raise Anchor("several %s of %s" % (m, adt))

    def run(self, key, args, st=None):
        b = self.P.bodies[key]
        I = Interp(self.P, hooks=[hook], max_steps=3000000)
        if self.interps:
            I.tyof = self.interps[0].tyof
        self.interps.append(I)
        self.ck.used(I)
        st = st.copy() if st is not None else St()
        st.trace = ()
        f = self.P.fn_by_path.get(key)
        av, cell = [], None
        for i in range(b["argc"]):
            ty = b["locals"][i + 1][0]
            nm = f["argn"][i] if f and i < len(f["argn"]) and f["argn"][i] else "a%d" % i
            v = args[i] if i < len(args) else None
            if v is None:
                v = I.param(st, nm, ty)
            elif self.P.types[ty]["k"] == "ref":
                cell = ("P", "state")
                st.mem[cell] = v
                v = ("ref", cell, ())
            elif v[0] == "sym":
                I.settype(v, ty)
            av.append(v)
        return [Path(I, s, r, cell) for s, r in I.run_body(b, key, av, st, ("root", key))]

    # ------------------------------------------------------------ what things stand for
    def tname(self, ty):
        t = self.P.types[ty]
        while t["k"] in ("ref", "ptr"):
            t = self.P.types[t["t"]]
        return t

    def holds(self, ty):
        """kind of data a field of this type holds: value, entry, ident, doc, node, nodes, entries or None"""
        s = self.tname(ty)["s"].replace(" ", "")
        one = {"crate::value::KdlValue": "value", "crate::entry::KdlEntry": "entry", "crate::identifier::KdlIdentifier": "ident", "crate::document::KdlDocument": "doc", "crate::node::KdlNode": "node"}
        for k in ("KdlValue", "KdlEntry", "KdlIdentifier", "KdlDocument", "KdlNode"):
            if s.endswith("::" + k) and "<" not in s and "[" not in s:
                return {"KdlValue": "value", "KdlEntry": "entry", "KdlIdentifier": "ident", "KdlDocument": "doc", "KdlNode": "node"}[k]
        if "KdlNode" in s:
            return "nodes"
        if "KdlEntry" in s:
            return "entries"
        return None

    def fields(self, t):
        """(adt, [(name, type, term)]) of a struct value"""
        if t[0] == "agg" and t[1] in self.P.adts:
            fs = self.P.adts[t[1]]["variants"][t[2]]["f"]
            return t[1], [(f["n"], f["t"], x) for f, x in zip(fs, t[4])]
        return None, []

    def role(self, t, own=None):
        """what a deserializer stands for: (kind, subject) or ('str', text) or None"""
        if t == SELF and own is not None:
            return own
        s = self.text(t)
        if s is not None:
            return ("str", s)
        adt, fs = self.fields(t)
        if adt is None:
            return None
        return self.role_of([(self.holds(ty), x) for n, ty, x in fs], len(fs))

    def role_of(self, hs, n):
        hs = [(h, x) for h, x in hs if h]
        if any(h == "value" for h, x in hs):
            return ("value", next(x for h, x in hs if h == "value"))
        if len(hs) == 1:
            h, x = hs[0]
            if h == "entry":
                return ("value", ("fld", x, None, "value"))
            return (h, x)
        if not hs and n == 0:
            return ("omitted", None)
        return None

    def text(self, t):
        """the text a deserializer of a string hands out"""
        if t[0] == "app" and last(t[1]) in ("into_deserializer", "new") and len(t[2]) == 1 and "serde" in str(t[1]):
            return self.plain(t[2][0])
        return None

    def plain(self, t):
        while t[0] == "app" and len(t[2]) == 1 and last(t[1]) in ("clone", "to_string", "to_owned", "into", "from", "as_str", "as_ref", "deref", "borrow", "into_owned", "as_deref"):
            t = t[2][0]
        while t[0] == "disp" and t[1] == "Display":
            t = t[2]
        return t

    def lst(self, t):
        """canonical list: ('entries'|'args'|'props', node) | ('nodes', document) | the term"""
        if t[0] == "sym" and str(t[1]).startswith("list"):
            for c, n in self.names.items():
                if t[1] == "list%d" % n:
                    return c
        if t[0] == "iter" and t[1] == "seq" and t[3] == 0:
            t = t[2]
        if t[0] == "seq" and len(t[1]) == 1 and t[1][0][0] == "all":
            t = t[1][0][1]
        if t[0] == "seq" and len(t[1]) == 1 and t[1][0][0] == "loopacc":
            keep = set()
            src = None
            for items, fs in t[1][0][2]:
                if not items:
                    continue
                if len(items) != 1 or items[0][0] != "one" or items[0][1][0] != "elem":
                    return t
                e = items[0][1]
                src = e[1] if src in (None, e[1]) else 0
                ds = [f for k, f in fs if k == ("disc", ("fld", e, None, "name"))]
                other = [k for k, f in fs if k[0] == "disc" and k[1] != ("fld", e, None, "name") or k[0] in ("val", "atom")]
                if len(ds) != 1 or other:
                    return t
                keep.add(ds[0])
            if src and len(keep) == 1 and src[0] == "fld" and src[3] == "entries":
                return ("args" if keep == {0} else "props", src[1])
            return t
        if t[0] == "fld" and t[3] == "entries" and t[2] is None:
            return ("entries", t[1])
        if t[0] == "fld" and t[3] == "nodes" and t[2] is None:
            return ("nodes", t[1])
        return t

    def opaque(self, t):
        """the same, with every list of arguments or properties a name of its own"""
        if isinstance(t, tuple):
            if t[:1] == ("seq",):
                c = self.lst(t)
                if c[0] in ("args", "props"):
                    n = sym("list%d" % self.names.setdefault(c, len(self.names)))
                    return n
            return tuple(self.opaque(x) for x in t)
        return t

    def tail(self, t):
        """(list, how many elements of it are gone)"""
        if t[0] == "fld" and t[2:] == (None, "1") and split(t[1]):
            L, off = self.tail(split(t[1]))
            return L, off + 1
        return t, 0

    def elem(self, t):
        """(canonical list, index) of an element term"""
        if t[0] == "elem" or t[0] == "app" and str(t[1]) == "idx" and len(t[2]) == 2:
            L, i = (t[1], t[2]) if t[0] == "elem" else t[2]
            if isinstance(i, tuple) and is_c(i):
                i = i[2]
            L, off = self.tail(L)
            return self.lst(L), i + off if isinstance(i, int) else None if off else i
        if t[0] == "fld" and t[2:] == (None, "0") and split(t[1]):
            L, off = self.tail(split(t[1]))
            return self.lst(L), off
        if t[0] == "fld" and t[2:] == ("Some", "0") and t[1][0] == "app" and last(t[1][1]) in ("get", "first", "next", "last", "vec.pop.ret"):
            return self.lst(t[1][2][0]), None
        return None


def split(t):
    """the list whose split_first().unwrap() this is"""
    if t[0] == "fld" and t[2:] == ("Some", "0") and t[1][0] == "app" and last(t[1][1]) == "split_first":
        return t[1][2][0]


# ------------------------------------------------------------------ shapes of nodes
class Shape:
    """numbers of arguments, properties and children of the node a path is about"""

    def __init__(self, de, node, apc):
        self.de, self.node = de, node
        self.a, self.p, self.c = apc

    def num(self, t):
        if is_c(t):
            return t[2]
        if t[0] == "app":
            n = last(t[1])
            if n == "len" and len(t[2]) == 1:
                return self.size(t[2][0])
            v = [self.num(x) for x in t[2]]
            if any(x is None for x in v):
                if n in ("And", "BitAnd") and False in v:
                    return False
                if n in ("Or", "BitOr") and True in v:
                    return True
                return None
            ops = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y,
                   "Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "And": lambda x, y: x and y, "Or": lambda x, y: x or y, "BitAnd": lambda x, y: x and y, "BitOr": lambda x, y: x or y}
            if n in ops and len(v) == 2:
                return ops[n](*v)
            if n == "Not":
                return not v[0]
        return None

    def size(self, t):
        c = self.de.lst(t)
        if c[0] in ("entries", "args", "props") and c[1] == self.node:
            return {"entries": self.a + self.p, "args": self.a, "props": self.p}[c[0]]
        if c[0] == "nodes" and c[1] == ("fld", ("fld", self.node, None, "children"), "Some", "0"):
            return self.c
        if t[0] == "seq" and not t[1]:
            return 0
        return None

    def disc(self, t):
        if t == ("fld", self.node, None, "children"):
            return 0 if self.c is None else 1
        if t[0] == "fld" and t[2] is None and t[3] == "name":
            e = self.de.elem(t[1])
            if e and e[0][0] in ("entries", "args", "props") and e[0][1] == self.node:
                n = self.size(t[1][1] if t[1][0] == "elem" else t[1][2][0]) if t[1][0] != "fld" else None
                if n == 0:
                    return "none"
                if e[0][0] == "args" or self.p == 0:
                    return 0
                if e[0][0] == "props" or self.a == 0:
                    return 1
        if t[0] == "app" and last(t[1]) in ("first", "last", "get") and self.size(t[2][0]) is not None:
            n = self.size(t[2][0])
            i = 0 if len(t[2]) == 1 else self.num(t[2][1])
            return None if i is None else int(i < n)
        return None

    def allows(self, p):
        """can a path with these facts be taken for a node of this shape?"""
        for k, f in p.facts.items():
            if not isinstance(k, tuple):
                continue
            if k[0] == "disc":
                d = self.disc(k[1])
                if d == "none":
                    return False
                if d is not None and (isinstance(f, int) and f != d or isinstance(f, tuple) and f[0] == "not" and d in f[1]):
                    return False
            elif k[0] in ("val", "ne"):
                n = self.num(k[1])
                if n is None:
                    continue
                vs = [f] if k[0] == "val" else f
                if (k[0] == "val") != any(is_c(x) and x[2] == n for x in vs):
                    return False
            elif k[0] == "app" and f in (TRUE, FALSE):
                n = self.num(k)
                if n is not None and bool(n) != (f == TRUE):
                    return False
        for e in p.st.trace:
            if e[0] == "loop" and not (isinstance(e[1], tuple) and e[1][-1] in ("filter", "c")) and not any(x[0] == "loop" for ev, fs in e[2] for x in ev):
                # a scan of the entries that ran to its end saw only such elements
                srcs = {x[1] for ev, fs in e[2] for x in ev if x[0] == "next"}
                ended = {x[1] for x in p.st.trace if x[0] == "end"}
                if len(srcs) == 1 and srcs <= ended and self.de.lst(next(iter(srcs))) == ("entries", self.node):
                    ds = set()
                    for ev, fs in e[2]:
                        el = [x[2] for x in ev if x[0] == "next"]
                        d = [f for k, f in fs if el and k == ("disc", ("fld", el[0], None, "name"))]
                        ds.add(d[0] if d else None)
                    exits = [k for k in p.facts if isinstance(k, tuple) and k[0] == "disc" and k[1][0] == "fld" and k[1][3:] == ("name",) and k[1][1][0] == "elem" and k[1][1][1] in srcs]
                    if ds == {0} and self.p and not exits or ds == {1} and self.a and not exits:
                        return False
        return True


# ------------------------------------------------------------------ contracts
class Rules:
    def __init__(self, ck, de):
        self.ck, self.de = ck, de

    def kinds(self, p, v):
        if v[0] == "agg":
            return {v[2]}
        f = p.facts.get(("disc", v))
        if isinstance(f, int):
            return {f}
        if isinstance(f, tuple) and f and f[0] == "not":
            return {0, 1, 2, 3, 4} - set(f[1])
        return {0, 1, 2, 3, 4}

    def passed(self, p, what, r, ok=None):
        """the result of the question r is the result of the path"""
        ret = p.ret
        if ret == r and ok is None:
            return
        if ret[0] == "agg" and ret[1] == RES:
            if ret[2] == 0:
                good = p.facts.get(("disc", r)) == 0 and (ret[4][0] == ("fld", r, "Ok", "0") if ok is None else ok(ret[4][0], ("fld", r, "Ok", "0")))
                self.ck.ob(good, "%s:does not return what the type made of it" % what, show(ret)[:200])
                return
            self.ck.ob(p.facts.get(("disc", r)) == 1 and self.err(p, ret[4][0], ("fld", r, "Err", "0")), "%s:the type's failure is not passed on as it is" % what, show(ret)[:200])
            return
        self.ck.fail("%s:result not understood" % what, show(ret)[:200])

    def err(self, p, e2, e):
        if e2 == e:
            return True
        adt, fs = self.de.fields(e2)
        if adt is None or adt != self.de.errf:
            return False
        for n, ty, x in fs:
            old = ("fld", e, None, n)
            if x == old:
                continue
            s = self.de.P.types[ty]["s"]
            if "Option" not in s or not (x[0] == "agg" and x[1] == OPT and x[2] == 1):
                return False
            # filled in only where there was nothing; the label goes with the span
            slot = old
            if "SourceSpan" not in s and "Arc" not in s:
                sp = [f for f in fs if "SourceSpan" in self.de.P.types[f[1]]["s"]]
                slot = ("fld", e, None, sp[0][0]) if sp else old
            if p.facts.get(("disc", slot)) != 0:
                return False
        return True

    def refuses(self, p):
        return not p.asks and p.ret[0] == "agg" and p.ret[1] == RES and p.ret[2] == 1

    def ask(self, p, what):
        if p.inner:
            self.ck.fail("%s:asks the type in a loop" % what, "")
            return None
        if len(p.asks) != 1:
            self.ck.ob(False, "%s:%s" % (what, "refused without asking the type" if self.refuses(p) else "asks the type %d times" % len(p.asks)), show(p.ret)[:160])
            return None
        self.passed(p, what, p.asks[0][3])
        return p.asks[0]

    def value(self, p, what, m, v, own):
        """one value v, asked for as m"""
        ks = self.kinds(p, v)
        P = lambda k: ("fld", v, KINDS[k], "0")
        if m == "enum":
            if 0 not in ks:
                self.ck.ob(self.refuses(p) or p.asks, "%s:a value that is no string is taken for a variant" % what, show(p.ret)[:100])
                if not p.asks:
                    return
            a = self.ask(p, what)
            if a:
                self.ck.ob(ks == {0} and a[1] == "visit_enum" and self.de.role(a[2][1]) in (("str", P(0)),), "%s:the variant is not named by the string" % what, show(a[2][-1])[:160])
            return
        a = self.ask(p, what)
        if not a:
            return
        n, x = a[1], a[2][1] if len(a[2]) > 1 else None
        if m == "newtype_struct":
            self.ck.ob(n == "visit_newtype_struct" and self.de.role(x, own) == own, "%s:a newtype does not hold the value" % what, n)
            return
        if m == "ignored_any" and n in ("visit_unit", "visit_none"):
            return
        if m == "option":
            if n == "visit_none":
                self.ck.ob(ks == {4}, "%s:something else than null becomes none" % what, str(sorted(KINDS[k] for k in ks)))
                return
            self.ck.ob(n == "visit_some" and 4 not in ks, "%s:null becomes some" % what, "%s %s" % (n, sorted(KINDS[k] for k in ks)))
            self.ck.ob(n == "visit_some" and self.de.role(x, own) == own, "%s:some does not hold the value" % what, show(x)[:100] if x else "")
            return
        for k in ks:
            self.ck.count("values")
            if k == 0:
                good = n in ("visit_str", "visit_string", "visit_borrowed_str") and self.de.plain(x) == P(0)
            elif k == 1:
                good = n in INT_VISITS and self.integer(p, n, x, P(1))
            elif k == 2:
                good = n == "visit_f64" and x == P(2)
            elif k == 3:
                good = n == "visit_bool" and x == P(3)
            else:
                good = n in ("visit_unit", "visit_none")
            self.ck.ob(good, "%s:a %s is not handed over as it is" % (what, KINDS[k].lower()), "%s(%s)" % (n, show(x)[:120] if x else ""))

    def integer(self, p, n, x, v):
        t = n[6:]
        if x == v:
            return t == "i128"
        if x[0] == "fld" and x[2:] == ("Ok", "0") and x[1][0] == "app" and ("try_from" in str(x[1][1]) or "try_into" in str(x[1][1]) or "TryFromIntError" in str(x[1][1])):
            return x[1][2] == (v,)
        if x[0] == "app" and str(x[1]).startswith("cast") and x[2] == (v,):
            lo, hi = (-(1 << int(t[1:]) - 1), (1 << int(t[1:]) - 1) - 1) if t[0] == "i" else (0, (1 << int(t[1:])) - 1)
            l, h = -(1 << 127), (1 << 127) - 1
            for k, f in p.facts.items():
                if k[0] == "app" and k[1] in ("Le", "Lt", "Ge", "Gt") and f in (TRUE, FALSE):
                    a, b = k[2]
                    op = k[1]
                    if b == v and is_c(a):
                        a, b, op = b, a, {"Le": "Ge", "Lt": "Gt", "Ge": "Le", "Gt": "Lt"}[op]
                    if a != v or not is_c(b):
                        continue
                    if f == FALSE:
                        op = {"Le": "Gt", "Lt": "Ge", "Ge": "Lt", "Gt": "Le"}[op]
                    c = b[2]
                    if op == "Le":
                        h = min(h, c)
                    elif op == "Lt":
                        h = min(h, c - 1)
                    elif op == "Ge":
                        l = max(l, c)
                    else:
                        l = max(l, c + 1)
            return lo <= l and h <= hi
        return False


def sole(de, sh, t, kind):
    """is t the only argument (property, child) of the node of this shape?"""
    e = de.elem(t)
    if not e:
        return False
    L = e[0]
    if kind == "child":
        return sh.c == 1 and L == ("nodes", ("fld", ("fld", sh.node, None, "children"), "Some", "0"))
    if L[1:] != (sh.node,):
        return False
    if kind == "arg":
        return sh.a == 1 and (L[0] == "args" or L[0] == "entries" and sh.p == 0)
    return sh.p == 1 and (L[0] == "props" or L[0] == "entries" and sh.a == 0)


class Node(Rules):
    def check(self, m, p, sh, what):
        ck, de = self.ck, self.de
        own = ("node", sh.node)
        scalar = sh.a == 1 and sh.p == 0 and sh.c is None
        empty = sh.a == 0 and sh.p == 0 and sh.c is None
        ck.count("shapes")
        if m in SCALARS or m == "identifier":
            m = "any"
        if m == "newtype_struct":
            a = self.ask(p, what)
            if a:
                ck.ob(a[1] == "visit_newtype_struct" and de.role(a[2][1], own) == own, "%s:a newtype does not hold the node" % what, a[1])
        elif m in ("unit", "unit_struct", "ignored_any"):
            a = self.ask(p, what)
            if a:
                ck.ob(a[1] in ("visit_unit", "visit_none"), "%s:not a unit" % what, a[1])
        elif m == "option":
            a = self.ask(p, what)
            if not a:
                return
            if empty:
                ck.ob(a[1] == "visit_none", "%s:a node without content is not none" % what, a[1])
            elif scalar:
                v = [k[1] for k in p.facts if isinstance(k, tuple) and k[0] == "disc" and k[1][0] == "fld" and k[1][3] == "value" and sole(de, sh, k[1][1], "arg")]
                ck.ob(v, "%s:does not look whether the argument is null" % what, a[1])
                if v:
                    ks = self.kinds(p, v[0])
                    ck.ob(a[1] == ("visit_none" if ks == {4} else "visit_some") and (ks == {4} or 4 not in ks), "%s:none exactly for null" % what, a[1])
            else:
                ck.ob(a[1] == "visit_some", "%s:a node with content is none" % what, a[1])
            if a[1] == "visit_some":
                ck.ob(de.role(a[2][1], own) == own, "%s:some does not hold the node" % what, show(a[2][1])[:100])
        elif m == "bool" and not scalar and not empty:
            ck.ob(self.refuses(p), "%s:a node with several parts is taken for a flag" % what, show(p.ret)[:100])
        elif m in ("any", "bool") and empty:
            a = self.ask(p, what)
            if a:
                ck.ob(a[1] == "visit_bool" and a[2][1] == TRUE, "%s:a node without content is not true" % what, a[1])
        elif m in ("any", "bool") and scalar:
            vs = [k[1] for k in p.facts if isinstance(k, tuple) and k[0] == "disc" and k[1][0] == "fld" and k[1][3] == "value" and sole(de, sh, k[1][1], "arg")]
            ck.ob(vs, "%s:a single argument is not looked at" % what, show(p.ret)[:100])
            if vs:
                self.value(p, what, "any", vs[-1], None)
        elif m == "any":
            a = self.ask(p, what)
            if not a:
                return
            if sh.a and not sh.p and sh.c is None:
                ck.ob(a[1] == "visit_seq", "%s:several arguments are not a sequence" % what, a[1])
                if a[1] == "visit_seq":
                    self.seq(p, what, a[2][1], sh)
            else:
                ck.ob(a[1] == "visit_map", "%s:properties and children are not a map" % what, a[1])
                if a[1] == "visit_map":
                    self.map(p, what, a[2][1], sh)
        elif m in ("map", "struct"):
            a = self.ask(p, what)
            if a:
                ck.ob(a[1] == "visit_map", "%s:not a map" % what, a[1])
                if a[1] == "visit_map":
                    self.map(p, what, a[2][1], sh)
        elif m in ("seq", "tuple", "tuple_struct"):
            a = self.ask(p, what)
            if a:
                ck.ob(a[1] == "visit_seq", "%s:not a sequence" % what, a[1])
                if a[1] == "visit_seq":
                    self.seq(p, what, a[2][1], sh)
        elif m == "enum":
            self.enum(p, what, sh, scalar)

    def seq(self, p, what, acc, sh):
        ck, de = self.ck, self.de
        want = ("args", sh.node) if sh.c is None else ("nodes", ("fld", ("fld", sh.node, None, "children"), "Some", "0"))
        got = self.listed(acc)
        if sh.c is None and not sh.a:
            ck.ob(got == ("seq", ()) or got == want, "%s:elements where there are none" % what, show(got)[:160] if got else "")
            return
        if got == ("entries", sh.node) and sh.p == 0:
            got = ("args", sh.node)
        ck.ob(got == want, "%s:the sequence is not %s" % (what, "that of the arguments" if sh.c is None else "that of the children"), show(got)[:200] if got and got[0] not in ("args", "props", "entries", "nodes") else str(got)[:100])

    def listed(self, acc):
        """the list whose elements an access hands out, in order, each once"""
        adt, fs = self.de.fields(acc)
        if adt is None:
            return None
        k = (adt, acc)
        memo = self.__dict__.setdefault("memo", {})
        if k in memo:
            return memo[k]
        memo[k] = r = self.listed_(adt, acc)
        return r

    def listed_(self, adt, acc):
        de, ck = self.de, self.ck
        key = de.key(adt, "next_element_seed")
        if key is None:
            return None
        what = "sequence over %s" % "/".join(sorted({str(de.holds(ty)) for n, ty, x in de.fields(acc)[1] if de.holds(ty)}))
        state, L = de.opaque(acc), None
        for n in range(2):
            nxt = None
            for p in de.run(key, [state, SEED]):
                ck.count("sequence steps")
                if not p.asks:
                    ck.ob(p.ret == ("agg", RES, 0, "Ok", (absint.none(),)), "%s:ends with something else than the end" % what, show(p.ret)[:100])
                    ck.ob(any(e[0] == "end" for e in p.st.trace) or any(k[0] in ("val", "app", "disc", "ne") for k in p.facts if isinstance(k, tuple)) or acc_empty(acc), "%s:ends early" % what, "")
                    continue
                if len(p.asks) != 1 or p.inner:
                    ck.fail("%s:not one element at a time" % what, "")
                    continue
                a = p.asks[0]
                self.passed(p, what, a[3], lambda got, r: got == absint.some(r))
                r = de.role(a[2][1])
                e = None
                if r and r[0] == "value" and r[1][0] == "fld" and r[1][3] == "value":
                    e = de.elem(r[1][1])
                elif r and r[0] == "node":
                    e = de.elem(r[1])
                good = e is not None and e[1] == n and (L is None or e[0] == L)
                ck.ob(good, "%s:an element is not handed over as it is, in turn" % what, show(a[2][1])[:160])
                if not good:
                    return None
                L = e[0]
                nxt = p.after
            if nxt is None:
                return ("seq", ()) if acc_empty(acc) else None
            state = nxt
        return L

    def map(self, p, what, acc, sh):
        adt, fs = self.de.fields(acc)
        self.ck.ob(adt is not None and self.de.key(adt, "next_key_seed"), "%s:map not understood" % what, show(acc)[:100])
        self.ck.ob(any(mentions_(x, sh.node) for n, ty, x in fs) or not fs or empty_map(fs), "%s:the map is not about the node" % what, show(acc)[:100])

    def enum(self, p, what, sh, scalar):
        ck, de = self.ck, self.de
        if scalar:
            vs = [k[1] for k in p.facts if isinstance(k, tuple) and k[0] == "disc" and k[1][0] == "fld" and k[1][3] == "value" and sole(de, sh, k[1][1], "arg")]
            ck.ob(vs, "%s:a single argument is not looked at" % what, "")
            if vs and self.kinds(p, vs[-1]) == {0}:
                a = self.ask(p, what)
                if a:
                    r = de.role(a[2][1])
                    ck.ob(a[1] == "visit_enum" and r is not None and r[0] == "str" and r[1][0] == "fld" and r[1][2:] == ("String", "0") and r[1][1][0] == "fld" and sole(de, sh, r[1][1][1], "arg"),
                          "%s:the variant is not named by the string" % what, show(a[2][1])[:160])
                return
            ck.ob(vs and 0 not in self.kinds(p, vs[-1]), "%s:a string does not name the variant" % what, "")
        a = self.ask(p, what)
        if not a:
            return
        ck.ob(a[1] == "visit_enum", "%s:not an enum" % what, a[1])
        if a[1] != "visit_enum":
            return
        if sh.c == 1:
            self.variant(p, what, a[2][1], lambda t: sole(de, sh, t, "child"), "node")
        elif sh.p == 1 and sh.a == 0 and sh.c is None:
            self.variant(p, what, a[2][1], lambda t: sole(de, sh, t, "prop"), "entry")
        else:
            self.variant(p, what, a[2][1], lambda t: t == sh.node, "node")

    def variant(self, p, what, acc, is_subject, kind):
        ck, de = self.ck, self.de
        adt, fs = de.fields(acc)
        key = adt and de.key(adt, "variant_seed")
        if not key:
            ck.fail("%s:variant not understood" % what, show(acc)[:100])
            return
        memo = self.__dict__.setdefault("vmemo", {})
        if (adt, acc) not in memo:
            memo[(adt, acc)] = de.run(key, [acc, SEED])
        for q in memo[(adt, acc)]:
            ck.count("variants")
            if len(q.asks) != 1:
                ck.ob(False, "%s:variant:asks %d times" % (what, len(q.asks)), show(q.ret)[:100])
                continue
            a = q.asks[0]
            out = []
            self.passed(q, what + ":variant", a[3], lambda got, r: got[0] == "agg" and len(got[4]) == 2 and got[4][0] == r and not out.append(got[4][1]))
            r = de.role(a[2][1])
            t = r[1] if r and r[0] == "str" else None
            if kind == "node":
                good = t is not None and t[0] == "fld" and t[3] == "value" and t[1][0] == "fld" and t[1][3] == "name" and is_subject(t[1][1])
            else:
                good = t is not None and t[0] == "fld" and t[3] == "value" and t[1][:1] == ("fld",) and t[1][2:] == ("Some", "0") and t[1][1][0] == "fld" and t[1][1][3] == "name" and is_subject(t[1][1][1])
            ck.ob(good, "%s:the variant is not named after the %s" % (what, "node" if kind == "node" else "property"), show(a[2][1])[:160])
            for v in out:
                self.content(what, v, is_subject, kind)

    def content(self, what, v, is_subject, kind):
        ck, de = self.ck, self.de
        adt, fs = de.fields(v)
        if adt is None:
            ck.fail("%s:content of the variant not understood" % what, show(v)[:100])
            return
        memo = self.__dict__.setdefault("cmemo", {})
        for m in ("unit_variant", "newtype_variant_seed", "tuple_variant", "struct_variant"):
            key = de.key(adt, m)
            if key is None:
                raise Anchor("%s of %s" % (m, adt))
            k = (adt, m, v)
            if k not in memo:
                memo[k] = de.run(key, [v])
            for q in memo[k]:
                ck.count("variants")
                w = "%s:%s" % (what, m)
                if m == "unit_variant":
                    ck.ob(q.ret == ("agg", RES, 0, "Ok", (UNIT,)) and not q.asks or self.refuses(q), w + ":not a unit", show(q.ret)[:100])
                    continue
                if kind == "entry" and m != "newtype_variant_seed":
                    ck.ob(self.refuses(q), w + ":a property is taken for more than one value", show(q.ret)[:100])
                    continue
                a = self.ask(q, w)
                if not a:
                    continue
                if m == "newtype_variant_seed":
                    r = de.role(a[2][1])
                    good = r is not None and (r[0] == "node" and is_subject(r[1]) if kind == "node" else r[0] == "value" and r[1][0] == "fld" and r[1][3] == "value" and is_subject(r[1][1]))
                    ck.ob(good, w + ":does not hold the content", show(a[2][1])[:120])
                elif m == "tuple_variant":
                    ck.ob(a[1] == "visit_seq", w + ":not a sequence", a[1])
                    if a[1] == "visit_seq":
                        subj = subjects(de, fs)
                        if subj:
                            for apc in SHAPES:
                                sh = Shape(de, subj[0], apc)
                                if sh.allows(q):
                                    self.seq(q, w, a[2][1], sh)
                else:
                    ck.ob(a[1] == "visit_map", w + ":not a map", a[1])
                    if a[1] == "visit_map":
                        adt2, fs2 = de.fields(a[2][1])
                        ck.ob(adt2 is not None and any(mentions_(x, y) for n, ty, x in fs2 for y in subjects(de, fs)), w + ":the map is not about the node", show(a[2][1])[:100])


def subjects(de, fs):
    """the nodes a struct with these fields is about"""
    out = []
    for n, ty, x in fs:
        r = de.role(x)
        if de.holds(ty) == "node":
            out.append(x)
        elif r and r[0] == "node":
            out.append(r[1])
    return out


def acc_empty(acc):
    return any(x[0] == "iter" and x[2] == ("seq", ()) or x == ("seq", ()) for x in acc[4])


def empty_map(fs):
    return any(x == ("seq", ()) for n, ty, x in fs)


def mentions_(t, x):
    if t == x:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(mentions_(y, x) for y in t)
    return False


# ------------------------------------------------------------------ the check
def run(ck):
    sys.setrecursionlimit(100000)
    ck.explanation = ("Every method of every Deserializer, SeqAccess, MapAccess, EnumAccess and VariantAccess of the crate is interpreted with the visitor opaque. On each path, what the visitor is asked is compared with the piece of the document the deserializer stands for; "
                      "sequences and variants are followed from where they are made; nodes are distinguished by how many arguments, properties and children they have.")
    ck.rule = "per method and path: exactly one question to the type, with the value (node, name) as it is; its answer or its failure is the result"
    P = dump.load("all")
    de = De(ck, P)
    roles = {}
    for k in sorted(P.bodies):
        if k.startswith("<crate::") and k.endswith(">::deserialize_any") and "::tests::" not in k:
            adt = k[1:].split(" as ")[0].split("<")[0]
            a = P.adts.get(adt)
            if a is None or a["kind"] != "struct":
                raise Anchor("Deserializer " + k)
            fs = [(f["n"], f["t"], ("fld", SELF, None, f["n"])) for f in a["variants"][0]["f"]]
            r = de.role_of([(de.holds(t), x) for n, t, x in fs], len(fs))
            ck.ob(r is not None, "Deserializer:what it stands for is not understood", adt)
            if r is not None:
                roles[adt] = r
    kinds = {r[0] for r in roles.values()}
    for need in ("value", "node", "doc"):
        if need not in kinds:
            raise Anchor("a Deserializer for a " + need)
    ms = ["any", "bool"] + SCALARS + ["option", "unit", "unit_struct", "newtype_struct", "seq", "tuple", "tuple_struct", "map", "struct", "enum", "identifier", "ignored_any"]
    N = Node(ck, de)
    for adt, r in sorted(roles.items()):
        for m in ms:
            key = de.key(adt, "deserialize_" + m)
            if key is None:
                raise Anchor("deserialize_%s of %s" % (m, adt))
            ck.count("methods")
            paths = de.run(key, [SELF])
            ck.ob(paths, "%s:%s:never returns" % (r[0], m), "")
            if r[0] == "node":
                for apc in SHAPES:
                    ck.ob(any(Shape(de, r[1], apc).allows(p) for p in paths), "%s:%s:no path for a node with %s arguments, %s properties, %s children" % ((r[0], m) + apc), "")
            for p in paths:
                ck.count("paths")
                one(ck, de, N, r, m, p)
    access(ck, de, N)
    top(ck, de, P)


def one(ck, de, N, r, m, p):
    what = "%s:%s" % (r[0], m)
    if r[0] == "value":
        N.value(p, what, m, r[1], r)
    elif r[0] == "ident":
        a = N.ask(p, what)
        if not a:
            return
        s = ("fld", r[1], None, "value")
        if m == "newtype_struct":
            ck.ob(a[1] == "visit_newtype_struct" and de.role(a[2][1], r) == r, what + ":a newtype does not hold the name", a[1])
        elif m == "enum":
            ck.ob(a[1] == "visit_enum" and de.role(a[2][1]) == ("str", s), what + ":the variant is not named by the name", show(a[2][1])[:100])
        elif a[1] == "visit_some" and m == "option":
            ck.ob(de.role(a[2][1], r) == r, what + ":some does not hold the name", show(a[2][1])[:100])
        else:
            ck.ob(a[1] in ("visit_str", "visit_string", "visit_borrowed_str") and de.plain(a[2][1]) == s or m == "ignored_any" and a[1] == "visit_unit", what + ":a name is not handed over as it is", "%s %s" % (a[1], show(a[2][-1])[:100]))
    elif r[0] == "node":
        for apc in SHAPES:
            sh = Shape(de, r[1], apc)
            if sh.allows(p):
                N.check(m, p, sh, what)
    elif r[0] in ("nodes", "entries"):
        seqs(ck, de, N, r, m, p, what)
    elif r[0] == "doc":
        doc(ck, de, N, r, m, p, what)


def seqs(ck, de, N, r, m, p, what):
    a = N.ask(p, what)
    if not a:
        return
    if m == "newtype_struct" and a[1] == "visit_newtype_struct" or m == "option" and a[1] == "visit_some":
        ck.ob(de.role(a[2][1], r) == r, what + ":does not hold the list", a[1])
    elif m == "option" and a[1] == "visit_none":
        n = ("app", "len", (r[1],))
        ck.ob(r[0] == "entries" and p.facts.get(("val", n)) == Int(0), what + ":a list with elements is none", "")
    elif m == "ignored_any" and a[1] == "visit_unit":
        pass
    else:
        ck.ob(a[1] == "visit_seq", what + ":not a sequence", a[1])
        if a[1] == "visit_seq":
            got = N.listed(a[2][1])
            ck.ob(got == de.lst(r[1]), what + ":not all elements, in order", str(got)[:120])


def doc(ck, de, N, r, m, p, what):
    nodes = ("fld", r[1], None, "nodes")
    n = ("app", "len", (nodes,))
    if N.refuses(p):
        ck.ob(m == "enum" and p.facts.get(("val", n)) != Int(1), what + ":refused without asking the type", show(p.ret)[:100])
        return
    a = N.ask(p, what)
    if not a:
        return
    if m == "newtype_struct":
        ck.ob(a[1] == "visit_newtype_struct" and de.role(a[2][1], r) == r, what + ":a newtype does not hold the document", a[1])
    elif m == "option":
        e = p.facts.get(("val", n)) == Int(0)
        ck.ob(a[1] == ("visit_none" if e else "visit_some"), what + ":none exactly for an empty document", a[1])
        if not e:
            ck.ob(de.role(a[2][1], r) == r, what + ":some does not hold the document", a[1])
    elif m == "seq":
        ck.ob(a[1] == "visit_seq", what + ":not a sequence", a[1])
        if a[1] == "visit_seq":
            ck.ob(N.listed(a[2][1]) == ("nodes", r[1]), what + ":not all nodes, in order", "")
    elif m in ("unit", "unit_struct"):
        ck.ob(a[1] == "visit_unit", what + ":not a unit", a[1])
    elif m == "enum":
        ck.ob(a[1] == "visit_enum" and p.facts.get(("val", n)) == Int(1), what + ":not the only node", a[1])
        if a[1] == "visit_enum":
            N.variant(p, what, a[2][1], lambda t: (de.elem(t) or (None,))[0] == ("nodes", r[1]), "node")
    elif m == "ignored_any" and a[1] == "visit_unit" or m in ("tuple", "tuple_struct") and a[1] == "visit_seq":
        pass
    else:
        ck.ob(a[1] == "visit_map", what + ":not a map", a[1])


def access(ck, de, N):
    """maps: each step hands out the key and the value of the current entry, and goes on to the next one"""
    P = de.P
    for k in sorted(P.bodies):
        if not (k.startswith("<crate::") and k.endswith(">::next_value_seed") and "::tests::" not in k):
            continue
        adt = k[1:].split(" as ")[0].split("<")[0]
        fs = P.adts[adt]["variants"][0]["f"]
        ck.count("maps")
        for p in de.run(k, [state_of(fs, P.adts[adt]), SEED]):
            a = N.ask(p, "map:value")
            if not a:
                continue
            r = de.role(a[2][1])
            ck.ob(r is not None and r[0] in ("ident", "value", "node", "nodes", "entries", "omitted"), "map:value:not understood", show(a[2][1])[:100])
            if r is None or r[1] is None:
                continue
            # what is handed out is what the entry holds, as the kind of thing it is
            t = r[1]
            if r[0] == "value":
                ck.ob(t[0] == "fld" and t[3] == "value", "map:value:not the entry's value", show(t)[:100])
        kk = de.key(adt, "next_key_seed")
        for p in de.run(kk, [state_of(fs, P.adts[adt]), SEED]):
            if not p.asks:
                ck.ob(p.ret == ("agg", RES, 0, "Ok", (absint.none(),)), "map:key:ends with something else than the end", show(p.ret)[:100])
                continue
            a = p.asks[0]
            N.passed(p, "map:key", a[3], lambda got, r: got == absint.some(r) or got == ("app", "std::prelude::v1::Some", (r,)))
            r = de.role(a[2][1])
            ck.ob(r is not None and r[0] == "str", "map:key:not a text", show(a[2][1])[:100])


def state_of(fs, a):
    return None


def top(ck, de, P):
    """from_str deserializes the document that was parsed and passes on what comes of it"""
    k = [x for x in P.bodies if x.startswith("crate::de::") and x.endswith("::from_str")]
    if len(k) != 1:
        raise Anchor("de::from_str")
    N = Rules(ck, de)
    for p in de.run(k[0], []):
        ck.count("entry points")
        if not p.asks:
            ck.ob(p.ret[0] == "agg" and p.ret[1] == RES and p.ret[2] == 1 and parse_failed(p), "from_str:refused though the text parses", show(p.ret)[:100])
            continue
        a = N.ask(p, "from_str")
        if a:
            r = de.role(a[2][0])
            ck.ob(r is not None and r[0] == "doc" and "parse" in show(r[1]), "from_str:does not deserialize the parsed document", show(a[2][0])[:100])


def parse_failed(p):
    return any(isinstance(k, tuple) and k[0] == "disc" and f == 1 and "parse" in str(k[1])[:200] for k, f in p.facts.items())
