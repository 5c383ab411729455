"""Abstract interpreter over dumped MIR.

Domain: Herbrand terms (access paths rooted at parameters, constants, aggregates,
uninterpreted applications), partitioned by enum discriminants and boolean/character
tests.  Calls to analysable bodies are interpreted at the call site, loops are
summarised by widening to a fixpoint, everything else is an uninterpreted term.
Nothing is executed and no solver is involved.
"""
import sys
from . import cset

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ values
def C(kind, v):
    return ("c", kind, v)


UNIT = ("c", "unit", None)
TRUE = C("bool", True)
FALSE = C("bool", False)


def S(s):
    return C("str", s)


def I(n):
    return C("int", n)


def app(op, *args):
    return ("app", op, tuple(args))


def sym(name):
    return ("sym", name)


OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"


def none():
    return ("agg", OPT, 0, "None", ())


def some(v):
    return ("agg", OPT, 1, "Some", (v,))


def ok(v):
    return ("agg", RES, 0, "Ok", (v,))


def err(v):
    return ("agg", RES, 1, "Err", (v,))


def tup(*vs):
    return ("agg", "tuple", 0, "", tuple(vs))


def is_c(v, kind=None):
    return v[0] == "c" and (kind is None or v[1] == kind)


def cat(*parts):
    """string concatenation, normalised"""
    out = []

    def add(p):
        if p[0] == "cat":
            for q in p[1]:
                add(q)
        elif is_c(p, "str"):
            if p[2] == "":
                return
            if out and is_c(out[-1], "str"):
                out[-1] = S(out[-1][2] + p[2])
            else:
                out.append(p)
        elif is_c(p, "char"):
            add(S(chr(p[2])))
        else:
            out.append(p)

    for p in parts:
        add(p)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return ("cat", tuple(out))


def cat_items(v):
    if v[0] == "cat":
        return v[1]
    if v == S(""):
        return ()
    return (v,)


def seq(items):
    return ("seq", tuple(items))


def seq_items(v):
    if v[0] == "seq":
        return v[1]
    if v[0] == "agg" and v[1] == "array":
        return tuple(("one", x) for x in v[4])
    return (("all", v),)


def mentions(v, pred):
    if not isinstance(v, tuple) or not v:
        return False
    if pred(v):
        return True
    for x in v:
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, frozenset):
                if any(mentions(y, pred) for y in x):
                    return True
            elif mentions(x, pred):
                return True
    return False


def subst(v, m, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(v, (tuple, frozenset)):
        return v
    k = id(v)
    if k in memo:
        return memo[k][1]
    if isinstance(v, frozenset):
        r = frozenset(subst(x, m, memo) for x in v)
        memo[k] = (v, r)
        return r
    if v in m:
        memo[k] = (v, m[v])
        return m[v]
    ch = False
    out = []
    for x in v:
        y = subst(x, m, memo) if isinstance(x, (tuple, frozenset)) else x
        if y is not x:
            ch = True
        out.append(y)
    r = tuple(out) if ch else v
    if ch and r and r[0] == "cat":
        r = cat(*r[1])
    memo[k] = (v, r)
    return r


def show(v, depth=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == "c":
        if v[1] == "str":
            return repr(v[2])
        if v[1] == "char":
            return "'%s'" % chr(v[2]) if 32 < v[2] < 127 else "'U+%04X'" % v[2]
        if v[1] == "unit":
            return "()"
        return str(v[2])
    if k == "sym":
        return str(v[1])
    if k == "fld":
        n = show(v[1], depth + 1)
        if v[2] in ("Some", "Ok"):
            return n + "?"
        if v[2]:
            return "%s as %s.%s" % (n, v[2], v[3])
        return "%s.%s" % (n, v[3])
    if depth > 6:
        return "…"
    if k == "agg":
        nm = v[3] or v[1].split("::")[-1]
        if nm == "tuple":
            nm = ""
        return "%s(%s)" % (nm, ", ".join(show(x, depth + 1) for x in v[4]))
    if k == "cat":
        return " ++ ".join(show(x, depth + 1) for x in v[1])
    if k == "app":
        return "%s(%s)" % (str(v[1]).split("::")[-1], ", ".join(show(x, depth + 1) for x in v[2]))
    if k == "elem":
        return "%s[%s]" % (show(v[1], depth + 1), v[2])
    if k == "disp":
        return "{%s}" % show(v[2], depth + 1)
    if k == "fn":
        return "fn " + v[1].split("::")[-1]
    if k == "clo":
        return "closure " + v[1][-30:]
    if k == "ref":
        return "&mut %s%s" % (v[1], v[2] or "")
    return "%s<%s>" % (k, ", ".join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in v[1:]))


class St:
    __slots__ = ("mem", "facts", "trace", "csets", "conc", "ext")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = ()
        self.csets = {}
        self.conc = 0
        self.ext = {}

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.csets = dict(self.csets)
        s.conc = self.conc
        s.ext = dict(self.ext)
        return s

    def ev(self, *e):
        self.trace = self.trace + (tuple(e),)


class Call:
    __slots__ = ("path", "r", "key", "trait", "m", "ga", "args", "atys", "dty", "span", "fn", "local", "caller")

    def __init__(self, fnv, args, atys=None, dty=None, span="", caller=""):
        # fnv = ('fn', path, r, key, trait, m, ga, local)
        self.fn = fnv
        _, self.path, self.r, self.key, self.trait, self.m, self.ga, self.local = fnv
        self.args = args
        self.atys = atys or [None] * len(args)
        self.dty = dty
        self.span = span
        self.caller = caller

    @property
    def name(self):
        return self.r or self.path


def fnval(path, key=None, local=True):
    return ("fn", path, path, key or path, None, None, (), local)


CTORS = {}
for _m in ("std::prelude::v1::", "core::prelude::v1::", "std::option::Option::", "core::option::Option::", "std::result::Result::", "core::result::Result::"):
    for _n, _a, _i in (("Some", OPT, 1), ("Ok", RES, 0), ("Err", RES, 1)):
        if "prelude" in _m or _a.rsplit("::", 1)[1] in _m:
            CTORS[_m + _n] = (_a, _i, _n)
            CTORS[_m[:-2] + "::<T>::" + _n if "Option" in _m else _m[:-2] + "::<T, E>::" + _n] = (_a, _i, _n)


class Interp:
    acc_cs = False          # keep character classes with what a loop appends

    def __init__(self, prog, hooks=(), max_depth=40, max_steps=4000000, no_inline=(), display_tokens=(), fold_arrays=None):
        from . import models
        self.p = prog
        self.hooks = list(hooks)
        self.models = models
        self.max_depth = max_depth
        self.steps = 0
        self.max_steps = max_steps
        self.tyof = {}
        self.frames = {}
        self.cfg_cache = {}
        self.no_inline = set(no_inline)
        self.display_tokens = set(display_tokens)
        self.fold_arrays = fold_arrays      # constant arrays longer than this are kept symbolic
        self.stack = []
        self.opaque = {}
        self.inlined = set()
        self.const_ids = {}
        self.ncell = 0
        self.type_params = {}

    # -------------------------------------------------------------- types
    def settype(self, v, ty):
        if ty is not None and v[0] in ("sym", "fld", "app", "elem") and v not in self.tyof:
            self.tyof[v] = ty
        return v

    def adt_of(self, ty):
        if ty is None:
            return None
        t = self.p.types[self.p.peel(ty)]
        while t["k"] == "adt" and t["p"] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc") and t["a"]:
            t = self.p.types[self.p.peel(t["a"][0])]
        return t if t["k"] == "adt" else None

    def _fieldty(self, t, f):
        ft = f.get("t")
        if ft is None:
            return None
        k = self.p.types[ft]
        if k["k"] == "param":
            names = {OPT: ["T"], RES: ["T", "E"]}.get(t["p"])
            if names and k["p"] in names:
                i = names.index(k["p"])
                if i < len(t["a"]):
                    return t["a"][i]
            return None
        return ft

    def materialize(self, v, variant=None):
        """turn a symbolic struct/enum/tuple value into an aggregate of its field paths"""
        if v[0] in ("agg", "clo"):
            return v
        ty = self.tyof.get(v)
        if ty is None:
            return None
        t = self.p.types[self.p.peel(ty)]
        if t["k"] == "tuple":
            fs = []
            for i, e in enumerate(t["e"]):
                fs.append(self.settype(("fld", v, None, str(i)), e))
            return ("agg", "tuple", 0, "", tuple(fs))
        t = self.adt_of(ty)
        if not t:
            return None
        a = self.p.adts.get(t["p"])
        if not a or a["kind"] == "union":
            return None
        if a["kind"] == "struct":
            vi, vn = 0, None
        else:
            vi = None
            for i, x in enumerate(a["variants"]):
                if x["n"] == variant:
                    vi, vn = i, variant
            if vi is None:
                return None
        var = a["variants"][vi]
        fs = []
        for f in var["f"]:
            fs.append(self.settype(("fld", v, vn, f["n"]), self._fieldty(t, f)))
        return ("agg", t["p"], vi, var["n"], tuple(fs))

    # -------------------------------------------------------------- places
    def field(self, v, variant, i, name, ty=None):
        if v[0] == "agg":
            if i < len(v[4]):
                return v[4][i]
            return app("badfield", v, I(i))
        if v[0] == "clo":
            return v[3][i]
        if ty is not None:
            s = self.p.types[ty]["s"]
            if s.startswith(("std::ptr::Unique", "std::ptr::NonNull", "std::boxed::BoxRaw")):
                return v
        if v[0] == "c":
            return v
        return self.settype(("fld", v, variant, name), ty)

    def deref(self, st, v):
        n = 0
        while v[0] == "ref":
            v = self.read(st, v[1], v[2])
            n += 1
            if n > 50:
                break
        return v

    def read(self, st, cell, proj):
        v = st.mem.get(cell)
        if v is None:
            v = self.cell_default(cell)
        variant = None
        for p in proj:
            if p == "*":
                if v[0] == "ref":
                    v = self.read(st, v[1], v[2])
                variant = None
            elif p[0] == "f":
                v = self.field(v, variant, p[1], p[2], p[3])
                variant = None
            elif p[0] == "d":
                variant = p[2]
            elif p[0] == "ix":
                v = self.index(v, p[1])
            elif p[0] == "c":
                v = self.cindex(v, p[1], p[2])
            elif p[0] == "s":
                v = app("subslice", v, I(p[1]), I(p[2]))
            elif p[0] == "sq":
                v = v[1][p[1]][1] if v[0] == "seq" and p[1] < len(v[1]) else app("idx", v, I(p[1]))
                variant = None
        return v

    def cell_default(self, cell):
        if isinstance(cell, tuple) and cell[0] in ("H", "E"):
            return cell[1]
        return app("undef", ("sym", str(cell)))

    def index(self, v, i):
        if v[0] == "agg" and v[1] == "array" and is_c(i, "int") and 0 <= i[2] < len(v[4]):
            return v[4][i[2]]
        return app("idx", v, i)

    def cindex(self, v, off, from_end):
        if v[0] == "agg" and v[1] == "array":
            j = len(v[4]) - off if from_end else off
            if 0 <= j < len(v[4]):
                return v[4][j]
        return app("idx", v, I(-off if from_end else off))

    def write(self, st, cell, proj, val):
        if not proj:
            st.mem[cell] = val
            return
        v = st.mem.get(cell)
        if v is None:
            v = self.cell_default(cell)
        st.mem[cell] = self.update(v, list(proj), val)

    def update(self, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        if p[0] == "d":
            m = self.materialize(v, p[2])
            if m is None:
                return self.update(v, proj[1:], val)
            if m[2] != p[1]:
                return m
            return self.update(m, proj[1:], val)
        if p[0] == "f":
            if v[0] == "clo":
                fs = list(v[3])
                fs[p[1]] = self.update(fs[p[1]], proj[1:], val)
                return ("clo", v[1], v[2], tuple(fs))
            m = v if v[0] == "agg" else self.materialize(v)
            if m is None:
                return app("upd", v, S(p[2]), self.update(self.field(v, None, p[1], p[2], p[3]), proj[1:], val))
            fs = list(m[4])
            if p[1] >= len(fs):
                fs += [app("undef", I(i)) for i in range(len(fs), p[1] + 1)]
            fs[p[1]] = self.update(fs[p[1]], proj[1:], val)
            return ("agg", m[1], m[2], m[3], tuple(fs))
        if p[0] == "sq" and v[0] == "seq" and p[1] < len(v[1]):
            xs = list(v[1])
            xs[p[1]] = ("one", self.update(xs[p[1]][1], proj[1:], val))
            return ("seq", tuple(xs)) + tuple(v[2:])
        if p[0] == "ix":
            if v[0] == "agg" and v[1] == "array" and is_c(p[1], "int") and p[1][2] < len(v[4]):
                fs = list(v[4])
                fs[p[1][2]] = self.update(fs[p[1][2]], proj[1:], val)
                return ("agg", "array", 0, "", tuple(fs))
            return app("updidx", v, p[1], self.update(self.index(v, p[1]), proj[1:], val))
        return app("upd", v, S(str(p)), val)

    def place(self, st, fid, pl):
        """resolve a MIR place to (cell, proj) following references"""
        cell = (fid, pl[0])
        proj = []
        unwrap = False
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, cell, proj)
                if v[0] == "ref":
                    cell, proj = v[1], list(v[2])
                elif v[0] in ("sym", "fld", "elem") and not proj and False:
                    cell, proj = ("H", v), []
                else:
                    # identity: shared references and boxes are transparent
                    pass
            elif e[0] == "f":
                ty = e[3]
                s = self.p.types[ty]["s"]
                if s.startswith(("std::ptr::Unique", "std::ptr::NonNull", "std::boxed::BoxRaw")):
                    continue
                if e[2] == "value" and (s.startswith("std::mem::ManuallyDrop<") or unwrap):
                    unwrap = not unwrap
                    continue
                proj.append(("f", e[1], e[2], e[3]))
            elif e[0] == "i":
                iv = self.read(st, (fid, e[1]), ())
                proj.append(("ix", iv))
            else:
                proj.append(tuple(e))
        return cell, tuple(proj)

    def rplace(self, st, fid, pl):
        c, p = self.place(st, fid, pl)
        return self.read(st, c, p)

    # -------------------------------------------------------------- consts
    def constval(self, j, body=None, st=None):
        if "fn" in j:
            return ("fn", j["fn"], j.get("r"), j.get("key") or j.get("r") or j["fn"], j.get("trait"), j.get("m"),
                    tuple(j["ga"]), bool(j.get("local")))
        if "v" in j:
            return self.cjson(j["v"], j.get("t"))
        if "promoted" in j and body is not None:
            pb = body["promoted"][j["promoted"]]
            if pb is not None:
                r = self.run_body(pb, "promoted", [], St(), ("promoted", id(pb)))
                if len(r) == 1:
                    return self.freeze(r[0][0], r[0][1])
        if "item" in j:
            return sym("const " + j["item"])
        return sym("const " + str(j.get("ct", "?")))

    def freeze(self, st, v):
        """replace references by the values they point to"""
        if v[0] == "ref":
            return self.freeze(st, self.read(st, v[1], v[2]))
        if v[0] == "agg":
            return ("agg", v[1], v[2], v[3], tuple(self.freeze(st, x) for x in v[4]))
        if v[0] == "clo":
            return ("clo", v[1], v[2], tuple(self.freeze(st, x) for x in v[3]))
        return v

    def cjson(self, v, ty=None):
        if "int" in v:
            return I(v["int"])
        if "bool" in v:
            return C("bool", v["bool"])
        if "char" in v:
            return C("char", v["char"])
        if "str" in v:
            return S(v["str"])
        if "float" in v:
            return C("float", v["float"])
        if "unit" in v:
            return UNIT
        if "ref" in v:
            return self.cjson(v["ref"])
        if "arr" in v:
            if self.fold_arrays is not None and len(v["arr"]) > self.fold_arrays:
                t = sym("const array " + str(hash(str(v["arr"]))))
                return self.settype(t, ty) if ty is not None else t
            return ("agg", "array", 0, "", tuple(self.cjson(x) for x in v["arr"]))
        if "tup" in v:
            return ("agg", "tuple", 0, "", tuple(self.cjson(x) for x in v["tup"]))
        if "adt" in v:
            a = self.p.adts.get(v["adt"])
            vn = a["variants"][v["v"]]["n"] if a else ""
            return ("agg", v["adt"], v["v"], vn, tuple(self.cjson(x) for x in v["f"]))
        if "zst" in v:
            return ("agg", v["zst"], 0, v["zst"].split("::")[-1], ())
        if "static" in v:
            s = self.p.statics.get(v["static"])
            if s is not None:
                return self.cjson(s["v"])
            return sym("static " + v["static"])
        if "fn" in v:
            return self.constval(v)
        if "closure" in v:
            return ("clo", v["closure"], v["closure"].split("@")[0], ())
        if "fnptr" in v:
            return fnval(v["fnptr"])
        return sym("const " + str(v.get("opaque", "?")))

    def operand(self, st, fid, o, body):
        if "c" in o or "m" in o:
            return self.rplace(st, fid, o.get("c") or o.get("m"))
        if "k" in o:
            return self.constval(o["k"], body, st)
        return sym("rt")

    # -------------------------------------------------------------- facts
    def fact(self, st, t):
        return st.facts.get(t)

    def bool_of(self, st, v):
        """True/False if the abstract state decides the boolean term, else None"""
        if is_c(v, "bool"):
            return v[2]
        if is_c(v, "int"):
            return bool(v[2])
        if v[0] == "app":
            if v[1] == "Not":
                r = self.bool_of(st, v[2][0])
                return None if r is None else not r
            r = self.decide(st, v)
            if r is not None:
                return r
        f = st.facts.get(v)
        if is_c(f, "bool") if isinstance(f, tuple) and f else False:
            return f[2]
        return None

    def decide(self, st, v):
        op, args = v[1], v[2]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = args
            a2, b2 = self.known(st, a), self.known(st, b)
            if is_c(a2) and is_c(b2) and a2[1] in ("int", "char", "bool", "str") and b2[1] in ("int", "char", "bool", "str"):
                x, y = a2[2], b2[2]
                try:
                    return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
                except TypeError:
                    return None
            if op == "Eq" and a2 == b2 and not is_c(a2, "float"):
                return True
            # two different constants cannot both equal one term
            if op == "Eq":
                for t, k in ((a2, b2), (b2, a2)):
                    if is_c(k) and t[0] == "disc" and len(t) == 3:
                        f = st.facts.get(("disc", t[1]))
                        if isinstance(f, tuple) and self.disc_index(t, k) in f[1]:
                            return False
                    if is_c(k) and ("ne", t) in st.facts and k in st.facts[("ne", t)]:
                        return False
            s, k, o = self._cs_norm(st, op, a, b)
            if s is not None:
                cs = st.csets[s]
                t = cset.cmp(o, k)
                if cset.subset(cs, t):
                    return True
                if cset.disjoint(cs, t):
                    return False
        elif op == "inset":
            s = args[0]
            t = args[1]
            if s in st.csets:
                if cset.subset(st.csets[s], t):
                    return True
                if cset.disjoint(st.csets[s], t):
                    return False
            elif is_c(s, "char") or is_c(s, "int"):
                return cset.contains(t, s[2])
        return None

    def _cs_norm(self, st, op, a, b):
        if a in st.csets and is_c(b) and b[1] in ("char", "int"):
            return a, b[2], op
        if b in st.csets and is_c(a) and a[1] in ("char", "int"):
            return b, a[2], {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
        return None, None, None

    def known(self, st, v):
        if v[0] == "c":
            return v
        f = st.facts.get(("val", v))
        if f is None and v[0] == "disc" and len(v) == 3:
            d = st.facts.get(("disc", v[1]))
            if isinstance(d, int):
                for i, n, x in self.variants(v[2]) or ():
                    if i == d:
                        return I(int(x) if x is not None else i)
        return f if f is not None else v

    def disc_index(self, t, k):
        """the variant index a discriminant term has when it equals the constant"""
        if t[0] == "disc" and len(t) == 3 and is_c(k, "int"):
            for i, n, x in self.variants(t[2]) or ():
                if (int(x) if x is not None else i) == k[2]:
                    return i
        return None

    def assume(self, st, v, b):
        """refine st with boolean term v == b; returns False if inconsistent"""
        d = self.bool_of(st, v)
        if d is not None:
            return d == b
        if v[0] == "app":
            op = v[1]
            if op == "Not":
                return self.assume(st, v[2][0], not b)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                x, y = v[2]
                s, k, o = self._cs_norm(st, op, x, y)
                if s is not None:
                    t = cset.cmp(o, k)
                    n = cset.inter(st.csets[s], t if b else cset.compl(t))
                    if not n:
                        return False
                    st.csets[s] = n
                    return True
                if op in ("Eq", "Ne"):
                    eq = b == (op == "Eq")
                    for t, k in ((x, y), (y, x)):
                        if is_c(k) and not is_c(t):
                            i = self.disc_index(t, k)
                            if i is not None:
                                f = st.facts.get(("disc", t[1]))
                                if eq:
                                    st.facts[("disc", t[1])] = i
                                elif not isinstance(f, int):
                                    vs = self.variants(t[2])
                                    excl = (f[1] if f else frozenset()) | {i}
                                    rest = [j for j, _, _ in vs if j not in excl]
                                    if not rest:
                                        return False
                                    st.facts[("disc", t[1])] = rest[0] if len(rest) == 1 else ("not", excl)
                                return True
                            if eq:
                                st.facts[("val", t)] = k
                            else:
                                st.facts[("ne", t)] = st.facts.get(("ne", t), frozenset()) | {k}
                    if op == "Ne":
                        v = app("Eq", *v[2])
                        b = not b
            if op == "inset" and v[2][0] in st.csets:
                s, t = v[2]
                n = cset.inter(st.csets[s], t if b else cset.compl(t))
                if not n:
                    return False
                st.csets[s] = n
                return True
        st.facts[v] = C("bool", b)
        return True

    def branch_bool(self, st, v):
        d = self.bool_of(st, v)
        if d is not None:
            return [(st, d)]
        out = []
        for b in (True, False):
            s = st.copy()
            if self.assume(s, v, b):
                out.append((s, b))
        return out

    def variants(self, adt):
        a = self.p.adts.get(adt)
        if not a:
            return None
        return [(i, x["n"], x["d"]) for i, x in enumerate(a["variants"])]

    def branch_variant(self, st, v, adt):
        """split on the variant of v: [(state, variant index)]"""
        v = self.deref(st, v)
        if v[0] == "agg":
            return [(st, v[2])]
        k = ("disc", v)
        f = st.facts.get(k)
        if isinstance(f, int):
            return [(st, f)]
        vs = self.variants(adt)
        if vs is None:
            raise Unsupported("variants of " + str(adt))
        excl = f[1] if f else frozenset()
        out = []
        for i, n, d in vs:
            if i in excl:
                continue
            s = st.copy()
            s.facts[k] = i
            out.append((s, i))
        return out

    # -------------------------------------------------------------- rvalues
    def binop(self, st, op, a, b, tys):
        a, b = self.known(st, a), self.known(st, b)
        if op.endswith("WithOverflow"):
            base = op[:-12]
            return tup(self.binop(st, base, a, b, tys), FALSE)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if is_c(a) and is_c(b) and a[1] in ("int", "char", "bool") and b[1] in ("int", "char", "bool"):
            x, y = a[2], b[2]
            try:
                if op == "Add":
                    return I(x + y)
                if op == "Sub":
                    return I(x - y)
                if op == "Mul":
                    return I(x * y)
                if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    return C("bool", {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
                if op == "BitAnd":
                    return C("bool", x and y) if a[1] == "bool" else I(x & y)
                if op == "BitOr":
                    return C("bool", x or y) if a[1] == "bool" else I(x | y)
                if op == "BitXor":
                    return C("bool", x != y) if a[1] == "bool" else I(x ^ y)
            except TypeError:
                pass
        if op in ("Eq", "Ne") and is_c(b, "bool") and not is_c(a, "bool"):
            same = b[2] == (op == "Eq")
            return a if same else self.unot(a)
        if op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if is_c(x, "bool"):
                    if op == "BitAnd":
                        return y if x[2] else FALSE
                    return TRUE if x[2] else y
        if op in ("Eq", "Ne", "BitAnd", "BitOr", "Add", "Mul") and repr(b) < repr(a):
            a, b = b, a
        if op == "Add" and b == I(0):
            return a
        if op == "Ne":
            return self.unot(app("Eq", a, b))
        if op == "Gt":
            return app("Lt", b, a)
        if op == "Ge":
            return app("Le", b, a)
        return app(op, a, b)

    def unot(self, a):
        if is_c(a, "bool"):
            return C("bool", not a[2])
        if a[0] == "app" and a[1] == "Not":
            return a[2][0]
        return app("Not", a)

    def rvalue(self, st, fid, r, body):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1], body)
        if k == "ref":
            c, p = self.place(st, fid, r[2])
            if r[1]:
                v = st.mem.get(c)
                if v is None and not (isinstance(c, tuple) and c[0] in ("H", "E")):
                    st.mem[c] = app("undef", ("sym", str(c)))
                return ("ref", c, p)
            v = self.read(st, c, p)
            return v
        if k == "agg":
            kk = r[1]
            vals = tuple(self.operand(st, fid, o, body) for o in r[2])
            if kk[0] == "array":
                return ("agg", "array", 0, "", vals)
            if kk[0] == "tuple":
                if not vals:
                    return UNIT
                return ("agg", "tuple", 0, "", vals)
            if kk[0] == "adt":
                return ("agg", kk[1], kk[2], kk[3], vals)
            if kk[0] == "closure":
                return ("clo", kk[1], kk[2], vals)
            return app("agg:" + kk[1], *vals)
        if k == "bin":
            return self.binop(st, r[1], self.deref(st, self.operand(st, fid, r[2], body)),
                              self.deref(st, self.operand(st, fid, r[3], body)), r[4])
        if k == "un":
            v = self.deref(st, self.operand(st, fid, r[2], body))
            if r[1] == "Not":
                t = self.p.types[r[3]]["s"]
                if t == "bool":
                    return self.unot(v)
                return app("BitNot", v)
            if r[1] == "Neg":
                if is_c(v, "int"):
                    return I(-v[2])
                return app("Neg", v)
            if r[1] == "PtrMetadata":
                return self.models.length(self, st, v)
            return app("un:" + r[1], v)
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fid, r[2], body), r[3], r[4])
        if k == "discr":
            v = self.deref(st, self.rplace(st, fid, r[1]))
            t = self.adt_of(r[2])
            adt = t["p"] if t else None
            if v[0] == "agg":
                vs = self.variants(v[1])
                if vs:
                    return I(int(vs[v[2]][2] or 0))
                return I(v[2])
            return ("disc", v, adt)
        if k == "repeat":
            v = self.operand(st, fid, r[1], body)
            if isinstance(r[2], int) and r[2] <= 64:
                return ("agg", "array", 0, "", (v,) * r[2])
            return app("repeat", v)
        return app("unk:" + str(k))

    BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
            "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32, "bool": 1}

    def cast(self, st, kind, v, to, frm):
        if kind in ("IntToInt",):
            ts, fs = self.p.types[to]["s"], self.p.types[frm]["s"]
            v = self.deref(st, v)
            v = self.known(st, v)
            if v[0] == "disc":
                return v
            if is_c(v):
                n = int(v[2])
                b = self.BITS.get(ts, 64)
                n &= (1 << b) - 1
                if ts == "char":
                    return C("char", n)
                if ts.startswith("i") and n >> (b - 1):
                    n -= 1 << b
                return I(n)
            fb, tb = self.BITS.get(fs, 64), self.BITS.get(ts, 64)
            fsig, tsig = fs.startswith("i"), ts.startswith("i")
            lossless = (fsig == tsig and tb >= fb) or (not fsig and tsig and tb > fb)
            if lossless:
                return v if fs in ("char", "u8", "u16", "u32", "bool") and v in st.csets else app("widen", v)
            return app("cast:%s:%s" % (fs, ts), v)
        if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            ts, fs = self.p.types[to]["s"], self.p.types[frm]["s"]
            return app("cast:%s:%s" % (fs, ts), self.deref(st, v))
        return v

    # -------------------------------------------------------------- bodies
    def frame(self, parent, site, key):
        k = (parent, site, key)
        i = self.frames.get(k)
        if i is None:
            i = len(self.frames) + 1
            self.frames[k] = i
        return i

    def cfg(self, body):
        k = id(body)
        c = self.cfg_cache.get(k)
        if c is None:
            c = loop_headers(body)
            self.cfg_cache[k] = c
        return c

    def prune(self, st, fid, body, bb):
        """drop the temporaries of this frame that are dead at the start of block bb"""
        k = ("live", id(body))
        lv = self.cfg_cache.get(k)
        if lv is None:
            lv = self.cfg_cache[k] = liveness(body)
        lv = lv[bb]
        dead = [c for c in st.mem if isinstance(c, tuple) and len(c) == 2 and c[0] == fid and c[1] not in lv]
        if not dead:
            return st
        keep = set()
        ds = set(dead)
        work = [c for c in st.mem if c not in ds]
        done = set()
        while work:
            c = work.pop()
            if c in done or c not in st.mem:
                continue
            done.add(c)
            r = set()
            self._refs(st.mem[c], r)
            for x in r:
                if x in ds and x not in keep:
                    keep.add(x)
                    work.append(x)
        st = st.copy()
        for c in dead:
            if c not in keep:
                del st.mem[c]
        return st

    def run_body(self, body, key, args, st, site, parent=0):
        fid = self.frame(parent, site, key)
        st = st.copy()
        for c in [c for c in st.mem if isinstance(c, tuple) and c[0] == fid]:
            del st.mem[c]
        argc = body["argc"]
        for i in range(argc):
            v = args[i] if i < len(args) else sym("arg%d" % i)
            st.mem[(fid, i + 1)] = v
            self.settype(v, body["locals"][i + 1][0])
        self.stack.append(key)
        try:
            res = self.explore(0, st, fid, body, (), key)
        finally:
            self.stack.pop()
        out = []
        seen = set()
        for kind, s, x in res:
            if kind != "ret":
                continue
            rv = s.mem.get((fid, 0), UNIT)
            self.settype(rv, body["locals"][0][0])
            live = set()
            self._refs(rv, live)
            for c in s.mem:
                if not (isinstance(c, tuple) and c[0] == fid):
                    self._refs(s.mem[c], live)
            for c in [c for c in s.mem if isinstance(c, tuple) and c[0] == fid]:
                if c not in live:
                    del s.mem[c]
            sig = (rv, s.trace, frozenset(s.facts.items()), frozenset((k, v) for k, v in s.mem.items()), frozenset(s.csets.items()),
                   frozenset(s.ext.items()))
            if sig in seen:
                continue
            seen.add(sig)
            out.append((s, rv))
        return out

    def _refs(self, v, live):
        if not isinstance(v, tuple):
            return
        if v and v[0] == "ref":
            live.add(v[1])
        for x in v:
            if isinstance(x, tuple):
                self._refs(x, live)

    def explore(self, bb, st, fid, body, active, key):
        """all ways control leaves: ('ret', st, None) | ('back', st, header)"""
        headers = self.cfg(body)
        work = [(bb, st, True)]
        out = []
        while work:
            bb, st, first = work.pop()
            if bb in headers:
                if bb in active:
                    if not (first and bb == active[-1]):
                        out.append(("back", self.prune(st, fid, body, bb), bb))
                        continue
                else:
                    def step(s, bb=bb):
                        return self.explore(bb, s, fid, body, active + (bb,), key)

                    for kind, s, x in self.mirloop(self.prune(st, fid, body, bb), (fid, bb), step, bb):
                        out.append((kind, s, x))
                    continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step budget exceeded in " + key)
            blk = body["blocks"][bb]
            for s in blk["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, fid, s[2], body)
                    c, p = self.place(st, fid, s[1])
                    if s[2][0] == "use" and len(s[1]) == 1:
                        self.settype(v, body["locals"][s[1][0]][0])
                    self.write(st, c, p, v)
                elif s[0] == "sd":
                    c, p = self.place(st, fid, s[1])
                    v = self.read(st, c, p)
                    self.write(st, c, p, app("setdisc", v, I(s[2])))
            t = blk["t"]
            k = t[0]
            if k == "goto":
                work.append((t[1], st, False))
            elif k == "return":
                out.append(("ret", st, None))
            elif k in ("unreachable", "unwind", "unk"):
                continue
            elif k == "drop":
                work.append((t[2], st, False))
            elif k == "assert":
                for s in self.do_assert(st, fid, t, body):
                    work.append((t[4], s, False))
            elif k == "yield":
                self.write(st, *self.place(st, fid, t[3]), sym("resume"))
                work.append((t[2], st, False))
            elif k == "switch":
                for s, tgt in self.switch(st, fid, t, body):
                    work.append((tgt, s, False))
            elif k == "call":
                for s in self.do_call(st, fid, bb, t, body, key):
                    if t[4] is not None:
                        work.append((t[4], s, False))
            else:
                raise Unsupported("terminator " + k)
        return out

    def do_assert(self, st, fid, t, body):
        return [st]

    def switch(self, st, fid, t, body):
        v = self.deref(st, self.operand(st, fid, t[1], body))
        targets, other = t[2], t[3]
        v = self.known(st, v)
        if is_c(v) and v[1] in ("int", "bool", "char"):
            n = int(v[2])
            for x, b in targets:
                if int(x) == n or (n < 0 and int(x) in ((1 << 8) + n, (1 << 16) + n, (1 << 32) + n, (1 << 64) + n, (1 << 128) + n)):
                    return [(st, b)]
            return [(st, other)]
        if v[0] == "disc":
            base, adt = v[1], v[2]
            vs = self.variants(adt) if adt else None
            if vs:
                f = st.facts.get(("disc", base))
                excl = f[1] if isinstance(f, tuple) else frozenset()
                out = []
                tv = {int(x): b for x, b in targets}
                rest = []
                for i, n, d in vs:
                    if isinstance(f, int) and f != i:
                        continue
                    if i in excl:
                        continue
                    dv = int(d) if d is not None else i
                    b = tv.get(dv)
                    if b is None and dv < 0:
                        for bits in (8, 16, 32, 64, 128):
                            if (1 << bits) + dv in tv:
                                b = tv[(1 << bits) + dv]
                    if b is None:
                        rest.append(i)
                        continue
                    s = st.copy()
                    s.facts[("disc", base)] = i
                    out.append((s, b))
                if rest:
                    s = st.copy()
                    if len(rest) == 1:
                        s.facts[("disc", base)] = rest[0]
                    else:
                        s.facts[("disc", base)] = ("not", frozenset(i for i, _, _ in vs if i not in rest))
                    out.append((s, other))
                return out
            out = []
            for x, b in targets:
                s = st.copy()
                if self.assume(s, app("Eq", v, I(int(x))), True):
                    out.append((s, b))
            s = st.copy()
            out.append((s, other))
            return out
        dt = self.p.types[t[4]]["s"]
        if dt == "bool":
            # targets: [("0", falsebb)], otherwise true
            fb = None
            tb = other
            for x, b in targets:
                if int(x) == 0:
                    fb = b
                else:
                    tb = b
            if fb is None:
                fb = other
            return [(s, tb if b else fb) for s, b in self.branch_bool(st, v)]
        out = []
        cur = st.copy()
        alive = True
        kind = "char" if dt == "char" else "int"
        bits = self.BITS.get(dt, 64)
        for x, b in targets:
            n = int(x)
            if dt.startswith("i") and n >> (bits - 1):
                n -= 1 << bits
            term = app("Eq", v, C(kind, n))
            d = self.bool_of(cur, term)
            if d is True:
                out.append((cur, b))
                alive = False
                break
            if d is False:
                continue
            s = cur.copy()
            if self.assume(s, term, True):
                out.append((s, b))
            if not self.assume(cur, term, False):
                alive = False
                break
        if alive:
            out.append((cur, other))
        return out

    # -------------------------------------------------------------- calls
    def do_call(self, st, fid, bb, t, body, key):
        f = self.operand(st, fid, t[1], body)
        args = [self.operand(st, fid, o, body) for o in t[2]]
        dest = t[3]
        res = self.call(st, f, args, site=(fid, bb), atys=t[6], dty=t[7], span=t[5], caller=key)
        out = []
        for s, v in res:
            c, p = self.place(s, fid, dest)
            self.settype(v, t[7])
            self.write(s, c, p, v)
            out.append(s)
        return out

    def call(self, st, f, args, site, atys=None, dty=None, span="", caller=""):
        f = self.deref(st, f)
        if f[0] == "clo":
            return self.call_closure(st, f, None, args, site)
        if f[0] != "fn":
            st.ev("callunk", f, tuple(args), span)
            return [(st, app("callunk", f, *args))]
        if atys is None:
            b = self.p.bodies.get(f[3])
            if b is not None and b["argc"] == len(args):       # called through a function value
                atys = [b["locals"][i + 1][0] for i in range(b["argc"])]
                dty = b["locals"][0][0] if dty is None else dty
        c = Call(f, args, atys, dty, span, caller)
        if len(args) == 1 and c.path in CTORS:                     # a constructor as a function value
            return [(st, ("agg",) + CTORS[c.path] + ((args[0],),))]
        for h in self.hooks:
            r = h(self, st, c, site)
            if r is not None:
                return r
        r = self.models.model(self, st, c, site)
        if r is not None:
            return r
        return self.default_call(st, c, site)

    def default_call(self, st, c, site):
        key = c.key
        b = self.p.bodies.get(key)
        if b is None and key and "@" in key:
            b = self.p.bodies.get(key.split("@")[0])
        if b is None and c.r:
            b = self.p.bodies.get(c.r)
        if b is not None and key not in self.no_inline and (c.r or c.path) not in self.no_inline and b["path"] not in self.no_inline:
            if len(self.stack) < self.max_depth and self.stack.count(key) == 0:
                self.inlined.add(b["path"])
                return self.run_body(b, key, c.args, st, site, 0)
        return self.opaque_call(st, c)

    def opaque_call(self, st, c):
        n = c.name
        self.opaque[n] = self.opaque.get(n, 0) + 1
        vals = tuple(self.snap(st, a) for a in c.args)
        muts = [a for a in c.args if a[0] == "ref"]
        st.ev("call", n, vals, c.span)
        ret = app(n, *vals)
        self.settype(ret, c.dty)
        for i, a in enumerate(c.args):
            if a[0] == "ref":
                old = self.read(st, a[1], a[2])
                if old in self.tyof and "fmt::Formatter" in self.p.types[self.p.peel(self.tyof[old])]["s"]:
                    continue
                nv = app(n + "#out%d" % i, *vals)
                if old in self.tyof:
                    self.settype(nv, self.tyof[old])
                self.write(st, a[1], a[2], nv)
        if muts:
            pass
        return [(st, ret)]

    def snap(self, st, v):
        if v[0] == "ref":
            return self.freeze(st, v)
        if v[0] in ("agg", "clo"):
            return self.freeze(st, v)
        return v

    def call_closure(self, st, clo, selfref, args, site):
        b = self.p.bodies.get(clo[1]) or self.p.bodies.get(clo[2])
        if b is None:
            st.ev("call", clo[2], tuple(self.snap(st, a) for a in args), "")
            return [(st, app("closure " + clo[2], *[self.snap(st, a) for a in args]))]
        if len(self.stack) >= self.max_depth or self.stack.count(clo[1]) > 1:
            return [(st, app("closure " + clo[2], *[self.snap(st, a) for a in args]))]
        s = selfref
        if s is None:
            s = clo
            t = self.p.types[b["locals"][1][0]]
            if t["k"] == "ref" and t["m"]:
                cell = ("clo", site, clo[1])
                st = st.copy()
                st.mem[cell] = clo
                s = ("ref", cell, ())
        return self.run_body(b, clo[1], [s] + list(args), st, site, 0)

    # -------------------------------------------------------------- loops
    def mirloop(self, st, lid, step, bb):
        def wrapped(s):
            out = []
            for kind, s2, x in step(s):
                if kind == "back" and x == bb:
                    out.append(("back", s2, None))
                else:
                    out.append(("exit", s2, (kind, x)))
            return out

        res = []
        for s, (kind, x) in self.loop(st, lid, wrapped):
            res.append((kind, s, x))
        return res

    def loop(self, st, lid, step, maxunroll=200):
        """summarise a loop; step(s) -> [('back', s, _) | ('exit', s, payload)]"""
        exits = []
        cur = [st.copy()]
        # 1. concrete unrolling while every iteration consumes a constant sequence
        n = 0
        while True:
            if not cur:
                return exits
            nxt = []
            symbolic = False
            newex = []
            for s0 in cur:
                for kind, s, x in step(s0.copy()):
                    if kind == "back":
                        if s.conc <= s0.conc:
                            symbolic = True
                            break
                        nxt.append(s)
                    else:
                        newex.append((s, x))
                if symbolic:
                    break
            if symbolic:
                break
            exits += newex
            # merge identical states
            uniq = {}
            for s in nxt:
                uniq[(frozenset(s.mem.items()), frozenset(s.facts.items()), s.trace, frozenset(s.csets.items()), frozenset(s.ext.items()))] = s
            cur = list(uniq.values())
            n += 1
            if n > maxunroll or len(cur) > 64:
                break
        for s0 in cur:
            exits += self.loop_widen(s0, lid, step)
        return exits

    def loop_widen(self, st, lid, step):
        base = st.trace
        g = st.copy()
        ltag = ("W", lid)
        # facts about this loop's own widened symbols from an earlier activation are stale
        def own(v):
            return v[0] == "sym" and isinstance(v[1], tuple) and len(v[1]) > 1 and v[1][0] == "W" and v[1][1] == lid
        g.facts = {k: v for k, v in g.facts.items() if not mentions(k, own)}
        g.trace = ()
        accs = {}
        for _ in range(14):
            res = step(g.copy())
            backs = [s for kind, s, x in res if kind == "back"]
            g2 = self.widen(g, backs, lid, accs)
            g2.trace = ()
            if g2.mem == g.mem and g2.facts == g.facts and g2.csets == g.csets and g2.ext == g.ext:
                break
            g = g2
        else:
            raise Unsupported("loop does not stabilise")
        its = []
        for s in backs:
            fs = frozenset([(k, v) for k, v in s.facts.items() if g.facts.get(k) != v] +
                           [(("cs", k), v) for k, v in s.csets.items() if g.csets.get(k) != v])
            fin = self.final_elems(g, s)
            d = (s.trace + fin, fs)
            if d not in its:
                its.append(d)
        sub = {}
        for key, deltas in accs.items():
            ds = []
            for s in backs:
                d = self.acc_delta(g, s, key)
                if d is not None:
                    fs = frozenset((k, v) for k, v in s.facts.items() if g.facts.get(k) != v)
                    if self.acc_cs:
                        fs |= frozenset((("cs", k), v) for k, v in s.csets.items() if g.csets.get(k) != v)
                    if (d, fs) not in ds:
                        ds.append((d, fs))
            sub[("acc", lid, key)] = ("loopacc", lid, frozenset(ds))
        out = []
        for kind, s, x in res:
            if kind != "exit":
                continue
            if sub:
                memo = {}
                s.mem = {k: subst(v, sub, memo) for k, v in s.mem.items()}
                s.trace = subst(s.trace, sub, memo)
            fin = self.final_elems(g, s)
            tr = s.trace + fin
            if any(t or f for t, f in its):
                s.trace = base + (("loop", lid, frozenset(its)),) + tr
            else:
                s.trace = base + tr
            out.append((s, x))
        return out

    def final_elems(self, g, s):
        """element cells written during one iteration become events, then are forgotten"""
        ev = []
        for c in list(s.mem):
            if isinstance(c, tuple) and c[0] == "E" and c not in g.mem:
                v = s.mem[c]
                if v != c[1]:
                    ev.append(("elemset", c[1], v))
                    del s.mem[c]
        return tuple(ev)

    def acc_delta(self, g, s, key):
        cell, path = key
        gv = getpath(g.mem.get(cell), path)
        sv = getpath(s.mem.get(cell), path)
        if gv is None or sv is None:
            return None
        gi, si = acc_items(gv), acc_items(sv)
        if gi is None or si is None or si[:len(gi)] != gi:
            return None
        return si[len(gi):]

    def widen(self, g, backs, lid, accs):
        n = g.copy()
        for c in list(g.mem):
            vals = [b.mem.get(c) for b in backs]
            if any(v is None for v in vals):
                vals = [v for v in vals if v is not None]
            n.mem[c] = self.gen(g.mem[c], vals, lid, c, (), accs)
        n.facts = {k: v for k, v in g.facts.items() if all(b.facts.get(k) == v for b in backs)}
        cs = {}
        for k, v in g.csets.items():
            u = v
            for b in backs:
                u = cset.union(u, b.csets.get(k, cset.ALL))
            cs[k] = u
        n.csets = cs
        n.ext = {k: (v if all(b.ext.get(k) == v for b in backs) else ("W", lid, k)) for k, v in g.ext.items()}
        return n

    def gen(self, v, vals, lid, cell, path, accs):
        if all(x == v for x in vals):
            return v
        own = ("sym", ("W", lid, cell, path))
        if v == own:
            return v
        if v[0] == "agg" and all(x[0] == "agg" and x[1] == v[1] and x[2] == v[2] and len(x[4]) == len(v[4]) for x in vals):
            fs = tuple(self.gen(f, [x[4][i] for x in vals], lid, cell, path + (i,), accs) for i, f in enumerate(v[4]))
            return ("agg", v[1], v[2], v[3], fs)
        if v[0] == "clo" and all(x[0] == "clo" and x[1] == v[1] for x in vals):
            fs = tuple(self.gen(f, [x[3][i] for x in vals], lid, cell, path + (i,), accs) for i, f in enumerate(v[3]))
            return ("clo", v[1], v[2], fs)
        if v[0] == "iter" and all(x[0] == "iter" and x[1] == v[1] and len(x) == len(v) for x in vals):
            fs = [v[0], v[1]]
            for i in range(2, len(v)):
                a = v[i]
                bs = [x[i] for x in vals]
                if all(b == a for b in bs):
                    fs.append(a)
                elif isinstance(a, (int, str)):
                    fs.append("*")
                else:
                    fs.append(self.gen(a, bs, lid, cell, path + (i,), accs))
            return tuple(fs)
        # accumulators
        vi = acc_items(v)
        if vi is not None:
            key = (cell, path)
            acc = ("acc", lid, key)
            kind = v[0] if v[0] in ("seq", "cat") else "cat"
            if any(x[0] in ("seq",) for x in vals):
                kind = "seq"
            has = acc in vi
            okk = True
            for x in vals:
                xi = acc_items(x)
                if xi is None or xi[:len(vi)] != vi:
                    okk = False
            if okk:
                accs[key] = True
                if has:
                    return v
                return (kind, vi + (acc,))
        w = own
        if v in self.tyof:
            self.settype(w, self.tyof[v])
        else:
            for x in vals:
                if x in self.tyof:
                    self.settype(w, self.tyof[x])
        if v[0] == "agg" and v[1] in (OPT, RES) and w not in self.tyof:
            for i, t in enumerate(self.p.types):
                if t and t["k"] == "adt" and t["p"] == v[1]:
                    self.tyof[w] = i
                    break
        return w

    # -------------------------------------------------------------- entry
    def run(self, path, args=None, st=None):
        f = self.p.fn_by_path.get(path)
        body = self.p.bodies.get(path)
        if body is None:
            raise Unsupported("no body for " + path)
        st = st or St()
        if args is None:
            args = []
            for i in range(body["argc"]):
                nm = (f["argn"][i] if f and i < len(f["argn"]) and f["argn"][i] else "a%d" % i)
                args.append(self.param(st, nm, body["locals"][i + 1][0]))
        return self.run_body(body, path, args, st, ("root", path))

    def param(self, st, name, ty):
        t = self.p.types[ty]
        if t["k"] == "ref" and t["m"]:
            inner = self.param(st, name, t["t"])
            cell = ("P", name)
            st.mem[cell] = inner
            return ("ref", cell, ())
        v = sym(name)
        self.tyof[v] = self.p.peel(ty)
        s = self.p.types[self.p.peel(ty)]["s"]
        if s == "char":
            st.csets[v] = cset.CHARS
        return v


def getpath(v, path):
    for i in path:
        if v is None:
            return None
        if v[0] == "agg":
            v = v[4][i] if i < len(v[4]) else None
        elif v[0] == "clo":
            v = v[3][i]
        elif v[0] == "iter":
            v = v[i]
        else:
            return None
    return v


def acc_items(v):
    if v[0] == "seq":
        return v[1]
    if v[0] == "cat":
        return v[1]
    if v == ("c", "str", ""):
        return ()
    if v[0] in ("c",) and v[1] == "str":
        return (v,)
    if v[0] in ("fld", "sym", "app", "elem") and not (v[0] == "sym" and isinstance(v[1], tuple)):
        return (v,)
    return None


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    if k == "yield":
        return [t[2]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


def _uses(x, out):
    if isinstance(x, list):
        if x and isinstance(x[0], int) and not isinstance(x[0], bool):
            out.add(x[0])
        if len(x) >= 2 and x[0] == "i" and isinstance(x[1], int):
            out.add(x[1])
        for y in x:
            if isinstance(y, (list, dict)):
                _uses(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            if isinstance(y, (list, dict)):
                _uses(y, out)


def liveness(body):
    """locals (over-approximately) live at the start of each block"""
    blocks = body["blocks"]
    n = len(blocks)
    gen, kill = [], []
    for blk in blocks:
        g, k = set(), set()

        def use(x):
            u = set()
            _uses(x, u)
            g.update(u - k)

        for st in blk["s"]:
            if st[0] == "=":
                use(st[2])
                if len(st[1]) == 1:
                    k.add(st[1][0])
                else:
                    use(st[1])
            else:
                use(st[1:])
        t = blk["t"]
        if t[0] == "return":
            use([0])
        elif t[0] == "call":
            use(t[1])
            use(t[2])
            if len(t[3]) == 1:
                k.add(t[3][0])
            else:
                use(t[3])
        elif t[0] in ("switch", "assert"):
            use(t[1])
        elif t[0] == "yield":
            use(t[1:])
        gen.append(g)
        kill.append(k)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in succs(blocks[b]["t"]):
                o |= live[s]
            i = gen[b] | (o - kill[b])
            if i != live[b]:
                live[b] = i
                ch = True
    return live


def loop_headers(body):
    heads = set()
    color = {}
    stack = [(0, iter(succs(body["blocks"][0]["t"])))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter(succs(body["blocks"][s]["t"]))))
                break
            elif color[s] == 1:
                heads.add(s)
        else:
            color[b] = 2
            stack.pop()
    return heads
