"""C16: the serializer writes every value it accepts, once, under the name it was given, or fails."""
import collections
from .. import dump
from ..common import Api, Anchor
from ..absint import show, sym, is_c, S, app, TRUE, FALSE, OPT, RES, mentions
from ..serde_ser import Ser, diff
from .c09 import find

TRAITS = ("serde::Serializer", "serde::ser::Serialize")
V, VARIANT, VALUE, KEY, NAME = sym("v"), sym("variant"), sym("value"), sym("key"), sym("name")
INTS = {"serialize_" + x for x in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128")}
SIG = {
    "serialize_none": [], "serialize_unit": [], "serialize_some": ["value"], "serialize_unit_struct": ["name"],
    "serialize_unit_variant": ["name", "index", "variant"], "serialize_newtype_struct": ["name", "value"],
    "serialize_newtype_variant": ["name", "index", "variant", "value"], "serialize_seq": ["len"], "serialize_map": ["len"],
    "serialize_tuple": ["len"], "serialize_tuple_struct": ["name", "len"], "serialize_tuple_variant": ["name", "index", "variant", "len"],
    "serialize_struct": ["name", "len"], "serialize_struct_variant": ["name", "index", "variant", "len"],
}
# start method: (trait of the state, element method, its arguments)
START = {
    "serialize_seq": ("SerializeSeq", "serialize_element", ["value"]),
    "serialize_tuple": ("SerializeTuple", "serialize_element", ["value"]),
    "serialize_tuple_struct": ("SerializeTupleStruct", "serialize_field", ["value"]),
    "serialize_tuple_variant": ("SerializeTupleVariant", "serialize_field", ["value"]),
    "serialize_map": ("SerializeMap", None, ["key", "value"]),
    "serialize_struct": ("SerializeStruct", "serialize_field", ["key", "value"]),
    "serialize_struct_variant": ("SerializeStructVariant", "serialize_field", ["key", "value"]),
}
HARMLESS = {"skip_field", "is_human_readable"}


def run(ck):
    ck.explanation = ("Every method of every Serializer and of every Serialize* state in the crate is interpreted on symbolic state, with each `value.serialize(s)` kept as an opaque result and an opaque "
                      "filling of what s writes to. On every path that succeeds, what was added to the output must be exactly the given scalar in its own kind, or exactly one result of serializing "
                      "the given value, in front of nothing and behind everything written before; a path that fails must have been told so by a nested serialization or be a shape the sink refuses. "
                      "Starting a compound, writing elements and ending it are also run one after the other, to see that the elements and the variant name arrive.")
    ck.rule = "per Serializer/Serialize* method: output after = output before ++ [exactly what was given], or Err"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "v1serde"]):
        try:
            P = dump.load(cfg)
        except KeyError:
            continue
        one(ck, P)


class Leaf(collections.namedtuple("Leaf", "kind ctx name val")):
    """kind: entry | value | fill | empty | ?; ctx: names of the enclosing added nodes and loops"""


def leaves(o, t, ctx, out):
    k = t[0]
    if k == "one":
        return leaves(o, t[1], ctx, out)
    if k == "seq":
        for x in t[1]:
            leaves(o, x, ctx, out)
        return out
    if k == "loopacc":
        if isinstance(t[2], frozenset) and len(t[2]) == 1:
            (items, facts), = t[2]
            if all(f[0][0] == "disc" and f[0][1][0] == "app" and f[0][1][1].startswith("ser:") and f[1] == 0 for f in facts):
                for x in items:
                    leaves(o, x, ctx + (("loop", t[1]),), out)
                return out
        out.append(Leaf("?", ctx, None, t))
        return out
    if k == "agg":
        n = t[1].rsplit("::", 1)[-1]
        if n == "KdlDocument":
            return leaves(o, fld(o, t, "nodes"), ctx, out)
        if n == "KdlNode":
            nm = fld(o, fld(o, t, "name"), "value")
            c = ctx + (("node", nm),)
            b = len(out)
            leaves(o, fld(o, t, "entries"), c, out)
            ch = fld(o, t, "children")
            if ch[0] == "agg" and ch[1] == OPT:
                if ch[2] == 1:
                    leaves(o, ch[4][0], c, out)
            else:
                out.append(Leaf("?", c, None, ch))
            ty = fld(o, t, "ty")
            if ty[0] != "agg" or ty[2] != 0:
                out.append(Leaf("?", c, None, ty))
            if len(out) == b:
                out.append(Leaf("empty", c, None, None))
            return out
        if n == "KdlEntry":
            nm = fld(o, t, "name")
            for f in ("ty", "format"):
                x = fld(o, t, f)
                if x[0] != "agg" or x[2] != 0:
                    out.append(Leaf("?", ctx, None, x))
            if nm[0] == "agg" and nm[1] == OPT:
                nm = None if nm[2] == 0 else fld(o, nm[4][0], "value")
            out.append(Leaf("entry", ctx, nm, fld(o, t, "value")))
            return out
        if n == "KdlValue":
            out.append(Leaf("value", ctx, None, t))
            return out
    if k == "app" and t[1].startswith("filled:"):
        old = t[2][1]
        c = ctx
        if old[0] == "agg" and old[1].endswith("::KdlNode"):
            b = len(out)
            leaves(o, old, ctx, out)
            if len(out) == b + 1 and out[b].kind == "empty":
                c = out.pop().ctx
            else:
                c = ctx + (("node", fld(o, fld(o, old, "name"), "value")),)
        elif old[0] in ("agg", "seq"):
            leaves(o, old, ctx, out)
        else:
            out.append(Leaf("?", ctx, None, old))
        out.append(Leaf("fill", c, None, t))
        return out
    if k in ("fld", "app") and serval(t) is not None:
        out.append(Leaf("value", ctx, None, t))
        return out
    out.append(Leaf("?", ctx, None, t))
    return out


def fld(o, t, n):
    from ..meth import fget
    return fget(o.I, t, n)


def serval(t):
    """the ser: application t is the successful payload of"""
    if t[0] == "fld" and t[2] == "Ok" and t[1][0] == "app" and t[1][1].startswith("ser:"):
        return t[1]
    return None


def unwiden(t):
    while t[0] == "app" and t[1] == "widen":
        t = t[2][0]
    return t


def kv(t):
    """(variant, payload) of a KdlValue aggregate"""
    if t[0] == "agg" and t[1].endswith("::KdlValue"):
        return t[3], (t[4][0] if t[4] else None)
    return None, None


def scalar_ok(o, m, t):
    """t is the KdlValue the scalar method m was given"""
    k, p = kv(t)
    if m == "serialize_bool":
        return k == "Bool" and (p == V or (p in (TRUE, FALSE) and o.facts.get(V) == p))
    if m in INTS:
        if k != "Integer":
            return False
        p = unwiden(p)
        return p == V or (p[0] == "fld" and p[2] == "Ok" and p[1][0] == "app" and "try_" in p[1][1] and p[1][2] == (V,))
    if m == "serialize_f64":
        return k == "Float" and p == V
    if m == "serialize_f32":
        return k == "Float" and p[0] == "app" and p[2] == (V,) and (p[1] == "widen" or "f32" in p[1] and "f64" in p[1])
    if m in ("serialize_char", "serialize_str", "collect_str"):
        return k == "String" and text_of(p) == V
    if m == "serialize_unit_variant":
        return k == "String" and text_of(p) == VARIANT
    if m in ("serialize_none", "serialize_unit", "serialize_unit_struct"):
        return k == "Null"
    return False


def text_of(t):
    while True:
        if t is not None and t[0] == "disp" and t[1] in ("new_display", "Display"):
            t = t[2]
        elif t is not None and t[0] == "cat" and len(t[1]) == 1:
            t = t[1][0]
        else:
            return t


def key_ok(o, m, t):
    if m == "serialize_bool":
        if is_c(t, "str"):
            return t[2] in ("true", "false") and o.facts.get(V) == (TRUE if t[2] == "true" else FALSE)
        return text_of(t) == V
    if m == "serialize_unit_variant":
        return text_of(t) == VARIANT
    if m == "serialize_unit_struct":
        return text_of(t) == NAME
    return text_of(t) == V


SCALARS = INTS | {"serialize_" + x for x in ("bool", "f32", "f64", "char", "str", "unit_variant", "none", "unit", "unit_struct")}


class X:
    def __init__(self, ck, P):
        self.ck, self.P, self.api = ck, P, Api(P)
        self.S = Ser(P, self.api, max_steps=600000)
        self.impl = collections.defaultdict(dict)
        for k, f in P.fn_by_path.items():
            tr = f.get("trait") if f else None
            if not tr or k not in P.bodies or not (tr == "serde::Serializer" or tr.startswith("serde::ser::Serialize")):
                continue
            self.impl[(self.selfname(k), tr.rsplit("::", 1)[-1])][f["name"]] = k

    def selfname(self, k):
        b = self.P.bodies[k]
        t = self.P.types[self.P.peel(b["locals"][1][0])]
        return t.get("p", t["s"]).rsplit("::", 1)[-1]

    def okty(self, k):
        t = self.P.types[self.P.bodies[k]["locals"][0][0]]
        if t["k"] != "adt" or t["p"] != RES:
            raise Anchor("return type of " + k)
        return self.P.types[t["a"][0]]

    def run(self, k, names, **kw):
        rs = self.S.run(k, names=["self"] + names, **kw)
        self.ck.count("paths", len(rs))
        return rs

    # --- what a run did
    def changes(self, o, only=None):
        out = []
        for n, c, init, ty in o.cells:
            if only is None or only(n):
                diff(o, init, o.final(c), out)
        return out

    def written(self, o):
        """leaves added to the output; None entries mark anything else that changed"""
        out, odd = [], []
        for ch in self.changes(o):
            if ch[0] in ("add", "some"):
                if ch[1] and ch[1][-1] not in ("entries", "nodes", "children"):
                    odd.append(ch)
                    continue
                leaves(o, ch[2], (), out)
            elif ch[0] == "fill":
                out.append(Leaf("fill", (), None, ch[2]))
            else:
                odd.append(ch)
        return out, odd

    def kind(self, o):
        """('ok', payload) | ('err', payload) | ('ser', application)"""
        r = o.ret
        if r[0] == "agg" and r[1] == RES:
            return ("ok" if r[2] == 0 else "err"), r[4][0]
        if r[0] == "app" and r[1].startswith("ser:"):
            return "ser", r
        d = o.disc(r)
        if d == 0:
            return "ok", ("fld", r, "Ok", "0")
        if d == 1:
            return "err", ("fld", r, "Err", "0")
        return "?", r

    def sers(self, o):
        """nested serializations of this path, those inside a loop too"""
        out = []
        find(o.trace, lambda x: len(x) == 4 and x[0] == "ser", out)
        return out

    def err_ok(self, o):
        for e in self.sers(o):
            if o.disc(e[3]) == 1:
                return True
        return any(k[0] == "disc" and k[1][0] == "app" and k[1][1].startswith("ser:") and v == 1 for k, v in o.facts.items() if isinstance(k, tuple))

    def carries(self, o, lf, value):
        """leaf lf is the (successful) result of serializing `value`"""
        if lf.kind == "fill":
            t = lf.val
            if t[2][0] != value:
                return False
            nm = t[1][len("filled:"):]
            ev = [e for e in self.sers(o) if e[1] == nm and e[2] == value]
            return len(ev) == 1 and (o.disc(ev[0][3]) == 0 or o.ret == ev[0][3])
        a = serval(lf.val) if lf.kind in ("entry", "value") else None
        return a is not None and a[1] == "ser:KdlValueSerializer" and a[2][0] == value and o.disc(a) == 0

    # --- obligations
    def scalar(self, T, m, k):
        ck = self.ck
        names = SIG.get(m, ["v"])
        rs = self.run(k, names)
        ck.ob(rs, "%s::%s:does not return" % (T, m))
        t = self.okty(k)
        for o in rs:
            what, p = self.kind(o)
            key = "%s::%s" % (T, m)
            if what == "err":
                # names have no spelling for these; everything else must take every scalar
                may = m in ("serialize_i128", "serialize_u128") or t["s"] == "std::string::String" and m in ("serialize_none", "serialize_unit")
                ck.ob(may, key + ":refuses", "a scalar is refused")
                continue
            if not ck.ob(what == "ok", key + ":result", show(o.ret)[:200]):
                continue
            w, odd = self.written(o)
            ck.ob(not odd, key + ":other changes", "changes more than it adds: %s" % show_ch(odd))
            if t["s"] == "std::string::String":
                ck.ob(key_ok(o, m, p) and not w, key, "the name written for a key is %s" % show(p)[:200], sample="%s -> %s" % (key, show(p)[:60]))
            elif t.get("p", "").endswith("::KdlValue"):
                ck.ob(scalar_ok(o, m, p) and not w, key, "the value returned is %s" % show(p)[:200], sample="%s -> %s" % (key, show(p)[:60]))
            elif T == "DocumentSerializer" and m in ("serialize_none", "serialize_unit", "serialize_unit_struct") and not w:
                ck.ob(True, key)
            else:
                good = len(w) == 1 and w[0].kind == "entry" and w[0].name is None and scalar_ok(o, m, w[0].val) and w[0].ctx in ((), (("node", S("-")),))
                ck.ob(good, key, "writes %s" % show_w(w), sample="%s -> %s" % (key, show_w(w)[:80]))

    def passes(self, T, m, k):
        """serialize_some, serialize_newtype_struct"""
        ck = self.ck
        for o in self.run(k, SIG[m]):
            what, p = self.kind(o)
            key = "%s::%s" % (T, m)
            w, odd = self.written(o)
            if what == "err":
                ck.ob(self.err_ok(o), key + ":refuses", "fails though the value inside was serialized")
                continue
            ck.ob(not odd, key + ":other changes", show_ch(odd))
            if self.okty(k)["s"] == "()":
                ck.ob(len(w) == 1 and w[0].ctx in ((), (("node", S("-")),)) and w[0].name is None and self.carries(o, w[0], VALUE), key, "writes %s" % show_w(w), sample=key + " passes its value on")
            else:
                a = p if what == "ser" else serval(p)
                ck.ob(not w and a is not None and a[1] == "ser:" + T and a[2][0] == VALUE, key, "returns %s" % show(o.ret)[:200], sample=key + " passes its value on")

    def newtype_variant(self, T, m, k):
        ck = self.ck
        for o in self.run(k, SIG[m]):
            what, p = self.kind(o)
            key = "%s::%s" % (T, m)
            if what == "err":
                ck.ob(self.err_ok(o) or self.refuses(T, m), key + ":refuses", "fails though the value inside was serialized")
                continue
            w, odd = self.written(o)
            ck.ob(what == "ok" and not odd and len(w) == 1 and w[0].name is None and nodes(w[0].ctx) == [VARIANT] and self.carries(o, w[0], VALUE), key,
                  "writes %s %s" % (show_w(w), show_ch(odd)), sample=key + " writes variant { value }")

    def refuses(self, T, m):
        """the sink cannot take this shape at all: no path succeeds"""
        k = self.impl[(T, "Serializer")][m]
        return all(self.kind(o)[0] == "err" for o in self.run(k, SIG[m]))

    def bytes(self, T, k):
        ck = self.ck
        key = T + "::serialize_bytes"
        for o in self.run(k, ["v"]):
            what, p = self.kind(o)
            if what == "err":
                ck.ob(self.err_ok(o) or self.refuses2(k), key + ":refuses", "fails though every byte was serialized")
                continue
            w, odd = self.written(o)
            good = what == "ok" and not odd and len(w) == 1 and w[0].name is None and [x for x in w[0].ctx if x[0] == "loop"] and all(x in (("node", S("-")),) or x[0] == "loop" for x in w[0].ctx)
            if good:
                t = w[0].val
                a = serval(t) if w[0].kind == "entry" else None
                v = a[2][0] if a is not None else t[2][0] if w[0].kind == "fill" else unwiden(kv(t)[1]) if kv(t)[0] == "Integer" else None
                good = v is not None and v[0] == "elem" and v[1] == V
            ck.ob(good, key, "writes %s %s" % (show_w(w), show_ch(odd)), sample=key + " writes one per byte")

    def refuses2(self, k):
        return all(self.kind(o)[0] == "err" for o in self.run(k, ["v"]))

    def hash_known(self, o):
        """the facts of the path say that the key starts with '#'"""
        for f, v in o.facts.items():
            if not isinstance(f, tuple):
                continue
            t = f[1] if f[0] == "disc" else f
            if t == KEY and is_c(v, "str") and v[2].startswith("#"):
                return True
            if t[0] == "app" and KEY in t[2]:
                other = [x for x in t[2] if x != KEY]
                h = bool(other) and ((is_c(other[0], "str") and other[0][2].startswith("#")) or other[0] == ("c", "char", ord("#")) or other[0] == ("c", "char", "#"))
                if h and t[1] in ("str.starts_with", "Eq") and v == TRUE:
                    return True
                if h and t[1] == "str.strip_prefix" and f[0] == "disc" and v == 1:
                    return True
        return False

    def hash_denied(self, o):
        for f, v in o.facts.items():
            if isinstance(f, tuple) and f[0] == "app" and KEY in f[2] and f[1] == "str.starts_with" and v == FALSE:
                other = [x for x in f[2] if x != KEY]
                if other and (other[0] == S("#") or other[0][0] == "c" and other[0][1] == "char"):
                    return True
        return False

    def skip_ok(self, o, value, rs=()):
        """the value is known to be false or null, and (where `#..` keys mean arguments and properties) the key is not such a key"""
        if any(self.hash_known(r) for r in rs) and not self.hash_denied(o):
            return False
        for e in self.sers(o):
            if e[1] == "KdlValueSerializer" and e[2] == value and o.disc(e[3]) == 0:
                p = ("fld", e[3], "Ok", "0")
                d = o.disc(p)
                a = self.P.adts[self.kvpath()]["variants"]
                if not isinstance(d, int):
                    continue
                vn = a[d]["n"]
                if vn == "Null" or (vn == "Bool" and o.facts.get(("fld", p, "Bool", "0")) == FALSE):
                    return True
        return False

    def kvpath(self):
        return next(p for p in self.P.adts if p.startswith("crate::") and p.endswith("::KdlValue"))

    def assoc(self, o, lf, keyt):
        """the leaf sits under the name of its field"""
        ns = nodes(lf.ctx)
        if lf.name is not None:
            n = lf.name
            return n == keyt or (n[0] == "fld" and n[1][0] == "app" and n[1][1] == "str.strip_prefix" and n[1][2] == (keyt, S("#@"))) or \
                (n[0] == "app" and n[1].startswith("slice:") and n[2][0] == keyt and self.hash_known(o))
        if ns and ns[-1] == keyt:
            return True
        return self.hash_known(o)

    def elem(self, o, key, args, what, variant=None, rs=()):
        """one element has been written on this path: obligations on what that added"""
        ck = self.ck
        w, odd = self.written(o)
        w = [x for x in w]
        vals = [x for x in w if x.kind != "empty"]
        empt = [x for x in w if x.kind == "empty"]
        if not ck.ob(not odd, key + ":other changes", "changes more than it adds: %s" % show_ch(odd)):
            return
        keyt = None
        if "key" in args:
            keyt = KEY
            if what == "map":
                ks = [e for e in self.sers(o) if e[1] == "KeySerializer" and e[2] == KEY]
                if not ck.ob(len(ks) == 1 and o.disc(ks[0][3]) == 0, key + ":key", "the key is not turned into a name exactly once"):
                    return
                keyt = ("fld", ks[0][3], "Ok", "0")
        if keyt is not None and not vals:
            ck.ob(self.skip_ok(o, VALUE, rs), key + ":skipped", "a field is left out though its value is not known to be false or null", sample=key + " leaves out false/null only")
            ck.ob(all(nodes(x.ctx) == [variant] for x in empt), key + ":stray node", show_w(empt))
            return
        good = len(vals) == 1 and all(variant is not None and nodes(x.ctx) == [variant] for x in empt) and self.carries(o, vals[0], VALUE)
        if not ck.ob(good, key, "writes %s" % show_w(w), sample="%s writes %s" % (key, show_w(w)[:80])):
            return
        lf = vals[0]
        if keyt is not None:
            ck.ob(self.assoc(o, lf, keyt), key + ":name", "the value of a field is written under %s" % (show_w([lf])))
        else:
            ns = nodes(lf.ctx)
            ck.ob(lf.name is None and ns in ([], [S("-")], [variant] if variant else []), key + ":place", show_w([lf]))
        if variant is not None:
            ns = nodes(lf.ctx)
            ck.ob(variant in ns or (keyt is not None and self.hash_known(o)), key + ":variant", "the variant name does not reach the output: %s" % show_w([lf]))

    def compound(self, T, m, k):
        ck = self.ck
        tr, em, args = START[m]
        variant = VARIANT if m.endswith("variant") else None
        n = 0
        for o in self.run(k, SIG[m]):
            what, st = self.kind(o)
            st = o.raw[4][0] if o.raw[0] == "agg" else st
            key = "%s::%s" % (T, m)
            if what == "err":
                ck.ob(self.refuses(T, m), key + ":refuses", "a shape this sink can take is refused")
                continue
            w, odd = self.written(o)
            # a child block may be opened early
            if not ck.ob(what == "ok" and not odd and not [x for x in w if x.kind != "empty"], key + ":start", "starting already writes %s %s" % (show_w(w), show_ch(odd))):
                continue
            S2 = self.P.types[self.P.peel(self.tyarg(k))]
            sn = S2.get("p", "").rsplit("::", 1)[-1]
            im = self.impl.get((sn, tr))
            if not ck.ob(im, key + ":state", "no %s for %s" % (tr, sn)):
                continue
            n += 1
            # no element at all
            if m == "serialize_struct_variant":
                for e in self.run(im["end"], [], state=st, st=o.st, cells=o.cells):
                    if self.kind(e)[0] == "ok":
                        w, odd = self.written(e)
                        ck.ob(len(w) == 1 and w[0].kind == "empty" and nodes(w[0].ctx) == [VARIANT], key + ":empty", "a variant with nothing in it writes %s" % show_w(w))
            es = self.elements(im, em, args, st, o)
            for e in es:
                if self.kind(e)[0] != "ok":
                    continue
                for f in self.run(im["end"], [], state=e.state(), st=e.st, cells=e.cells):
                    what, _ = self.kind(f)
                    if what == "err":
                        ck.ob(False, key + ":end refuses", "end fails")
                        continue
                    self.elem(f, key, args, "map" if tr == "SerializeMap" else tr, variant, es)
            if "key" not in args:
                # two elements: both, in order
                for e in self.elements(im, em, ["value"], st, o):
                    if self.kind(e)[0] != "ok":
                        continue
                    for e2 in self.elements(im, em, ["value2"], e.state(), e):
                        if self.kind(e2)[0] != "ok":
                            continue
                        for f in self.run(im["end"], [], state=e2.state(), st=e2.st, cells=e2.cells):
                            w, odd = self.written(f)
                            ck.ob(not odd and len(w) == 2 and self.carries(f, w[0], VALUE) and self.carries(f, w[1], sym("value2")), key + ":two", "two elements write %s" % show_w(w))

    def tyarg(self, k):
        return self.P.types[self.P.bodies[k]["locals"][0][0]]["a"][0]

    def elements(self, im, em, args, st, o):
        if em is not None:
            return self.run(im[em], args, state=st, st=o.st, cells=o.cells)
        out = []
        if "serialize_entry" in im:
            out += self.run(im["serialize_entry"], ["key", "value"], state=st, st=o.st, cells=o.cells)
        for a in self.run(im["serialize_key"], ["key"], state=st, st=o.st, cells=o.cells):
            if self.kind(a)[0] != "ok":
                self.ck.ob(self.err_ok(a), "serialize_key:refuses", "a key is refused without a reason")
                continue
            out += self.run(im["serialize_value"], ["value"], state=a.state(), st=a.st, cells=a.cells)
        return out

    def step(self, sn, tr, im):
        """elements and end on an arbitrary state"""
        ck = self.ck
        for m, k in sorted(im.items()):
            key = "%s as %s::%s" % (sn, tr, m)
            if m in HARMLESS:
                continue
            if m == "serialize_key":
                continue
            if m == "end":
                for o in self.run(k, []):
                    what, p = self.kind(o)
                    if what == "err":
                        ck.fail(key + ":refuses", "end fails")
                        continue
                    if what == "ser":
                        ck.fail(key, show(o.ret)[:100])
                        continue
                    self.owned(o, k, key)
                continue
            args = {"serialize_element": ["value"], "serialize_value": ["value"], "serialize_entry": ["key", "value"],
                    "serialize_field": ["value"] if self.P.bodies[k]["argc"] == 2 else ["key", "value"]}.get(m)
            if args is None:
                ck.fail(key + ":unknown method")
                continue
            keyed = tr in ("SerializeMap", "SerializeStruct", "SerializeStructVariant")
            rs = self.run(k, args)
            for o in rs:
                what, p = self.kind(o)
                w, odd = self.state_written(o, k)
                if what == "err":
                    ck.ob(self.err_ok(o) or m == "serialize_value" and not self.sers(o), key + ":refuses", "an element is refused though it was serialized")
                    continue
                ck.ob(what == "ok", key + ":result", show(o.ret)[:200])
                if not ck.ob(not odd, key + ":other changes", "changes more than it adds: %s" % show_ch(odd)):
                    continue
                vals = [x for x in w if x.kind != "empty"]
                if keyed and not vals:
                    ck.ob(self.skip_ok(o, VALUE, rs) and not w, key + ":skipped", "a field is left out though its value is not known to be false or null")
                    continue
                ck.ob(len(w) == 1 and len(vals) == 1 and self.carries(o, vals[0], VALUE), key, "writes %s" % show_w(w), sample="%s writes %s" % (key, show_w(w)[:80]))

    def state_written(self, o, k):
        """like written, for a state that also holds things of its own"""
        out, odd = [], []
        sty = self.P.bodies[k]["locals"][1][0]
        for n, c, init, ty in o.cells:
            chs = diff(o, init, o.final(c), [])
            for ch in chs:
                own_state = n == "self"
                if ch[0] in ("add", "some"):
                    if own_state or not ch[1] or ch[1][-1] in ("entries", "nodes", "children"):
                        leaves(o, ch[2], (), out)
                    else:
                        odd.append(ch)
                elif ch[0] == "fill":
                    out.append(Leaf("fill", (), None, ch[2]))
                elif own_state and self.scalar_state(ch):
                    pass
                else:
                    odd.append(ch)
        return out, odd

    def scalar_state(self, ch):
        """a pending key that was taken, a counter or flag: what the state remembers, not what it wrote"""
        return len(ch[1]) == 1 and not mentions(ch[3], lambda x: x[0] == "app" and x[1].startswith(("ser:", "filled:")))

    def owned(self, o, k, key):
        """what the state owns itself must be in the output when it ends"""
        ck = self.ck
        b = self.P.bodies[k]
        t = self.P.types[self.P.peel(b["locals"][1][0])]
        a = self.P.adts.get(t.get("p"))
        if not a or a["kind"] != "struct":
            return
        chs = self.changes(o)
        n = 0
        for f in a["variants"][0]["f"]:
            ft = self.P.types[f["t"]]
            if ft["k"] != "adt":
                continue
            nm = ft["p"].rsplit("::", 1)[-1]
            src = sym("self." + f["n"])
            if nm in ("KdlNode", "KdlDocument"):
                parts = ["entries", "children"] if nm == "KdlNode" else ["nodes"]
            elif nm == "Vec" and self.P.types[ft["a"][0]].get("p", "").rsplit("::", 1)[-1] in ("KdlValue", "KdlNode", "KdlEntry"):
                parts = [None]
            else:
                continue
            n += 1
            for p in parts:
                x = src if p is None else ("fld", src, None, p)
                got = sum(count_in(ch[2:], x) for ch in chs)
                ck.ob(got == 1, "%s:%s" % (key, f["n"]), "%s of the state is in the output %d times when it ends" % (f["n"], got), sample="%s writes %s" % (key, f["n"]))
        if n == 0:
            ck.ob(not chs, key, "ending changes the output: %s" % show_ch(chs))


def count_in(t, x):
    """places where the whole of x (all of it, or each of its elements in a loop without conditions) occurs"""
    if t == x:
        return 1
    if not isinstance(t, (tuple, frozenset)):
        return 0
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "all" and t[1] == x:
        return 1
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "loopacc" and isinstance(t[2], frozenset):
        if len(t[2]) != 1:
            return 0
        (items, facts), = t[2]
        e = find(items, lambda y: len(y) == 3 and y[0] == "elem" and y[1] == x, [])
        if e:
            return 1 if not facts and len(items) == 1 and len(e) == 1 else 0
    return sum(count_in(y, x) for y in t)


def nodes(ctx):
    return [x[1] for x in ctx if x[0] == "node"]


def show_w(w):
    return "[" + ", ".join("%s%s%s%s" % ("".join(show(x[1])[:40] + "/" if x[0] == "node" else "each " for x in l.ctx), l.kind, "" if l.name is None else " " + show(l.name)[:60],
                                      "" if l.val is None else " " + show(l.val)[:120]) for l in w) + "]"


def show_ch(chs):
    return "; ".join("%s %s %s" % (c[0], ".".join(c[1]), " -> ".join(show(x)[:80] for x in c[2:])) for c in chs)[:300]


def one(ck, P):
    x = X(ck, P)
    sers = sorted(T for T, tr in x.impl if tr == "Serializer")
    if not sers:
        raise Anchor("no Serializer in the crate")
    for T in sers:
        im = x.impl[(T, "Serializer")]
        ck.count("serializers")
        for m, k in sorted(im.items()):
            ck.count("methods")
            if m in HARMLESS:
                continue
            if m in SCALARS or m == "collect_str":
                x.scalar(T, m, k)
            elif m in ("serialize_some", "serialize_newtype_struct"):
                x.passes(T, m, k)
            elif m == "serialize_newtype_variant":
                x.newtype_variant(T, m, k)
            elif m == "serialize_bytes":
                x.bytes(T, k)
            elif m in START:
                x.compound(T, m, k)
            else:
                ck.fail("%s::%s:unknown method" % (T, m))
    for (sn, tr), im in sorted(x.impl.items()):
        if tr != "Serializer":
            ck.count("states")
            x.step(sn, tr, im)
    top(ck, P, x)
    for I in x.S.interps:
        ck.used(I)


def top(ck, P, x):
    """to_document: the document the value was serialized into; to_string: the text of it"""
    k = "crate::se::to_document"
    for o in x.run(k, []) if k in P.bodies else [None]:
        if o is None:
            raise Anchor(k)
        what, p = x.kind(o)
        if what == "err":
            ck.ob(x.err_ok(o), "to_document:refuses", "fails though the value was serialized")
            continue
        ev = x.sers(o)
        good = what == "ok" and len(ev) == 1 and o.disc(ev[0][3]) == 0 and p[0] == "fld" and p[1][0] == "app" and p[1][1] == "filled:" + ev[0][1] and p[1][2][0] == ev[0][2]
        ck.ob(good, "to_document", show(p)[:200], sample="to_document returns what the value was written into")
    k = "crate::se::to_string"
    if k not in P.bodies:
        raise Anchor(k)
    disp = {b for b in P.bodies if b.endswith("document::KdlDocument as std::fmt::Display>::fmt")}
    s2 = Ser(P, x.api, no_inline=disp)
    x.S, keep = s2, x.S
    for o in x.run(k, []):
        what, p = x.kind(o)
        if what == "err":
            ck.ob(x.err_ok(o), "to_string:refuses", "fails though the value was serialized")
            continue
        ev = x.sers(o)
        good = what == "ok" and len(ev) == 1 and o.disc(ev[0][3]) == 0 and p[0] == "app" and any(p[1].startswith(d) for d in disp) and p[2][0][0] == "fld" and \
            p[2][0][1][0] == "app" and p[2][0][1][1] == "filled:" + ev[0][1] and p[2][0][1][2][0] == ev[0][2] and all(a == S("") for a in p[2][1:])
        ck.ob(good, "to_string", show(p)[:200], sample="to_string is the text of what the value was written into")
    x.S = keep
    for I in s2.interps:
        ck.used(I)
