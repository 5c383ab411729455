"""Which text a parser consumes and where that text goes.

`Exec` runs parser functions over an abstract input position: the sequence of text segments consumed so far.
Combinator calls are interpreted by their documented meaning on that position (ordered choice forks, look-ahead
puts the position back, `take` yields the consumed text).  A text is identified by its grammar (a skeleton of the
combinator term with everything that only affects values stripped) and the position it starts at, so that looking
ahead and then consuming the same grammar at the same position give the same text.  Parser functions returning a
tree component are replaced by contracts: the consumed text expressed through the component's fields.
Cut failures are dropped: C10 shows that they are returned or recorded, so that the parse as a whole fails.
"""
from . import absint, models
from .absint import Interp, St, sym, app, is_c, S, I as INT, C, cat, cat_items, OPT, RES, UNIT, TRUE, FALSE, none, some, ok, err, tup, mentions, subst, show
from .common import Anchor, payload
from .meth import fget

EM = "winnow::error::ErrMode"
PASS0 = ("context", "with_span", "by_ref", "err_into", "complete_err", "void", "value", "default_value", "map", "take", "recognize", "with_taken", "output_into", "verify_map", "verify", "try_map", "span")


class NoModel(absint.Unsupported):
    pass


def last(n):
    return str(n).rsplit("::", 1)[-1]


class Contract:
    """what a parser function returning a tree component promises about the text it consumed:
    text = pre + rendering of the component + post, without the terminator (which is only looked at)"""
    def __init__(self, key, tree, opt):
        self.key, self.tree, self.opt = key, tree, opt
        self.pre = self.post = ()
        self.term = None          # grammar of the terminator that is looked at but not consumed
        self.termpath = None
        self.shape = {}           # path in the component -> ("const", v) | ("first", grammar) | ("var", variant name)
        self.backs = ("?",)       # why the function may fail without consuming: ((grammars before), grammar ahead)

    def sig(self):
        return (self.pre, self.post, self.term, self.termpath, tuple(sorted(self.shape.items(), key=str)), self.backs)


class Exec:
    def __init__(self, P, api):
        self.P, self.api = P, api
        self.tree = {api.ty(t): t for t in ("KdlDocument", "KdlNode", "KdlEntry", "KdlIdentifier")}
        self.contracts = {}
        self.todo = []
        self.errors = []
        self.proved = []
        self.fnpaths = {}
        self.fnback = {}
        self.posn = {}
        self.used = set()
        self.n = 0
        self.fields = {}
        for t in ("KdlDocument", "KdlNode", "KdlEntry", "KdlIdentifier"):
            self.fields[t] = [f["n"] for f in P.adts[api.ty(t)]["variants"][0]["f"]]
        self.inst = {}            # instance symbol -> (contract, agg at creation)
        self.lists = {}           # list symbol -> info

    # ------------------------------------------------------------ types
    def out_type(self, key):
        b = self.body(key)
        t = self.P.types[b["locals"][0][0]]
        if t["k"] == "adt" and t["p"] == RES and t["a"]:
            return t["a"][0]
        return None

    def body(self, key):
        return self.P.bodies.get(key) or self.P.bodies.get(str(key).split("@")[0])

    def kind(self, ty):
        """('tree', name, optional) / 'inline' / 'opaque'"""
        t = self.P.types[ty]
        if t["k"] == "adt" and t["p"] in self.tree:
            return ("tree", self.tree[t["p"]], False)
        if t["k"] == "adt" and t["p"] == OPT:
            u = self.P.types[t["a"][0]]
            if u["k"] == "adt" and u["p"] in self.tree:
                return ("tree", self.tree[u["p"]], True)
            if u["k"] == "adt" and u["p"].endswith("::KdlValue"):
                return ("optvalue",)
        s = t["s"]
        if any(x in s for x in self.tree) or "KdlNodeFormat" in s or "KdlEntryFormat" in s or "KdlDocumentFormat" in s:
            return ("inline",)
        if t["k"] in ("ref", "tuple") and "str" in s:
            return ("inline",)
        if t["k"] == "param":
            return ("opaque",)
        return ("opaque",)

    # ------------------------------------------------------------ positions and texts
    def pos(self, st):
        return st.mem[("input",)]

    def posid(self, pos):
        n = self.posn.get(pos)
        if n is None:
            n = len(self.posn)
            self.posn[pos] = n
        return ("pid", n)

    def at(self, sk, pos):
        return app("at", sk, self.posid(pos))

    def text(self, st, sk):
        """the text of this grammar at the current position, "" if there can be none"""
        pos = self.pos(st)
        if is_c(sk, "str"):
            return sk
        if sk[0] == "app" and sk[1] == "fn":
            ps = self.segs_of(sk[2][0][1])
            if ps is not None and len(ps) == 1 and len(ps[0]) <= 1 and all(is_c(x, "str") for x in ps[0]):
                return ps[0][0] if ps[0] else S("")
        r = self.rep_of(sk)
        if r is not None and pos[2]:
            p = pos[2][-1]
            if p[0] == "app" and p[1] == "at" and r[0] in self.tails(p[2][0]):
                return S("")
        pid = self.posid(pos)
        for e in st.trace:
            if e[0] == "ahead" and e[2] == pid and self.cannot_start(sk, e[1]):
                return S("")
        return app("at", sk, pid)

    def cannot_start(self, sk, ahead):
        """what was seen ahead rules out a non-empty match of sk"""
        a, b = self.firsts(ahead), self.firsts(sk)
        return a is not None and b is not None and not (a & b)

    def firsts(self, sk, depth=0):
        """the characters a non-empty match may start with, None if unknown"""
        if depth > 10:
            return None
        if sk[0] == "c":
            return {sk[2][0]} if sk[1] == "str" and sk[2] else {chr(sk[2])} if sk[1] == "char" else set() if sk[1] == "str" else None
        if sk[0] != "app":
            return None
        n, a = sk[1], sk[2]
        if n == "alt":
            r = set()
            for x in a:
                y = self.firsts(x, depth + 1)
                if y is None:
                    return None
                r |= y
            return r
        if n == "opt":
            return self.firsts(a[0], depth + 1)
        if n == "rep":
            return self.firsts(a[1], depth + 1)
        if n == "seq":
            r = set()
            for x in a:
                y = self.firsts(x, depth + 1)
                if y is None:
                    return None
                r |= y
                if self.least(x) > 0:
                    return r
            return r
        if n == "tok" and last(a[0][1]) == "eof":
            return set()
        if n == "fn":
            ps = self.segs_of(a[0][1])
            if ps is None:
                return None
            r = set()
            for p in ps:
                for x in p:
                    y = {x[2][0]} if is_c(x, "str") else self.firsts(x[2][0], depth + 1) if x[0] == "app" and x[1] == "at" else None
                    if y is None:
                        return None
                    r |= y
                    if self.leastseg(x) > 0:
                        break
            return r
        return None

    def total(self, sk, depth=0):
        """a parser of this grammar always succeeds (or fails with a recorded or cut error)"""
        if depth > 10 or sk[0] != "app":
            return False
        n, a = sk[1], sk[2]
        if n in ("opt",):
            return True
        if n == "rep" or n == "take_while" or n == "take_till":
            return self.low(a[0]) == 0
        if n == "separated":
            return self.low(a[0]) == 0
        if n == "seq":
            return all(self.total(x, depth + 1) for x in a)
        if n == "alt":
            return any(self.total(x, depth + 1) for x in a)
        if n == "peek":
            return self.total(a[0], depth + 1)
        if n == "tok":
            return last(a[0][1]) in ("empty", "space0", "multispace0", "digit0", "rest")
        if n == "fn":
            self.segs_of(a[0][1])
            return self.fnback.get(a[0][1]) is False
        return False

    def nonempty(self, st, t):
        """this text is not empty on this path"""
        if is_c(t, "str"):
            return t[2] != ""
        if t[0] == "cat":
            return any(self.nonempty(st, x) for x in cat_items(t))
        if t[0] == "app" and t[1] == "at":
            sk, pid = t[2]
            if self.least(sk) > 0:
                return True
            hs = self.heads(sk)
            for e in st.trace:
                if e[0] == "looked" and e[2] == pid:
                    r = self.rep_of(e[1])
                    if r is not None and r[1] and r[0] in hs and self.least(r[0]) > 0:
                        return True
                    if self.least(e[1]) > 0 and e[1] in hs:
                        return True
        return False

    def consume(self, st, *segs):
        st = st.copy()
        st.mem[("input",)] = app("pos", *(self.pos(st)[2] + tuple(x for x in segs if x != S(""))))
        return st

    # ------------------------------------------------------------ skeletons
    def skel(self, t):
        k = t[0]
        if k == "c":
            return t
        if k == "agg" and t[1] in ("tuple", "array"):
            return app("seq", *[self.skel(x) for x in t[4]])
        if k == "agg" and t[1].endswith("Caseless"):
            return app("caseless", t[4][0])
        if k == "fn":
            key = t[3] or t[2] or t[1]
            b = self.body(key) if t[3] else None
            if "winnow" in t[1] or b is None:
                return app("tok", ("sym", t[1]))
            return app("fn", ("sym", key))
        if k == "clo":
            return app("clo", ("sym", str(t[1])), *[self.skel(x) if x[0] in ("fn", "clo", "app", "agg", "c") else x for x in t[3]])
        if k == "app" and "winnow" in str(t[1]):
            n, a = last(t[1]), t[2]
            if n in PASS0:
                return self.skel(a[0])
            if n == "trace":
                return self.skel(a[1])
            if n == "cut_err":
                return self.skel(a[0])
            if n == "alt":
                return app("alt", *[self.skel(x) for x in a[0][4]]) if a[0][0] == "agg" else app("alt?", a[0])
            if n in ("opt", "peek", "not"):
                return app(n, self.skel(a[0]))
            if n == "repeat":
                return app("rep", a[0], self.skel(a[1]))
            if n == "fold" and a[0][0] == "app" and last(a[0][1]) == "repeat":
                return self.skel(a[0])
            if n in ("preceded", "terminated", "delimited", "separated_pair"):
                return app("seq", *[self.skel(x) for x in a])
            if n in ("separated", "repeat_till"):
                return app(n, a[0], self.skel(a[1]), self.skel(a[2]))
            if n in ("take_while", "take_till", "one_of", "none_of", "literal"):
                return app(n, *[self.skel(x) if x[0] in ("c", "clo") else x for x in a])
            return app("w:" + n, *a)
        return app("dyn", t)

    def rep_of(self, sk, lo=None):
        """grammar repeated greedily, if sk is a plain repetition (following functions that consist of one)"""
        for _ in range(6):
            if sk[0] == "app" and sk[1] == "rep":
                l = self.low(sk[2][0])
                return (sk[2][1], l)
            if sk[0] == "app" and sk[1] == "opt":      # opt(x{0,} or x{1,}) is x{0,}
                r = self.rep_of(sk[2][0])
                return (r[0], 0) if r is not None and r[1] in (0, 1) else None
            if sk[0] == "app" and sk[1] == "seq" and len(sk[2]) == 1:
                sk = sk[2][0]
                continue
            if sk[0] == "app" and sk[1] == "fn":
                ps = self.segs_of(sk[2][0][1])
                if ps is not None and self.or_nothing(ps):
                    ps = [p for p in ps if p]
                if ps is not None and len(ps) == 1 and len(ps[0]) == 1 and ps[0][0][0] == "app" and ps[0][0][1] == "at":
                    sk = ps[0][0][2][0]
                    continue
            return None
        return None

    def low(self, r):
        if r[0] == "agg":
            n = last(r[1])
            if n in ("RangeFrom", "Range") and is_c(r[4][0], "int"):
                return r[4][0][2]
            if n in ("RangeFull", "RangeTo", "RangeToInclusive"):
                return 0
        return None

    def unbounded(self, r):
        return r[0] == "agg" and last(r[1]) in ("RangeFrom", "RangeFull")

    def segs_of(self, key):
        """consumed segments of every successful path of a parser function without a contract"""
        if key in self.fnpaths:
            return self.fnpaths[key]
        self.fnpaths[key] = None
        try:
            r = []
            rs = self.run_fn(key)
            self.fnback[key] = bool(self.back)
            for s, v in rs:
                x = self.pos(s)[2]
                if x not in r:
                    r.append(x)
            self.fnpaths[key] = r
        except (NoModel, absint.Unsupported, absint.Budget):
            self.fnpaths[key] = None
        return self.fnpaths[key]

    def or_nothing(self, ps):
        """these paths are those of one optional text"""
        return len(ps) == 2 and () in ps and all(len(p) < 2 and all(x[0] == "app" and x[1] == "at" and x[2][0][0] == "app" and x[2][0][1] == "opt" for x in p) for p in ps)

    def tails(self, sk, depth=0):
        """grammars Q such that a text of this grammar cannot be followed by another Q (it ends in a greedy repetition of Q)"""
        if depth > 8:
            return set()
        if sk[0] != "app":
            return set()
        n, a = sk[1], sk[2]
        if n == "rep":
            return {a[1]} if self.unbounded(a[0]) else set()
        if n == "seq" and a:
            return self.tails(a[-1], depth + 1)
        if n == "alt" and a:
            r = self.tails(a[0], depth + 1)
            for x in a[1:]:
                r &= self.tails(x, depth + 1)
            return r
        if n == "opt":
            r = self.rep_of(sk)
            return {r[0]} & self.tails(a[0], depth + 1) if r is not None else set()
        if n == "fn":
            ps = self.segs_of(a[0][1])
            if not ps:
                return set()
            if self.or_nothing(ps):
                ps = [p for p in ps if p]
            r = None
            for p in ps:
                x = self.tails(p[-1][2][0], depth + 1) if p and p[-1][0] == "app" and p[-1][1] == "at" else set()
                r = x if r is None else r & x
            return r
        return set()

    def heads(self, sk, depth=0):
        """grammars Q such that a text of this grammar starts with a greedy repetition of Q"""
        if depth > 8 or sk[0] != "app":
            return set()
        n, a = sk[1], sk[2]
        if n == "rep":
            return {a[1]} if self.unbounded(a[0]) else set()
        if n == "seq" and a:
            return self.heads(a[0], depth + 1)
        if n == "opt":
            r = self.rep_of(sk)
            return {r[0]} & self.heads(a[0], depth + 1) if r is not None else set()
        if n == "fn":
            ps = self.segs_of(a[0][1])
            if not ps:
                return set()
            if self.or_nothing(ps):
                ps = [p for p in ps if p]
            r = None
            for p in ps:
                x = self.heads(p[0][2][0], depth + 1) if p and p[0][0] == "app" and p[0][1] == "at" else set()
                r = x if r is None else r & x
            return r
        return set()

    def never(self, sk):
        """this grammar matches nothing"""
        if sk[0] != "app":
            return False
        n, a = sk[1], sk[2]
        if n == "seq":
            if any(self.never(x) for x in a):
                return True
            for x, y in zip(a, a[1:]):
                if x == app("tok", ("sym", x[2][0][1])) if x[0] == "app" and x[1] == "tok" else False:
                    if last(x[2][0][1]) == "eof" and self.least(y) > 0:
                        return True
            return False
        if n == "tok":
            return last(a[0][1]) == "fail"
        if n == "alt":
            return all(self.never(x) for x in a)
        return False

    def least(self, sk, depth=0):
        """lower bound on the length of a match"""
        if depth > 8:
            return 0
        if sk[0] == "c":
            return len(sk[2]) if sk[1] == "str" else 1 if sk[1] == "char" else 0
        if sk[0] != "app":
            return 0
        n, a = sk[1], sk[2]
        if n == "seq":
            return sum(self.least(x, depth + 1) for x in a)
        if n == "alt":
            xs = [self.least(x, depth + 1) for x in a if not self.never(x)]
            return min(xs) if xs else 0
        if n == "rep":
            return (self.low(a[0]) or 0) * self.least(a[1], depth + 1)
        if n == "tok":
            return 1 if last(a[0][1]) in ("any", "digit1", "hex_digit1", "oct_digit1", "alpha1", "space1", "newline") else 0
        if n in ("one_of", "none_of"):
            return 1
        if n == "take_while":
            return self.low(a[0]) or 0
        if n == "fn":
            ps = self.segs_of(a[0][1])
            if not ps:
                return 0
            return min(sum(self.leastseg(x, depth + 1) for x in p) for p in ps)
        return 0

    def leastseg(self, x, depth=0):
        if is_c(x, "str"):
            return len(x[2])
        if x[0] == "app" and x[1] == "at":
            return self.least(x[2][0], depth)
        return 0

    # ------------------------------------------------------------ running
    def interp(self):
        I = Interp(self.P, hooks=[self.hook], display_tokens={k for k in self.P.adts if k.startswith("crate::")}, max_depth=60, max_steps=400000)
        return I

    def run_fn(self, key, args=None, I=None):
        b = self.body(key)
        if b is None or b["argc"] != 1:
            raise NoModel("parser function %s" % key)
        I = I or self.interp()
        st = St()
        st.mem[("input",)] = app("pos")
        rs = I.run_body(b, key, [("ref", ("input",), ())], st, ("consume", key))
        self.used.add(b["path"])
        self.used |= I.inlined
        out, back = [], []
        for s, v in rs:
            v = I.freeze(s, v)
            if v[0] == "agg" and v[1] == RES:
                if v[2] == 0:
                    out.append((s, v[4][0]))
                elif not (v[4][0][0] == "agg" and v[4][0][1] == EM and v[4][0][3] == "Cut"):
                    back.append(s)
            elif v[0] == "app" and v[1] == "dead":
                pass
            else:
                raise NoModel("parser result %s" % show(v)[:80])
        self.I, self.back = I, back
        return out

    # ------------------------------------------------------------ parser terms
    def has_tree(self, t):
        """does the parser's value carry text or tree components that matter?"""
        k = t[0]
        if k == "c":
            return False
        if k == "agg":
            return any(self.has_tree(x) for x in t[4])
        if k == "fn":
            key = t[3]
            if not key or self.body(key) is None or "winnow" in t[1]:
                return False
            ty = self.out_type(key)
            return ty is not None and self.kind(ty)[0] in ("tree", "inline", "optvalue")
        if k == "clo":
            return True
        if k == "app":
            n, a = last(t[1]), t[2]
            if n in ("take", "recognize", "with_taken"):
                return True
            if n in ("void", "not", "value"):
                return False
            return any(self.has_tree(x) for x in a if x[0] in ("agg", "fn", "clo", "app"))
        return False

    def opaque(self, I, st, t, lit=True):
        """consume a text of this parser's grammar"""
        sk = self.skel(t)
        if self.never(sk):
            return [(st, "back", None)]
        x = self.text(st, sk)
        r = [(self.consume(st, x), "ok", x)]
        if not self.total(sk):
            r.append((st, "back", None))
        return r

    def ex(self, I, st, t, site):
        """-> [(state, 'ok'|'back', value)]"""
        self.n += 1
        k = t[0]
        if k == "ref":
            return self.ex(I, st, I.deref(st, t), site)
        if k == "c":
            if t[1] in ("str", "char"):
                lit = t if t[1] == "str" else S(chr(t[2]))
                return [(self.consume(st, lit), "ok", t), (st, "back", None)]
            raise NoModel("parser constant")
        if k == "agg":
            if t[1] == "tuple":
                return self.seq(I, st, list(t[4]), site, lambda vs: tup(*vs))
            return self.opaque(I, st, t)
        if k == "fn":
            return self.call_fn(I, st, t, site)
        if k == "clo":
            return self.call_clo(I, st, t, site)
        if k != "app" or "winnow" not in str(t[1]):
            raise NoModel("parser %s" % show(t)[:80])
        n, a = last(t[1]), t[2]
        if n in ("context", "by_ref", "complete_err", "err_into"):
            return self.ex(I, st, a[0], site)
        if n == "trace":
            return self.ex(I, st, a[1], site)
        if n == "cut_err":
            return [x for x in self.ex(I, st, a[0], site) if x[1] == "ok"]
        if n in ("take", "recognize"):
            return self.opaque(I, st, a[0])
        if n == "void":
            return [(s, o, UNIT if o == "ok" else v) for s, o, v in self.opaque(I, st, a[0])]
        if n == "value":
            return [(s, o, a[1] if o == "ok" else v) for s, o, v in self.opaque(I, st, a[0])]
        if n == "with_span" or n == "with_taken":
            n0 = len(self.pos(st)[2])
            out = []
            for s, o, v in self.ex(I, st, a[0], (site, "w")):
                if o == "ok":
                    d = self.pos(s)[2][n0:]
                    v = tup(v, cat(*d) if n == "with_taken" else app("spanof", self.posid(self.pos(s))))
                out.append((s, o, v))
            return out
        if n == "peek":
            out = []
            for s, o, v in self.ex(I, st, a[0], (site, "p")):
                if o == "ok":
                    s = s.copy()
                    s.mem[("input",)] = self.pos(st)
                    s.ev("looked", self.skel(a[0]), self.posid(self.pos(st)))
                out.append((s, o, v))
            return out
        if n == "not":
            s = st.copy()
            s.ev("ahead", self.skel(a[0]), self.posid(self.pos(st)))
            return [(st, "ok", UNIT), (s, "back", None)]
        if n == "opt":
            out = []
            sk = app("opt", self.skel(a[0]))
            here = self.text(st, sk)
            if here == S(""):
                return [(st, "ok", none())]
            if self.has_tree(a[0]):
                for s, o, v in self.ex(I, st, a[0], (site, "o")):
                    if o == "ok":
                        out.append((s, "ok", some(v)))
                    else:
                        s = s.copy()
                        s.mem[("input",)] = self.pos(st)
                        s.ev("empty", here)
                        out.append((s, "ok", none()))
                return out
            s = self.consume(st, here)
            out.append((s, "ok", some(self.optval(I, s, a[0], here))))
            s = st.copy()
            s.ev("empty", here)
            out.append((s, "ok", none()))
            return out
        if n == "alt":
            items = a[0][4] if a[0][0] == "agg" else None
            if items is None:
                raise NoModel("alternatives %s" % show(a[0])[:60])
            if not any(self.has_tree(x) or self.valued(x) for x in items):
                return self.opaque(I, st, t)
            out = []
            for i, x in enumerate(items):
                out += [r for r in self.ex(I, st, x, (site, "a", i)) if r[1] == "ok"]
            out.append((st, "back", None))
            return out
        if n == "map":
            return self.mapped(I, st, a[0], a[1], site, "map")
        if n in ("verify_map", "try_map", "verify"):
            return self.mapped(I, st, a[0], a[1], site, n)
        if n in ("output_into",):
            return self.ex(I, st, a[0], site)
        if n == "preceded":
            return self.seq(I, st, list(a), site, lambda vs: vs[1])
        if n == "terminated":
            return self.seq(I, st, list(a), site, lambda vs: vs[0])
        if n == "delimited":
            return self.seq(I, st, list(a), site, lambda vs: vs[1])
        if n == "separated_pair":
            return self.seq(I, st, list(a), site, lambda vs: tup(vs[0], vs[2]))
        if n == "repeat" and self.has_tree(a[1]):
            return self.repeat(I, st, a, site)
        if n == "fold" and a[0][0] == "app" and last(a[0][1]) == "repeat":
            if self.has_tree(a[0][2][1]):
                return self.fold(I, st, a, site)
            return [(s, o, app("valueof", v) if o == "ok" else v) for s, o, v in self.opaque(I, st, a[0])]
        if n == "separated" and self.has_tree(a[1]):
            return self.separated(I, st, a, site)
        if n == "fail":
            return [(st, "back", None)]
        if n in ("repeat", "separated", "repeat_till", "take_while", "take_till", "one_of", "none_of", "literal"):
            out = []
            for s, o, v in self.opaque(I, st, t):
                if o == "ok" and n in ("repeat", "separated", "repeat_till", "one_of", "none_of"):
                    v = app("valueof", v)
                out.append((s, o, v))
            return out
        raise NoModel("combinator " + n)

    def valued(self, x):
        """parsers whose value is worth telling apart"""
        return x[0] == "app" and last(x[1]) in ("map", "value")

    def optval(self, I, st, t, here):
        k = t[0]
        if k == "c":
            return t
        if k == "app" and last(t[1]) in ("take", "recognize"):
            return here
        if k == "app" and last(t[1]) == "void":
            return UNIT
        if k == "fn" and t[3] and self.body(t[3]):
            ty = self.out_type(t[3])
            if ty is not None and self.P.types[ty]["s"] == "()":
                return UNIT
        return app("valueof", here)

    def seq(self, I, st, ts, site, mk):
        outs = [(st, [])]
        back = []
        for i, t in enumerate(ts):
            nxt = []
            for s, vs in outs:
                for s2, o, v in self.ex(I, s, t, (site, i)):
                    if o == "ok":
                        nxt.append((s2, vs + [v]))
                    else:
                        back.append((self.restore(s2, st), "back", None))
            outs = nxt
        return self.dedup([(s, "ok", mk(vs)) for s, vs in outs] + back)

    def mapped(self, I, st, p, f, site, kind):
        out = []
        for s, o, v in self.ex(I, st, p, (site, "m")):
            if o != "ok":
                out.append((s, o, v))
                continue
            if kind == "verify":
                s = s.copy()
                s.mem[(site, "va")] = v
                for s2, r in models.callf(I, s, f, [("ref", (site, "va"), ())], (site, "f")):
                    for s3, b in I.branch_bool(s2, r):
                        out.append((s3, "ok", v) if b else (self.restore(s3, st), "back", None))
                continue
            if kind == "map" and f[0] == "fn" and last(f[1]) == "Some" and self.body(f[1]) is None:
                out.append((s, "ok", some(v)))
                continue
            cell = (site, "fc")
            s = s.copy()
            s.mem[cell] = f
            if f[0] == "clo":
                b = self.P.bodies.get(f[1]) or self.P.bodies.get(f[2])
                if b is not None and b["argc"] == 2:
                    I.settype(v, b["locals"][2][0])
            for s2, r in models.callf(I, s, ("ref", cell, ()) if f[0] == "clo" else f, [v], (site, "f")):
                if kind == "map":
                    out.append((s2, "ok", r))
                    continue
                adt = OPT if kind == "verify_map" else RES
                for s3, vi in I.branch_variant(s2, r, adt):
                    good = vi == (1 if adt == OPT else 0)
                    if good:
                        r3 = I.deref(s3, r)
                        vn = "Some" if adt == OPT else "Ok"
                        m = I.materialize(r3, vn) or r3
                        out.append((s3, "ok", I.field(m, vn, 0, "0")))
                    else:
                        out.append((self.restore(s3, st), "back", None))
        return out

    def restore(self, s, st):
        s = s.copy()
        s.mem[("input",)] = self.pos(st)
        return s

    def call_fn(self, I, st, t, site):
        n = t[1]
        if "winnow" in n:
            m = last(n)
            if m == "eof":
                return [(st, "ok", S("")), (st, "back", None)]
            if m == "empty":
                return [(st, "ok", UNIT)]
            if m == "fail":
                return [(st, "back", None)]
            return self.opaque(I, st, t)
        key = t[3]
        if not key or self.body(key) is None:
            raise NoModel("parser %s" % n)
        ty = self.out_type(key)
        if ty is None:
            raise NoModel("parser %s does not return a Result" % key)
        kd = self.kind(ty)
        if kd[0] == "tree":
            return self.by_contract(I, st, key, kd)
        if kd[0] == "optvalue":
            c = self.some_only(key)
            out = []
            for s, o, v in self.opaque(I, st, t):
                if o == "ok":
                    w = app("valueof", v)
                    I.settype(w, self.P.types[ty]["a"][0] if c else ty)
                    v = some(w) if c else w
                out.append((s, o, v))
            return out
        if kd[0] == "inline" and len(I.stack) < 50 and I.stack.count(key) == 0:
            out = []
            for s, v in I.run_body(self.body(key), key, [("ref", ("input",), ())], st, (site, "call"), 0):
                I.inlined.add(self.body(key)["path"])
                out += self.result(I, s, v, st)
            return self.dedup(out)
        out = []
        for s, o, v in self.opaque(I, st, t):
            if o == "ok":
                w = UNIT if self.P.types[ty]["s"] == "()" else app("valueof", v)
                if w != UNIT:
                    I.settype(w, ty)
                v = w
            out.append((s, o, v))
        return out

    def result(self, I, s, v, st):
        v = I.deref(s, v)
        if v[0] == "agg" and v[1] == RES:
            if v[2] == 0:
                return [(s, "ok", v[4][0])]
            e = v[4][0]
            if e[0] == "agg" and e[1] == EM and e[3] == "Cut":
                return []
            return [(self.restore(s, st), "back", None)]
        if v[0] == "app" and v[1] == "dead":
            return []
        out = []
        for s2, vi in I.branch_variant(s, v, RES):
            m = I.materialize(v, "Ok" if vi == 0 else "Err") or v
            out.append((s2, "ok", I.field(m, "Ok", 0, "0")) if vi == 0 else (self.restore(s2, st), "back", None))
        return out

    def dedup(self, out):
        """failing outcomes differ only in what they saw ahead"""
        r, seen = [], set()
        for x in out:
            if x[1] == "back":
                k = frozenset(e for e in x[0].trace if e[0] == "ahead")
                if k in seen:
                    continue
                seen.add(k)
            r.append(x)
        return r

    def call_clo(self, I, st, t, site):
        b = self.P.bodies.get(t[1]) or self.P.bodies.get(t[2])
        if b is None:
            raise NoModel("closure parser")
        cell = (site, "pc")
        s = st.copy()
        s.mem[cell] = t
        ty = self.P.types[b["locals"][1][0]]
        first = ("ref", cell, ()) if ty["k"] == "ref" else t
        out = []
        for s2, v in I.run_body(b, t[1], [first, ("ref", ("input",), ())], s, (site, "clo"), 0):
            out += self.result(I, s2, v, st)
        return self.dedup(out)

    # ------------------------------------------------------------ contracts
    def some_only(self, key):
        """a parser function returning an option returns None only after recording an error"""
        k = ("some", key)
        if k in self.contracts:
            return self.contracts[k]
        self.contracts[k] = True
        r = all(v[0] == "agg" and v[2] == 1 for s, v in self.run_fn(key))
        self.contracts[k] = r
        return r

    def contract(self, key):
        c = self.contracts.get(key)
        if c is None:
            kd = self.kind(self.out_type(key))
            c = self.contracts[key] = Contract(key, kd[1], kd[2])
            self.todo.append(key)
        return c

    def reaches(self, key, pred):
        """some function referred to from `key`, however indirectly, satisfies pred"""
        from .checks.c32 import fns
        seen, todo = set(), [key]
        while todo:
            k = todo.pop()
            if k in seen or k not in self.P.bodies:
                continue
            seen.add(k)
            b = self.P.bodies[k]
            for f in fns(b["blocks"]) + fns(b.get("promoted") or []):
                if pred(f.get("r") or f["fn"]) or pred(f["fn"]):
                    return True
                if f.get("key"):
                    todo.append(f["key"])
            base = k.split("@")[0]
            todo += [x for x in self.P.bodies if x.split("@")[0].startswith(base + "::{closure")]
        return False

    def solve(self, roots):
        """derive the contracts used from `roots` as a fixed point, judging them in the last round"""
        for k in roots:
            self.contract(k)
        for _ in range(12):
            before = {k: c.sig() for k, c in self.contracts.items() if isinstance(c, Contract)}
            self.errors, self.proved = [], []
            self.todo = list(before)
            new = {}
            while self.todo:
                k = self.todo.pop(0)
                if k not in new:
                    new[k] = self.derive(self.contracts[k])
            after = {k: c.sig() for k, c in new.items()}
            self.contracts.update(new)
            if after == before:
                return
            self.inst, self.lists = {}, {}
            self.fnpaths, self.fnback = {}, {}
        raise NoModel("contracts do not stabilise")

    def derive(self, c):
        n = Contract(c.key, c.tree, c.opt)
        rs = self.run_fn(c.key)
        backs = set()
        for s in self.back:
            why = [self.relative(e) for e in s.trace if e[0] == "ahead"]
            backs |= set(w for w in why if w is not None) or {"?"}
        n.backs = tuple(sorted(backs, key=str))
        shapes = []
        frames = []
        for s, v in rs:
            if c.opt:
                if not (v[0] == "agg" and v[1] == OPT):
                    raise NoModel("%s returns %s" % (c.key, show(v)[:60]))
                if v[2] == 0:
                    self.errors.append((c.key, "a path succeeds without a result and without recording an error"))
                    continue
                v = v[4][0]
            shapes.append((s, v, self.shape(s, v)))
        if shapes:
            sh = dict(shapes[0][2])
            for _, _, x in shapes[1:]:
                sh = {k: y for k, y in sh.items() if x.get(k) == y}
            n.shape = sh
        terms = set()
        for s, v, _ in shapes:
            got = self.judge_path(n, s, v)
            frames.append(got)
            terms.add((got[2], got[3]))
        if len(terms) == 1:
            n.term, n.termpath = terms.pop()
        elif terms:
            self.errors.append((c.key, "the terminator is consumed on some paths only"))
        pp = {(f[0], f[1]) for f in frames}
        if len(pp) == 1:
            n.pre, n.post = pp.pop()
        elif pp:
            self.errors.append((c.key, "the text around the component differs between paths"))
        self.proved.append((c.key, len(shapes)))
        return n

    def relative(self, e):
        pos = self.posof(e[2])
        r = []
        for x in pos[2]:
            if x[0] == "app" and x[1] == "at":
                r.append(x[2][0])
            elif is_c(x, "str"):
                r.append(x)
            else:
                return None
        return (tuple(r), e[1])

    def posof(self, pid):
        n = pid[1]
        for p, i in self.posn.items():
            if i == n:
                return p

    def judge_path(self, n, s, v):
        """compare what one successful path consumed with the rendering of what it returned"""
        I = self.I
        cons, ren = [], []
        self.st = s
        self.expand(I, self.pos(s)[2], cons)
        self.render(I, n.tree, v, ren)
        cons, ren = self.norm(s, cons), self.norm(s, ren)
        pre = post = ()
        term = tp = None
        if n.tree == "KdlDocument":
            # the braces around a child block belong to the node that owns it
            if len(cons) >= 2 and is_c(cons[0], "str") and is_c(cons[-1], "str") and cons[0][2].startswith("{") and cons[-1][2].endswith("}") \
                    and not (ren and ren[0] == cons[0]):
                pre, post = (S("{"),), (S("}"),)
                cons = self.norm(s, [S(cons[0][2][1:])] + cons[1:-1] + [S(cons[-1][2][:-1])])
        if n.tree == "KdlNode":
            f = self.fmt(I, n.tree, v)
            t = self.get(I, f, "terminator") if f is not None else None
            if t is not None and t[0] == "app" and t[1] == "at" and t[2][1] == self.posid(self.pos(s)) and t in ren and t not in cons:
                term, tp = t[2][0], ((self.f("KdlNode", "format"), None), ("0", "Some"), ("terminator", None))
                ren = [x for x in ren if x != t]
        for x in ren:
            if x[0] == "app" and x[1] == "each":
                self.elements(n, x[2][0])
        ren = self.rotate(s, ren)
        if cons != ren:
            self.errors.append((n.key, self.explain(cons, ren)))
        return pre, post, term, tp

    def elements(self, n, L):
        """every element of the list renders to the text consumed for it"""
        info = self.lists.get(L)
        if info is None:
            self.errors.append((n.key, "a list of unknown origin"))
            return
        if info[0] == "separated":
            if info[3] is None:
                self.errors.append((n.key, "the separated components are not parsed components"))
            return
        I = info[2]
        for s, segs, v in info[1]:
            if v[0] == "agg" and v[1] == OPT:
                v = v[4][0] if v[2] == 1 else None
            t = self.P.types[I.tyof[v]] if v is not None and v in I.tyof else None
            tn = self.tree.get(v[1]) if v is not None and v[0] == "agg" else self.tree.get(t["p"]) if t and t["k"] == "adt" else None
            if tn is None:
                self.errors.append((n.key, "a repeated component is not a parsed component"))
                continue
            old, self.st = self.st, s
            cons, ren = [], []
            self.expand(I, segs, cons)
            self.render(I, tn, v, ren)
            cons, ren = self.norm(s, cons), self.norm(s, ren)
            if cons != ren:
                self.errors.append((n.key, "a repeated component " + self.explain(cons, ren)))
            if tn == "KdlEntry":
                f = self.fmt(I, tn, v)
                ld = self.get(I, f, "leading") if f is not None else None
                if ld is None or not self.nonempty(s, ld):
                    self.errors.append((n.key, "the leading whitespace of a repeated entry is not known to be non-empty (%s)" % (self.name(ld) if ld is not None else "no formatting")))
            self.st = old

    def explain(self, cons, ren):
        i = 0
        while i < min(len(cons), len(ren)) and cons[i] == ren[i]:
            i += 1
        f = lambda xs: " ++ ".join(self.name(x) for x in xs[i:i + 3]) or "nothing"
        return "consumes %s where the rendering of the result has %s" % (f(cons), f(ren))

    def name(self, x):
        if x[0] == "app" and x[1] == "at":
            return "the text of " + show(x[2][0]).replace("crate::v2_parser::", "")[:80]
        if x[0] == "app" and x[1] == "each":
            return "the listed components"
        if x[0] == "app" and x[1] == "tree":
            return "the component parsed by " + str(x[2][0][2][0][1]) if x[2][0][0] == "app" and x[2][0][1] == "parsed" else show(x)[:80]
        return show(x)[:100]

    def shape(self, s, v, path=(), out=None):
        out = {} if out is None else out
        if v[0] == "c" or v == UNIT:
            out[path] = ("const", v)
        elif v[0] == "app" and v[1] == "at" and v[2][1] == self.posid(app("pos")):
            out[path] = ("first", v[2][0])
        elif v[0] == "agg" and (v[1] == OPT or v[1].startswith("crate::")) and v[1] in self.P.adts:
            a = self.P.adts[v[1]]
            vn = v[3] if len(a["variants"]) > 1 else None
            if vn is not None:
                out[path] = ("var", vn)
            for i, f in enumerate(a["variants"][v[2]]["f"]):
                self.shape(s, v[4][i], path + ((f["n"], vn),), out)
        return out

    def by_contract(self, I, st, key, kd):
        c = self.contract(key)
        v, seg, s = self.instance(I, st, c)
        out = [(s, "ok", some(v) if c.opt else v)]
        for b in c.backs:
            s2 = st
            if b != "?":
                pos = app("pos", *self.pos(st)[2])
                t = st
                for sk in b[0]:
                    t = self.consume(t, self.text(t, sk))
                s2 = st.copy()
                s2.ev("ahead", b[1], self.posid(self.pos(t)))
            out.append((s2, "back", None))
        return out

    def instance(self, I, st, c):
        """a fresh component parsed by c's function at this position"""
        pos = self.pos(st)
        base = app("parsed", ("sym", c.key), self.posid(pos))
        tid = self.api.tyid(self.api.ty(c.tree))
        I.tyof[base] = tid
        tok = app("tree", base)
        self.cur = st.trace
        s = self.consume(st, *c.pre, tok, *c.post)
        end = self.pos(s)
        v = self.build(I, base, c, (), pos, end)
        self.inst[base] = (c, v)
        return v, tok, s

    def build(self, I, v, c, path, pos, end):
        k = c.shape.get(path)
        if k is not None and k[0] == "const":
            return k[1]
        if k is not None and k[0] == "first":
            return k[1] if is_c(k[1]) else self.start_text(k[1], pos)
        if c.term is not None and path == c.termpath:
            return app("at", c.term, self.posid(end))
        paths = list(c.shape) + ([c.termpath] if c.term is not None else [])
        below = [p for p in paths if p[:len(path)] == path and len(p) > len(path)]
        variant = k[1] if k is not None else None
        if not below and variant is None:
            return v
        m = I.materialize(v, variant) if variant is not None else I.materialize(v)
        if m is None:
            raise NoModel("cannot take %s apart" % show(v))
        fs = []
        for i, f in enumerate(self.P.adts[m[1]]["variants"][m[2]]["f"]):
            fs.append(self.build(I, m[4][i], c, path + ((f["n"], variant),), pos, end))
        return m[:4] + (tuple(fs),)

    def start_text(self, sk, pos):
        st = St()
        st.mem[("input",)] = pos
        st.trace = self.cur
        return self.text(st, sk)

    # ------------------------------------------------------------ hooks
    def hook(self, I, st, c, site):
        m, n = c.m, c.path or ""
        if m == "parse_next" and ("winnow" in n or (c.trait or "").endswith("winnow::Parser")):
            p = I.snap(st, c.args[0])
            while p[0] == "ref":
                p = I.deref(st, p)
            out = []
            for s, o, v in self.dedup(self.ex(I, st, p, site)):
                if o == "ok":
                    out.append((s, ok(self.typed(I, v, c.dty))))
                else:
                    out.append((s, err(("agg", EM, 1, "Backtrack", (app("perr", ("sym", str(hash(site)))),)))))
            if not self.local_total(p):
                out.append(self.cut(st, site))
            return out
        if c.key and self.is_parser(c):
            kd = self.kind(self.out_type(c.key))
            if kd[0] in ("tree", "opaque", "optvalue") and I.stack.count(c.key) == 0:
                out = []
                for s, o, v in self.call_fn(I, st, ("fn", n, c.r, c.key, None, None, None, ()), site):
                    out.append((s, ok(v)) if o == "ok" else (s, err(("agg", EM, 1, "Backtrack", (app("perr", ("sym", str(hash(site)))),)))))
                out.append(self.cut(st, site))
                return out
            return None
        if last(n) in ("get", "get_mut", "first", "first_mut", "index", "index_mut") and c.args and c.args[0][0] == "ref":
            return self.at_index(I, st, c, last(n))
        if "winnow" not in n:
            return None
        if m in ("is_backtrack", "is_incomplete", "is_needed"):
            e = I.deref(st, c.args[0])
            if e[0] == "agg" and e[1] == EM:
                return [(st, C("bool", e[3] == "Backtrack") if m == "is_backtrack" else FALSE)]
            return None
        if m == "reset":
            s = st.copy()
            x = I.snap(s, c.args[-1])
            if not (x[0] == "app" and x[1] == "checkpoint"):
                raise NoModel("reset to %s" % show(x)[:60])
            s.mem[("input",)] = x[2][0]
            return [(s, UNIT)]
        if m == "checkpoint":
            return [(st, app("checkpoint", self.pos(st)))]
        if m == "record_err":
            return []
        if m == "from_recoverable_error":
            return [(st, c.args[-1])]
        if m in ("current_token_start", "previous_token_end", "offset_from", "eof_offset"):
            return [(st, app(m, self.posid(self.pos(st))))]
        return None

    def cut(self, st, site):
        """a parser may give up with a final error, somewhere after this position"""
        s = st.copy()
        s.mem[("input",)] = app("pos", *(self.pos(st)[2] + (app("lost", ("sym", str(hash(site)))),)))
        return (s, err(("agg", EM, 2, "Cut", (app("perr", ("sym", str(hash(site)))),))))

    def local_total(self, p):
        return p[0] == "c" or p[0] == "fn" and "winnow" in p[1]

    def at_index(self, I, st, c, m):
        """an element at a known position of a sequence that starts with known elements"""
        r = c.args[0]
        for _ in range(10):
            v = I.read(st, r[1], r[2])
            if v[0] != "ref":
                break
            r = v
        if v[0] != "seq":
            return None
        i = 0
        if not m.startswith("first"):
            k = I.known(st, I.deref(st, c.args[1]))
            if not is_c(k, "int"):
                return None
            i = k[2]
        xs = v[1]
        if all(x[0] == "one" for x in xs) and i >= len(xs):
            return [(st, none())] if "index" not in m else None
        if i >= len(xs) or any(x[0] != "one" for x in xs[:i + 1]):
            return None
        e = ("ref", r[1], tuple(r[2]) + (("sq", i),))
        if not m.endswith("mut"):
            e = I.read(st, e[1], e[2])
        return [(st, e if m.startswith("index") else some(e))]

    def is_parser(self, c):
        b = self.body(c.key)
        if b is None or b["argc"] != 1 or len(c.args) != 1 or not b["local"] or "{closure" in str(c.key):
            return False
        a = c.args[0]
        if a[0] != "ref" or a[1] != ("input",):
            return False
        return self.out_type(c.key) is not None

    def typed(self, I, v, resty):
        if resty is not None and v[0] in ("sym", "fld", "app", "elem"):
            t = self.P.types[self.P.peel(resty)]
            if t["k"] == "adt" and t["a"]:
                I.settype(v, t["a"][0])
        return v

    # ------------------------------------------------------------ lists of components
    def repeat(self, I, st, a, site):
        """repetition of a parser yielding components: one abstract element stands for all"""
        L = app("list", self.posid(self.pos(st)), ("sym", str(hash(site))))
        e0 = app("pos", app("element", L))
        s = st.copy()
        s.mem[("input",)] = e0
        n0 = len(s.trace)
        outs = []
        for s2, o, v in self.ex(I, s, a[1], (site, "r")):
            if o == "ok":
                outs.append((s2, self.pos(s2)[2][1:], v))
        self.lists[L] = ("repeat", outs, I)
        s1 = self.consume(st, app("each", L))
        r = [(s1, "ok", L)]
        lo = self.low(a[0])
        if lo is None:
            raise NoModel("repetition bounds")
        if lo > 0:
            r.append((st, "back", None))
        return r

    def fold(self, I, st, a, site):
        """repetition with an accumulator: what one step does to a vector of the elements so far"""
        out = []
        for s, o, L in self.repeat(I, st, a[0][2], (site, "fr")):
            if o != "ok":
                out.append((s, o, L))
                continue
            for s1, v0 in models.callf(I, s, a[1], [], (site, "fi")):
                v0 = I.snap(s1, v0)
                if v0 != absint.seq(()):
                    raise NoModel("accumulator starts as %s" % show(v0)[:60])
                e = ("elem", L, ("*f", site))
                if a[2][0] == "clo":
                    b = self.P.bodies.get(a[2][1]) or self.P.bodies.get(a[2][2])
                    if b is not None and b["argc"] == 3:
                        I.settype(e, b["locals"][3][0])
                acc = absint.seq((("many", app("before", L)),))
                n0 = dict(s1.facts)
                cell = (site, "ff")
                s2 = s1.copy()
                s2.mem[cell] = a[2]
                ds = []
                for s3, r in models.callf(I, s2, ("ref", cell, ()) if a[2][0] == "clo" else a[2], [acc, e], (site, "fo")):
                    r = I.snap(s3, r)
                    if r[0] != "seq" or not r[1] or r[1][0] != acc[1][0]:
                        raise NoModel("accumulator becomes %s" % show(r)[:80])
                    ds.append((r[1][1:], tuple((k, y) for k, y in s3.facts.items() if n0.get(k) != y and k[0] == "disc")))
                s4 = s1.copy()
                s4.ev("end", L)
                out.append((s4, "ok", absint.seq((("loopacc", (site, "fold"), frozenset(ds)),))))
        return out

    def separated(self, I, st, a, site):
        """item (separator item)*: none, one, or one followed by a list that stands for the rest"""
        lo = self.low(a[0])
        if lo is None:
            raise NoModel("repetition bounds")
        out = []
        back = False
        for s, o, v in self.ex(I, st, a[1], (site, "s")):
            if o != "ok":
                if lo == 0:
                    out.append((self.restore(s, st), "ok", absint.seq(())))
                elif not back:
                    back = True
                    out.append((st, "back", None))
                continue
            if lo <= 1:
                out.append((s, "ok", absint.seq((("one", v),))))
            L = app("list", self.posid(self.pos(s)), ("sym", str(hash(site))))
            tr = self.find_instance(v)
            s2 = self.consume(s, app("each", L))
            self.lists[L] = ("separated", self.posid(self.pos(s)), self.skel(a[2]), tr[1] if tr else None, self.posid(self.pos(s2)))
            out.append((s2, "ok", absint.seq((("one", v), ("many", L)))))
        return out

    def find_instance(self, v):
        for b, (c, x) in self.inst.items():
            if x == v:
                return b, c
        return None

    # ------------------------------------------------------------ rendering
    def f(self, t, m):
        k = (t, m)
        if k not in self.fields:
            self.fields[k] = self.api.field(t, m)[3]
        return self.fields[k]

    def get(self, I, v, name):
        m = I.materialize(v) if v[0] != "agg" else v
        return fget(I, m if m is not None else v, name)

    def texts(self, x):
        return [p for p in cat_items(x) if p != S("")]

    def fmt(self, I, t, v):
        f = self.get(I, v, self.f(t, "format"))
        if f[0] == "agg" and f[1] == OPT and f[2] == 1:
            return f[4][0]
        return None

    def render(self, I, t, v, out):
        if t == "KdlIdentifier":
            r = self.get(I, v, self.reprfield())
            if r[0] == "agg" and r[2] == 1:
                out += self.texts(r[4][0])
            else:
                out.append(app("ident", v))
            return
        fm = self.fmt(I, t, v)
        if fm is None:
            if v[0] == "agg":
                out.append(app("unformatted", v))
            else:
                out.append(app("tree", v))
            return
        g = lambda n: self.texts(self.get(I, fm, n))
        if t == "KdlDocument":
            out += g("leading")
            self.items(I, "KdlNode", self.get(I, v, self.f(t, "nodes")), out)
            out += g("trailing")
            return

        def ty():
            o = self.get(I, v, self.f(t, "ty"))
            if o[0] == "agg":
                if o[2] == 1:
                    out.append(S("("))
                    out.extend(g("before_ty_name"))
                    self.render(I, "KdlIdentifier", o[4][0], out)
                    out.extend(g("after_ty_name"))
                    out.append(S(")"))
            else:
                out.append(app("annotation", o, self.get(I, fm, "before_ty_name"), self.get(I, fm, "after_ty_name")))
            out.extend(g("after_ty"))
        out += g("leading")
        if t == "KdlNode":
            ty()
            self.render(I, "KdlIdentifier", self.get(I, v, self.f(t, "name")), out)
            self.items(I, "KdlEntry", self.get(I, v, self.f(t, "entries")), out)
            ch = self.get(I, v, self.f(t, "children"))
            if ch[0] == "agg":
                if ch[2] == 1:
                    out += g("before_children")
                    out.append(S("{"))
                    self.render(I, "KdlDocument", ch[4][0], out)
                    out.append(S("}"))
            else:
                out.append(app("children", ch, self.get(I, fm, "before_children")))
            out += g("before_terminator") + g("terminator") + g("trailing")
            return
        nm = self.get(I, v, self.f(t, "name"))
        if nm[0] == "agg":
            if nm[2] == 1:
                self.render(I, "KdlIdentifier", nm[4][0], out)
                out += g("after_key")
                out.append(S("="))
                out += g("after_eq")
        else:
            out.append(app("key", nm, self.get(I, fm, "after_key"), self.get(I, fm, "after_eq")))
        ty()
        out += g("value_repr") + g("trailing")

    def reprfield(self):
        return self.f("KdlIdentifier", "repr")

    def items(self, I, t, v, out):
        v = I.deref(St(), v) if v[0] == "ref" else v
        L = self.whole_list(v)
        if L is not None:
            out.append(app("each", L))
            return
        if v[0] == "seq":
            for x in v[1]:
                if x[0] == "one":
                    self.render(I, t, x[1], out)
                elif x[0] == "many" and x[1] in self.lists:
                    out.append(app("each", x[1]))
                else:
                    L = self.whole_list(absint.seq((x,)))
                    out.append(app("each", L) if L is not None else app("items", absint.seq((x,))))
            return
        out.append(app("items", v))

    def whole_list(self, v):
        """the list whose elements, all of them and in order, make up this sequence"""
        if v in self.lists:
            return v
        if v[0] != "seq" or len(v[1]) != 1 or v[1][0][0] != "loopacc":
            return None
        L = None
        full = False
        for items, facts in v[1][0][2]:
            e = None
            if len(items) > 1:
                return None
            if items:
                x = items[0]
                if x[0] != "one":
                    return None
                e = x[1]
                if e[0] == "fld" and e[2] == "Some":
                    e = e[1]
                full = True
            for k, y in facts:
                if not (k[0] == "disc" and k[1][0] == "elem"):
                    return None
                if not items and y != 0:
                    return None
                if e is None:
                    e = k[1]
                if k[1] != e:
                    return None
            if e is None or e[0] != "elem" or not (isinstance(e[2], tuple) and e[2][0] == "*f") or (L is not None and e[1] != L):
                return None
            L = e[1]
        if not full or L not in self.lists or ("end", L) not in self.st.trace:
            return None
        if self.lists[L][0] == "repeat" and not all(o != "ok" or self.somev(x) for _, o, x in [(0, "ok", z) for _, _, z in self.lists[L][1]]):
            return None
        return L

    def somev(self, v):
        return not (v[0] == "agg" and v[1] == OPT and v[2] == 0)

    def expand(self, I, segs, out):
        for x in segs:
            if x[0] == "app" and x[1] == "tree" and x[2][0] in self.inst:
                c, v = self.inst[x[2][0]]
                r = []
                self.render(I, c.tree, v, r)
                if c.term is not None:
                    f = self.fmt(I, c.tree, v)
                    tm = self.get(I, f, "terminator")
                    r = [y for y in r if y != tm]
                out += r
            elif x[0] == "c" or x[0] == "cat":
                out += self.texts(x)
            else:
                out.append(x)

    def norm(self, st, segs):
        """merge constants; drop texts known to be empty on this path"""
        e = {x[1] for x in st.trace if x[0] == "empty"}
        r = []
        for x in segs:
            if x in e or x == S(""):
                continue
            if is_c(x, "str") and r and is_c(r[-1], "str"):
                r[-1] = S(r[-1][2] + x[2])
            else:
                r.append(x)
        return r

    def rotate(self, st, ren):
        """item term (item term)* = item (sep item)* term, the separators being the terminators"""
        out = list(ren)
        for i in range(len(out) - 1):
            x, y = out[i], out[i + 1]
            if not (x[0] == "app" and x[1] == "at" and y[0] == "app" and y[1] == "each"):
                continue
            L = y[2][0]
            info = self.lists.get(L)
            if not info or info[0] != "separated" or info[3] is None or info[3].term is None:
                continue
            if x != app("at", info[3].term, info[1]):
                continue
            t = info[3].term
            if t[0] == "app" and t[1] == "opt" and self.same_sep(info[2], t[2][0]):
                out[i], out[i + 1] = y, app("at", t, info[4])
        return self.norm(st, out)

    def same_sep(self, sep, p):
        if sep == p:
            return self.least(p) > 0
        if sep[0] == "app" and sep[1] == "alt":
            xs = [x for x in sep[2] if not self.never(x)]
            return len(xs) == 1 and self.same_sep(xs[0], p)
        if sep[0] == "app" and sep[1] == "seq" and len(sep[2]) == 1:
            return self.same_sep(sep[2][0], p)
        return False
