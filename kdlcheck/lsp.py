"""Running the language server's handlers on symbolic requests and reading off what they do."""
from . import absint, dump
from .absint import Interp, St, sym, app, is_c, show, UNIT, OPT, some, none
from .common import Anchor

TRAIT = "LanguageServer"
SAME = {"to_string", "to_owned", "clone", "into", "from", "as_str", "as_ref", "borrow", "deref", "into_string", "to_string_lossy", "into_owned", "from_str", "as_bytes", "chunks"}


def load():
    return dump.load("all", "kdl_lsp-bin")


def last(n):
    n = str(n)
    return n.rsplit("::", 1)[-1].split("@")[0]


def hook(I, st, c, site):
    n = str(c.r or c.path or c.key)
    m = last(c.path if c.path else n)
    p = str(c.path)
    a = c.args
    if m == "into_future" or m == "get_context" or p.endswith("Pin::<Ptr>::new_unchecked") or m in ("pin", "new_unchecked") and ("Box" in p or "Pin" in p):
        return [(st, a[0])]
    if m == "poll" and len(a) == 2:
        f = I.deref(st, a[0])
        while f[0] == "ref":
            f = I.deref(st, f)
        if f[0] == "clo" and f[1] in I.p.bodies or f[0] == "clo" and f[2] in I.p.bodies:
            b = I.p.bodies.get(f[1]) or I.p.bodies[f[2]]
            I.inlined.add(b["path"])
            return [(s, ready(v)) for s, v in I.run_body(b, f[1], [f, sym("cx")], st, (site, "poll"), 0)]
        s = st.copy()
        s.ev("await", I.snap(s, f))
        return [(s, ready(app("awaited", I.snap(s, f))))]
    if m in ("lock", "read", "write", "blocking_lock", "blocking_read", "blocking_write", "try_lock") and any(x in p for x in ("Mutex", "RwLock")):
        r = a[0]
        if "std::sync" in p or "poison" in p:
            return [(st, ("agg", absint.RES, 0, "Ok", (r,)))]
        return [(st, r)]
    if any(x in p for x in ("dashmap::", "HashMap", "BTreeMap")) and m in ("insert", "remove", "get", "get_mut", "contains_key", "clear", "entry", "remove_if", "retain", "alter", "alter_all", "view", "try_get", "iter", "iter_mut"):
        s = st.copy()
        args = tuple(I.snap(s, I.deref(s, x)) for x in a[1:])
        store = I.snap(s, I.deref(s, a[0]))
        if m == "get_mut" and "dashmap" in p:
            none_ = s.copy()
            none_.ev("store", "get", store, args)
            s.ev("store", "get", store, args)
            cell = ("DM", store, args)
            if cell not in s.mem:
                s.mem[cell] = ("fld", app("stored:get", store, *args), "Some", "0")
            return [(none_, none()), (s, some(("ref", cell, ())))]
        s.ev("store", m, store, args)
        r = app("stored:" + m, store, *args)
        if m in ("get", "view", "try_get", "get_mut", "remove", "insert"):
            I.settype(r, c.dty)
        return [(s, r)]
    if m in ("deref", "deref_mut") and ("Ref<" in n or "RefMut<" in n) or m in ("value", "value_mut") and "dashmap" in p:
        v = I.read(st, a[0][1], a[0][2]) if a[0][0] == "ref" else a[0]
        return [(st, v if v[0] == "ref" else a[0])]
    if m in ("try_from", "try_into") and len(a) == 1 and c.dty is not None and any(x in I.p.types[c.dty]["s"] for x in ("u32, std::num::TryFromIntError", "u32, TryFromIntError")):
        # positions beyond 2^32 are not looked at
        return [(st, ("agg", absint.RES, 0, "Ok", (app("cast:u32", I.snap(st, a[0])),)))]
    # a call of foreign code that takes nothing mutably does nothing but compute
    local = I.p.bodies.get(c.key)
    if local is None and c.atys and I.models.model is not None:
        if p.startswith(("ropey::", "dashmap::", "kdl::", "miette::", "tower_lsp::", "url::", "lsp_types::", "tokio::", "tracing")) and not any(mutable(I.p, t) for t in c.atys):
            s = st
            if a and all(x is not None for x in a):
                vals = tuple(I.snap(s, I.deref(s, x)) for x in a)
                r = app(p, *vals)
                return [(s, I.settype(r, c.dty) or r)]
    return None


def mutable(P, t):
    if t is None:
        return True
    t = P.types[t]
    return t["k"] == "ref" and bool(t.get("m"))


def ready(v):
    return ("agg", "std::task::Poll", 0, "Ready", (v,))


def handler(P, m):
    c = [k for k in P.bodies if k.endswith("::%s>::%s" % (TRAIT, m)) and k.startswith("<crate::")]
    return c[0] if len(c) == 1 else None


def run(P, m):
    """(interpreter, [(state, result)], parameters) of the trait method m run to completion"""
    key = handler(P, m)
    if key is None:
        return None
    b = P.bodies[key]
    I = Interp(P, hooks=[hook], max_steps=3000000)
    st = St()
    f = P.fn_by_path.get(key)
    av = [I.param(st, n, b["locals"][i + 1][0]) for i, n in enumerate(["self", "params", "p2"][:b["argc"]])]
    out = []
    for s, v in I.run_body(b, key, av, st, ("root", key)):
        v = I.deref(s, v)
        if v[0] == "agg" and v[1].endswith("Pin"):
            v = v[4][0]
        if v[0] == "agg" and "Box" in v[1]:
            v = v[4][0]
        if v[0] != "clo":
            raise Anchor("%s does not return the future of its body (%s)" % (m, show(v)[:60]))
        bb = P.bodies.get(v[1]) or P.bodies[v[2]]
        for s2, r in I.run_body(bb, v[1], [v, sym("cx")], s, ("root", m)):
            for cell, x in list(s2.mem.items()):
                if isinstance(cell, tuple) and cell[0] == "DM" and x != ("fld", app("stored:get", cell[1], *cell[2]), "Some", "0"):
                    s2.ev("store", "insert", cell[1], cell[2] + (I.freeze(s2, x),))
            out.append((s2, I.freeze(s2, r)))
    return I, out, av


# ------------------------------------------------------------------ meaning of terms
PARAMS = sym("params")


def path_of(t):
    """names of the fields read from params, or None"""
    out = []
    while t[0] == "fld" and t[2] is None:
        out.append(t[3])
        t = t[1]
    return tuple(reversed(out)) if t == PARAMS else None


def plain(t):
    """t without conversions between a text and its representations (String, &str, Rope) and copies"""
    while True:
        if t[0] == "disp" and t[1] == "Display":
            t = t[2]
        elif t[0] == "cat":
            it = absint.cat_items(t)
            if len(it) != 1:
                return t
            t = it[0]
        elif t[0] == "app" and len(t[2]) == 1 and conversion(t[1]):
            t = t[2][0]
        elif t[0] == "app" and str(t[1]) == "ropey::RopeBuilder::finish" and is_app(t[2][0], "append#out0") and is_app(t[2][0][2][0], "new"):
            t = t[2][0][2][1]
        elif t[0] == "fld" and t[2] == "Ok" and t[1][0] == "app" and conversion(t[1][1]):
            t = t[1][2][0]
        else:
            return t


def conversion(n):
    n = str(n)
    return last(n) in SAME and not n.startswith("stored:") or n in ("str.parse:ropey::Rope",)


def rw(t, f):
    """bottom-up rewriting"""
    if not isinstance(t, tuple):
        return t
    r = tuple(rw(x, f) for x in t)
    return f(r) if r and isinstance(r[0], str) else r


def app_(n, *a):
    return ("app", n, tuple(a))


def norm(t, facts=()):
    """positions in one vocabulary: byte_to_line, byte_to_char, line_to_char, char_to_utf16_cu, Sub, Add, min"""
    facts = dict(facts)

    def f(t):
        if t[0] == "agg" and t[1].endswith("Position") and len(t[4]) == 2:
            return app_("Position", *t[4])
        if t[0] == "agg" and t[1].endswith("::Range") and "lsp_types" in t[1]:
            return app_("Range", *t[4])
        if t[0] != "app":
            return t
        n, a = last(t[1]) if not str(t[1]).startswith(("cast", "str.")) else str(t[1]), t[2]
        if n.startswith("cast:") and a:
            return a[0]
        if n in ("try_from", "try_into", "unwrap", "expect", "unwrap_or_default") and a:
            return a[0]
        if n in ("saturating_sub", "wrapping_sub"):
            return app_("Sub", *a)
        if n in ("saturating_add", "wrapping_add"):
            return app_("Add", *sorted(a, key=repr))
        if n == "Add":
            return app_("Add", *sorted(a, key=repr))
        if n == "min":
            return app_("min", *sorted(a, key=repr))
        if n == "clamp" and len(a) == 3 and a[1] == absint.I(0):
            return app_("min", *sorted((a[0], a[2]), key=repr))
        if n == "char_to_line" and is_app(a[1], "byte_to_char"):
            return app_("byte_to_line", a[0], a[1][2][1])
        if n == "byte_to_char" and is_app(a[1], "line_to_byte"):
            return app_("line_to_char", a[0], a[1][2][1])
        if n in ("len_utf16_cu", "char_to_utf16_cu") and a and a[0][0] == "app" and last(a[0][1]) in ("slice", "byte_slice", "line"):
            sl = last(a[0][1])
            r = bounds(a[0], sl)
            if r:
                rope, lo, hi = r
                if n == "char_to_utf16_cu":
                    hi = plus(lo, a[1])
                if hi is not None:
                    return app_("Sub", app_("char_to_utf16_cu", rope, hi), app_("char_to_utf16_cu", rope, lo))
        if n in ("byte_to_line", "byte_to_char", "line_to_char", "line_to_byte", "char_to_utf16_cu", "len_bytes", "char_to_line", "offset", "len"):
            return app_(n, *a)
        if n == "new" and "Position" in str(t[1]):
            return app_("Position", *a)
        if n == "new" and "Range" in str(t[1]) and "lsp" in str(t[1]):
            return app_("Range", *a)
        return t
    return rw(t, f)


def is_app(t, n):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "app" and last(t[1]) == n


def plus(a, b):
    if is_app(b, "Sub") and b[2][1] == a:
        return b[2][0]
    return app_("Add", *sorted((a, b), key=repr))


def bounds(t, kind):
    """(rope, first char, end char) of a slice term"""
    a = t[2]
    if kind == "line":
        return a[0], app_("line_to_char", a[0], a[1]), None
    rope, r = a[0], a[1]
    if r[0] != "agg" or "Range" not in r[1]:
        return None
    n = last(r[1])
    lo, hi = (r[4] + (None,))[:2] if n == "Range" else (absint.I(0), r[4][0]) if n == "RangeTo" else (r[4][0], None) if n == "RangeFrom" else (None, None)
    if lo is None:
        return None
    if is_app(rope, "line"):
        base = app_("line_to_char", rope[2][0], rope[2][1])
        if kind == "slice" and lo == absint.I(0) and hi is not None:
            return rope[2][0], base, plus(base, hi)
        return None
    if kind == "byte_slice":
        c = lambda x: None if x is None else app_("line_to_char", rope, x[2][1]) if is_app(x, "line_to_byte") else app_("byte_to_char", rope, x)
        lo, hi = c(lo), c(hi)
    return rope, lo, hi


def clamp_of(t, b, n, facts):
    """is t the offset b, at most n, under these facts?"""
    if t == app_("min", *sorted((b, n), key=repr)):
        return True
    for k, v in facts:
        if k[0] == "app" and k[1] in ("Le", "Lt", "Ge", "Gt") and v in (absint.TRUE, absint.FALSE):
            x, y = norm(k[2][0]), norm(k[2][1])
            op, yes = k[1], v == absint.TRUE
            if (x, y) == (n, b):
                op, x, y = {"Le": "Ge", "Lt": "Gt", "Ge": "Le", "Gt": "Lt"}[op], y, x
            if (x, y) != (b, n):
                continue
            below = (op in ("Le", "Lt")) == yes
            if t == (b if below else n):
                return True
    return False
