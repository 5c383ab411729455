"""C14: accessors, setters, constructors and conversions of the tree types address exactly the component they name."""
from .. import dump
from ..common import Api, Anchor, payload, public_type, disc
from ..absint import Interp, St, show, is_c, S, I as INT, sym, app, mentions, UNIT, OPT, none, some, TRUE, FALSE, seq
from ..meth import fget, fields

COMPS = {
    "KdlIdentifier": ["value", "repr", "span"],
    "KdlEntry": ["ty", "value", "name", "format", "span"],
    "KdlNode": ["ty", "name", "entries", "children", "format", "span"],
    "KdlDocument": ["nodes", "format", "span"],
}
# method, component it names, how the result/argument relates to it
#  'mut'    returns a mutable reference to the component
#  'optmut' returns an optional mutable reference to the payload of the optional component
#  'set'    stores its argument;  'setsome' stores Some(argument);  'setopt' stores the optional argument
#  'clear'  stores None
METHODS = {
    "KdlIdentifier": [("set_value", "value", "set"), ("set_repr", "repr", "setsome"), ("set_span", "span", "set")],
    "KdlEntry": [("name_mut", "name", "optmut"), ("value_mut", "value", "mut"), ("ty_mut", "ty", "optmut"), ("format_mut", "format", "optmut"),
                 ("set_name", "name", "setopt"), ("set_value", "value", "set"), ("set_ty", "ty", "setsome"), ("set_format", "format", "setsome"),
                 ("set_span", "span", "set")],
    "KdlNode": [("name_mut", "name", "mut"), ("ty_mut", "ty", "mut"), ("entries_mut", "entries", "mut"), ("children_mut", "children", "mut"),
                ("format_mut", "format", "optmut"), ("set_name", "name", "set"), ("set_ty", "ty", "setsome"), ("set_children", "children", "setsome"),
                ("clear_children", "children", "clear"), ("set_format", "format", "setsome"), ("set_span", "span", "set")],
    "KdlDocument": [("nodes_mut", "nodes", "mut"), ("format_mut", "format", "optmut"), ("set_format", "format", "setsome"), ("set_span", "span", "set")],
}


def conv(v, a):
    """v is argument a, possibly through Into/From"""
    if v == a:
        return True
    if v[0] == "app" and str(v[1]).split("::")[-1] in ("into", "from", "to_string", "to_owned") and len(v[2]) == 1:
        return conv(v[2][0], a)
    return False


class Runs:
    def __init__(self, ck, P, api):
        self.ck, self.P, self.api = ck, P, api
        self.tree = {api.ty(t) for t in COMPS} | {api.ty("KdlValue")}

    def run(self, path, args=None, hooks=()):
        b = self.P.bodies.get(path)
        if b is None:
            raise Anchor("no body for " + path)
        f = self.P.fn_by_path.get(path)
        I = Interp(self.P, display_tokens=self.tree, hooks=list(hooks))
        st = St()
        av = []
        for i in range(b["argc"]):
            nm = "self" if i == 0 else "arg%d" % i
            if args is not None and i < len(args) and args[i] is not None:
                av.append(args[i])
                continue
            av.append(I.param(st, nm, b["locals"][i + 1][0]))
        out = [(I, s, v) for s, v in I.run_body(b, path, av, st, ("root", path))]
        self.ck.used(I)
        self.ck.count("paths", len(out))
        return out, av


def final(I, s, av):
    if av and av[0][0] == "ref":
        return I.read(s, av[0][1], av[0][2])
    return av[0] if av else None


def run(ck):
    ck.explanation = ("Every accessor, mutable accessor, setter, constructor and conversion of the tree types is interpreted on a symbolic object and "
                      "symbolic arguments. For mutable accessors a fresh value is written through the returned reference; the components read back "
                      "afterwards must be the written one for the named component and the original ones for all others.")
    ck.rule = "the named component holds exactly the argument afterwards; all other components are the same terms as before"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "none", "default", "spanserdev1"]):
        one(ck, dump.load(cfg), "" if cfg == "all" else cfg + ":")


def one(ck, P, pre):
    api = Api(P)
    R = Runs(ck, P, api)
    name = {}
    has_span = (api.ty("KdlNode") + "::span") in P.bodies
    for t, cs in COMPS.items():
        base = sym("self")
        for c in cs:
            if c == "span" and not has_span:
                continue
            if t == "KdlNode" and c == "children":
                pass
            f = api.field(t, c)
            ok = f[0] == "fld" and f[1] == base and f[2] is None
            if not ck.ob(ok, "%s%s::%s:does not return one stored component" % (pre, t, c), show(f)):
                continue
            name[t, c] = f[3]
        used = [name.get((t, c)) for c in cs if (t, c) in name]
        ck.ob(len(set(used)) == len(used), "%s%s:two accessors return the same component" % (pre, t), str(used))
        ck.ob(set(used) >= set(fields(P, api.ty(t))), "%s%s:a component has no accessor" % (pre, t), str(set(fields(P, api.ty(t))) - set(used)))
        # the optional accessors return the payload exactly when present (field() already demands one component)
        for c in cs:
            if (t, c) not in name:
                continue
            out, av = R.run(api.method(t, c))
            for I, s, v in out:
                v = I.deref(s, v)
                f = ("fld", av[0], None, name[t, c])
                if v[0] == "agg" and v[1] == OPT:
                    d = disc(s.facts, f)
                    ck.ob(d == v[2] and (d == 0 or v[4][0] == payload(f)), "%s%s::%s:present and absent confused" % (pre, t, c), show(v))
                else:
                    ck.ob(v == f, "%s%s::%s:wrong component" % (pre, t, c), show(v))

    def comp(I, obj, t, c):
        return fget(I, obj, name[t, c])

    def frame(I, obj, t, but, key):
        for c in COMPS[t]:
            if (t, c) in name and c != but:
                ck.ob(comp(I, obj, t, c) == ("fld", sym("self"), None, name[t, c]), "%s:changes %s" % (key, c), show(comp(I, obj, t, c)))

    for t, ms in METHODS.items():
        for m, c, how in ms:
            if c == "span" and not has_span:
                continue
            key = "%s%s::%s" % (pre, t, m)
            if (t, c) not in name:
                continue
            out, av = R.run(api.method(t, m))
            f0 = ("fld", sym("self"), None, name[t, c])
            for I, s, v in out:
                if how in ("mut", "optmut"):
                    new = sym("written")
                    w = v
                    if how == "optmut":
                        if not ck.ob(v[0] == "agg" and v[1] == OPT, key + ":result", show(v)):
                            continue
                        d = disc(s.facts, f0)
                        ck.ob(d == v[2], key + ":present and absent confused", show(v))
                        if v[2] == 0:
                            frame(I, final(I, s, av), t, None, key)
                            continue
                        w = v[4][0]
                    if not ck.ob(w[0] == "ref", key + ":does not return a reference into the object", show(w)):
                        continue
                    frame(I, final(I, s, av), t, None, key + ":before writing")
                    s2 = s.copy()
                    I.write(s2, w[1], w[2], new)
                    fin = final(I, s2, av)
                    got = comp(I, fin, t, c)
                    want = new if how == "mut" else some(new)
                    ck.ob(got == want, key + ":writes to another component", show(got))
                    frame(I, fin, t, c, key)
                    continue
                fin = final(I, s, av)
                got = comp(I, fin, t, c)
                if how == "clear":
                    ck.ob(got == none(), key + ":does not clear", show(got))
                elif how == "set":
                    ck.ob(conv(got, av[1]), key + ":does not store its argument", show(got))
                elif how == "setsome":
                    ck.ob(got[0] == "agg" and got[2] == 1 and conv(got[4][0], av[1]), key + ":does not store its argument", show(got))
                elif how == "setopt":
                    d = disc(s.facts, av[1])
                    if got[0] == "agg" and got[1] == OPT:
                        ck.ob(got[2] == d and (d == 0 or conv(got[4][0], payload(av[1]))), key + ":does not store its argument", show(got))
                    else:
                        ck.ob(conv(got, av[1]), key + ":does not store its argument", show(got))
                frame(I, fin, t, c, key)

    # --- entry_keep_format
    kf = api.method("KdlEntry", "keep_format")
    out, av = R.run(kf)
    f0 = ("fld", sym("self"), None, name["KdlEntry", "format"])
    EF = api.ty("KdlEntryFormat")
    for I, s, v in out:
        key = pre + "KdlEntry::keep_format"
        fin = final(I, s, av)
        frame(I, fin, "KdlEntry", "format", key)
        fm = comp(I, fin, "KdlEntry", "format")
        d = disc(s.facts, f0)
        if d == 1:
            p = fm[4][0] if fm[0] == "agg" else payload(fm)
            ck.ob(fget(I, p, "autoformat_keep") == TRUE, key + ":does not set autoformat_keep", show(fm))
            for x in fields(P, EF):
                if x != "autoformat_keep":
                    ck.ob(fget(I, p, x) == ("fld", payload(f0), None, x), key + ":changes " + x, show(fget(I, p, x)))
        else:
            ck.ob(d == 0 and (fm == f0 or fm == none()), key + ":adds a format", show(fm))

    # --- node.ensure_children
    out, av = R.run(api.method("KdlNode", "ensure_children"))
    c0 = ("fld", sym("self"), None, name["KdlNode", "children"])
    for I, s, v in out:
        key = pre + "KdlNode::ensure_children"
        fin = final(I, s, av)
        frame(I, fin, "KdlNode", "children", key)
        ch = comp(I, fin, "KdlNode", "children")
        if disc(s.facts, c0) == 1:
            ck.ob(ch == c0 or ch == some(payload(c0)), key + ":replaces existing children", show(ch))
        else:
            ck.ob(disc(s.facts, c0) == 0 and ch[0] == "agg" and ch[2] == 1 and comp(I, ch[4][0], "KdlDocument", "nodes") == seq([]),
                  key + ":does not add an empty block", show(ch))
        if ck.ob(v[0] == "ref", key + ":result", show(v)):
            s2 = s.copy()
            I.write(s2, v[1], v[2], sym("written"))
            ck.ob(comp(I, final(I, s2, av), "KdlNode", "children") == some(sym("written")), key + ":returns something else", show(v))

    # --- the list operations of nodes
    e0 = ("fld", sym("self"), None, name["KdlNode", "entries"])
    for m in ("clear", "retain", "sort_by", "sort_by_key", "push"):
        out, av = R.run(api.method("KdlNode", m))
        for I, s, v in out:
            key = pre + "KdlNode::" + m
            fin = final(I, s, av)
            frame(I, fin, "KdlNode", "entries", key)
            e = comp(I, fin, "KdlNode", "entries")
            if m == "clear":
                ck.ob(e == seq([]), key + ":entries remain", show(e))
            elif m == "push":
                ok = e[0] == "seq" and len(e[1]) == 2 and e[1][0] == ("all", e0) and e[1][1][0] == "one" and conv(e[1][1][1], av[1])
                ck.ob(ok, key + ":does not append its argument", show(e))
            else:
                alt = {"retain": ("vec.retain",), "sort_by": ("vec.sort_by",), "sort_by_key": ("vec.sort_by_key", "vec.sort_by_cached_key")}[m]
                ok = e[0] == "app" and e[1] in alt and e[2] == (e0, av[1])
                if not ok:
                    ok = forwarded(P, I, s, e, m, e0, av[1])
                ck.ob(ok, key + ":not the list operation of that name", show(e))
    for m, want in (("len", app("len", e0)), ("is_empty", None)):
        out, av = R.run(api.method("KdlNode", m))
        for I, s, v in out:
            key = pre + "KdlNode::" + m
            e = ("fld", av[0], None, name["KdlNode", "entries"])
            if m == "len":
                ck.ob(v == app("len", e), key + ":is not the number of entries", show(v))
            else:
                ck.ob(empty_of(I, s, v, app("len", e)), key + ":is not emptiness of the entries", show(v))
    # --- text lengths
    for t in ("KdlDocument", "KdlEntry", "KdlIdentifier"):
        for m in ("len", "is_empty"):
            out, av = R.run(api.method(t, m))
            for I, s, v in out:
                key = "%s%s::%s" % (pre, t, m)
                L = [app("len", x) for x in renderings(av[0])]
                if m == "len":
                    ck.ob(any(same_len(v, l) for l in L), key + ":is not the length of the rendering", show(v))
                else:
                    ck.ob(any(empty_of(I, s, v, l) for l in L), key + ":is not emptiness of the rendering", show(v))

    # --- constructors
    def objs(path, t, key, spec):
        out, av = R.run(path)
        for I, s, v in out:
            v = I.freeze(s, v)
            for c, want in spec.items():
                got = comp(I, v, t, c)
                ck.ob(want(got, av, s), "%s:%s" % (key, c), show(got))
    isnone = lambda g, a, s: g == none()
    isempty = lambda g, a, s: g == seq([])
    arg = lambda i: (lambda g, a, s: conv(g, a[i]))
    somearg = lambda i: (lambda g, a, s: g[0] == "agg" and g[1] == OPT and g[2] == 1 and conv(g[4][0], a[i]))
    objs(api.method("KdlEntry", "new"), "KdlEntry", pre + "KdlEntry::new", dict(ty=isnone, name=isnone, format=isnone, value=arg(0)))
    objs(api.method("KdlEntry", "new_prop"), "KdlEntry", pre + "KdlEntry::new_prop", dict(ty=isnone, name=somearg(0), format=isnone, value=arg(1)))
    objs(api.method("KdlNode", "new"), "KdlNode", pre + "KdlNode::new", dict(ty=isnone, name=arg(0), entries=isempty, children=isnone))
    objs(api.method("KdlDocument", "new"), "KdlDocument", pre + "KdlDocument::new", dict(nodes=isempty, format=isnone))
    objs(api.trait_method("KdlDocument", "std::default::Default", "default"), "KdlDocument", pre + "KdlDocument::default", dict(nodes=isempty, format=isnone))
    ID = api.ty("KdlIdentifier")
    for src in ("&str", "std::string::String"):
        p = "<%s as std::convert::From<%s>>::from" % (ID, src)
        if p not in P.bodies:
            raise Anchor(p)
        objs(p, "KdlIdentifier", "%sKdlIdentifier::from(%s)" % (pre, src.split("::")[-1]), dict(value=arg(0), repr=isnone))
    E = api.ty("KdlEntry")
    for k in P.bodies:
        if k.startswith("<%s as std::convert::From<" % E) and k.endswith(">::from") and "@" not in k:
            b = P.bodies[k]
            at = P.types[b["locals"][1][0]]
            if at["k"] == "tuple":
                def first(g, a, s):
                    return g[0] == "agg" and g[2] == 1 and conv(g[4][0], tupf(a[0], 0))
                objs(k, "KdlEntry", pre + "KdlEntry::from((key, value))", dict(ty=isnone, format=isnone, name=first, value=lambda g, a, s: conv(g, tupf(a[0], 1))))
            elif at["k"] == "param":
                objs(k, "KdlEntry", pre + "KdlEntry::from(value)", dict(ty=isnone, format=isnone, name=isnone, value=arg(0)))
    back = [k for k in P.bodies if k.endswith("for std::string::String>::from") and ID in k]
    if not back:
        raise Anchor("From<KdlIdentifier> for String")
    for k in back:
        out, av = R.run(k)
        for I, s, v in out:
            ck.ob(v == ("fld", av[0], None, name["KdlIdentifier", "value"]), pre + "String::from(KdlIdentifier):is not its value", show(v))
    # --- iterating a document yields its nodes
    D = api.ty("KdlDocument")
    n = 0
    for k in P.bodies:
        if k.endswith("%s as std::iter::IntoIterator>::into_iter" % D):
            n += 1
            out, av = R.run(k)
            for I, s, v in out:
                want = ("fld", sym("self"), None, name["KdlDocument", "nodes"])
                src = v[2] if v[0] == "iter" and v[1] == "seq" else None
                ck.ob(src == want and v[3] == 0, "%s%s:does not iterate its nodes" % (pre, k.replace("crate::document::", "").split(" as ")[0].strip("<") + "::into_iter"), show(v))
    ck.ob(n == 3, pre + "KdlDocument:IntoIterator implementations", str(n))
    builder(ck, P, api, R, pre)


def forwarded(P, I, st, e, m, e0, f):
    """entries.retain(|e| keep(e)) and the like: a closure that only forwards to the parameter"""
    if not (e[0] == "app" and len(e[2]) == 2 and e[2][0] == e0 and e[2][1][0] == "clo"):
        return False
    op = e[1].split(".")[-1]
    a, b = sym("x1"), sym("x2")
    n = 2 if op == "sort_by" else 1

    def one(g, xs):
        from .. import models
        r = I.call_closure(st.copy(), g, None, xs, ("fwd", 0)) if g[0] == "clo" else models.callf(I, st.copy(), g, xs, ("fwd", 0))
        return {I.freeze(s, v) for s, v in r}
    got = one(e[2][1], [a, b][:n])
    if len(got) != 1:
        return False
    if op == m or (op, m) == ("sort_by_cached_key", "sort_by_key"):
        return got == one(f, [a, b][:n])
    if op == "sort_by" and m == "sort_by_key":
        ka, kb = one(f, [a]), one(f, [b])
        g = list(got)[0]
        return g[0] == "app" and g[1].split("::")[-1] == "cmp" and len(ka) == 1 and g[2] == (list(ka)[0], list(kb)[0])
    return False


def tupf(a, i):
    if a[0] == "agg":
        return a[4][i]
    return ("fld", a, None, str(i))


def renderings(a):
    return [("disp", "Display", a), ("disp", a, "Display"), a]


def same_len(v, l):
    return v[0] == "app" and v[1] in ("len", "str.len") and is_rendering(v[2][0], l[2][0])


def is_rendering(x, l):
    """the text obtained by Display of the object"""
    def obj(y):
        return y[0] == "disp" and any(z == ROOT for z in y[1:])
    return obj(x)


ROOT = sym("self")


def empty_of(I, s, v, ln):
    """v is (length == 0)"""
    def isl(x):
        return x == ln or (x[0] == "app" and x[1] in ("len", "str.len") and x[2][0][0] == "disp" and ROOT in x[2][0][1:]
                           and mentions(ln, lambda y: y == ROOT))
    if v[0] == "app" and v[1] == "Eq" and len(v[2]) == 2:
        a, b = v[2]
        return isl(a) and b == INT(0) or isl(b) and a == INT(0)
    if v[0] == "app" and v[1] in ("is_empty", "str.is_empty"):
        return v[2][0] == ln[2][0] or v[2][0][0] == "disp" and ROOT in v[2][0][1:] and mentions(ln, lambda y: y == ROOT)
    if v[0] == "app" and v[1] == "Not" and v[2][0][0] == "app" and v[2][0][1] in ("Gt", "Ne"):
        a, b = v[2][0][2]
        return isl(a) and b == INT(0)
    if v in (TRUE, FALSE):
        for k, f in s.facts.items():
            if isinstance(k, tuple) and k[0] == "app" and k[1] == "Eq" and len(k[2]) == 2:
                a, b = k[2]
                if (isl(a) and b == INT(0) or isl(b) and a == INT(0)) and f == v:
                    return True
    return False


def builder(ck, P, api, R, pre):
    B = api.ty("FormatConfigBuilder")
    CF = api.ty("FormatConfig")
    fs = fields(P, CF)
    want = ["indent_level", "indent", "no_comments"]
    for f in want:
        ck.ob(f in fs, pre + "FormatConfig:" + f, "field missing")

    def m(n):
        c = [k for k in P.bodies if k.startswith(B) and k.endswith(">::" + n) or k == B + "::" + n]
        c = [k for k in c if "@" not in k]
        if len(c) != 1:
            raise Anchor("FormatConfigBuilder::" + n)
        return c[0]
    bf = fields(P, B)

    def inner(I, v):
        return fget(I, v, bf[0])
    out, av = R.run(m("new"))
    deflt = {"indent_level": INT(0), "indent": S("    "), "no_comments": FALSE, "entry_autoformate_keep": FALSE}
    for I, s, v in out:
        for f in fs:
            got = fget(I, inner(I, v), f)
            ck.ob(f not in deflt or got == deflt[f], "%sFormatConfigBuilder::new:%s is not the documented default" % (pre, f), show(got))
    c = [k for k in P.bodies if (k.startswith("<" + CF + "<") or k.startswith("<" + CF + " ")) and k.endswith("std::default::Default>::default")]
    if len(c) != 1:
        raise Anchor("Default for FormatConfig")
    out, av = R.run(c[0])
    for I, s, v in out:
        for f in fs:
            got = fget(I, v, f)
            ck.ob(f not in deflt or got == deflt[f], "%sFormatConfig::default:%s is not the documented default" % (pre, f), show(got))
    for f in want:
        for opt in (False, True):
            n = ("maybe_" if opt else "") + f
            key = "%sFormatConfigBuilder::%s" % (pre, n)
            out, av = R.run(m(n))
            for I, s, v in out:
                d = disc(s.facts, av[1]) if opt else 1
                for g in fs:
                    got = fget(I, inner(I, v), g)
                    old = ("fld", ("fld", av[0], None, bf[0]), None, g)
                    if g == f and opt and d is None:
                        ck.fail(key + ":ignores whether a value was given", show(got))
                    elif g == f and d == 1:
                        ck.ob(got == (payload(av[1]) if opt else av[1]), key + ":does not store its argument", show(got))
                    else:
                        ck.ob(got == old, key + ":changes " + g, show(got))
    out, av = R.run(m("build"))
    for I, s, v in out:
        for g in fs:
            got = fget(I, v, g)
            ck.ob(got == ("fld", ("fld", av[0], None, bf[0]), None, g), pre + "FormatConfigBuilder::build:changes " + g, show(got))
