"""C08: all ways of looking up a property, an argument or a node agree."""
from .. import dump, absint, models
from ..absint import St, show, is_c, sym, app, mentions, UNIT, OPT, TRUE, FALSE, none, some, I as INT, seq, RES
from ..common import Api, Anchor, payload
from ..ghost import GhostInterp, GList, vec_hook, normpos
from ..meth import fget
from .c11 import Ctx


class Case:
    def __init__(self, ck, P, api, cx, pre):
        self.ck, self.P, self.api, self.cx, self.pre = ck, P, api, cx, pre

    def interp(self, keyty):
        P, api = self.P, self.api

        def hook(I, st, c, site):
            # `impl Into<T>` parameters: the conversion result is the symbolic key / entry
            if c.trait in ("std::convert::Into",) and c.m == "into" and len(c.args) == 1:
                v = I.deref(st, c.args[0])
                if v in I.into:
                    return [(st, I.into[v])]
            return None
        I = GhostInterp(P, hooks=[hook, vec_hook])
        I.into = {}
        return I


def eqfact(I, st, a, b, val):
    t = I.binop(st, "Eq", a, b, None)
    neg = t[0] == "app" and t[1] == "Not"
    return (t[2][0] if neg else t), (FALSE if (val == neg) else TRUE)


def nodekey(P, api):
    c = [k for k in P.adts if k.startswith("crate::") and k.endswith("::NodeKey")]
    if len(c) != 1:
        raise Anchor("NodeKey")
    return c[0]


def entry_list(I, cx, api, st, gid, mode, keyval, match, idx=None, exact=False, short=False):
    """GList of entries for lookups by name (mode 'key') or by index (mode 'index')"""
    fn = cx.fn
    ety = api.tyid(api.ty("KdlEntry"))
    nm = fn[("KdlEntry", "name")]
    iv = fn[("KdlIdentifier", "value")]

    def name(t):
        return ("fld", t, None, nm)

    def nval(t):
        return ("fld", payload(name(t)), None, iv)
    facts = {}
    gl = None
    if mode == "key":
        pre, post = ["other", "arg"], ["other2", "arg2"]
        if match:
            pre = pre + ["earlier"]
        gl = GList(gid, pre, "last" if match else None, post if match else (), counted=["arg", "arg2"], ety=ety)
        for n in pre + (post + ["last"] if match else []):
            t = gl.tok(n)
            named = not n.startswith("arg")
            fs = [(("disc", name(t)), 1 if named else 0)]
            if named:
                fs.append(eqfact(I, st, nval(t), keyval, n in ("earlier", "last")))
            facts[n] = fs
    else:
        pre, post = ["arg", "prop"], ["arg2", "prop2"]
        if is_c(idx, "int") and idx[2] == 0:
            pre = ["prop"]
            if not match:
                pre = ["prop"]
        gl = GList(gid, pre, "target" if match else None, post if match else (), counted=["arg", "target", "arg2"], ety=ety, idx=idx,
                   exact_end=exact, short_end=short)
        for n in pre + (post + ["target"] if match else []):
            t = gl.tok(n)
            facts[n] = [(("disc", name(t)), 1 if n.startswith("prop") else 0)]
    gl.facts = facts
    I.add(gl)
    return gl


def node_list(I, cx, api, st, gid, nameval, match):
    nty = api.tyid(api.ty("KdlNode"))
    nm, iv = cx.fn[("KdlNode", "name")], cx.fn[("KdlIdentifier", "value")]
    pre = ["other"]
    post = ["other2", "later"] if match else []
    gl = GList(gid, pre, "first" if match else None, post, ety=nty)
    facts = {}
    for n in pre + post + (["first"] if match else []):
        t = gl.tok(n)
        facts[n] = [eqfact(I, st, ("fld", ("fld", t, None, nm), None, iv), nameval, n in ("first", "later"))]
    gl.facts = facts
    I.add(gl)
    return gl


def self_node(I, cx, api, gl, obj):
    I.gfields[(obj, cx.fn[("KdlNode", "entries")])] = gl.term
    I.tyof[obj] = api.tyid(api.ty("KdlNode"))


def run_one(case, path, I, st, argv):
    b = case.P.bodies.get(path)
    if b is None:
        raise Anchor("no body for " + path)
    res = I.run_body(b, path, argv, st, ("root", path))
    case.ck.used(I)
    case.ck.count("paths", len(res))
    return res


def mkself(I, st, body, obj):
    t = I.p.types[body["locals"][1][0]]
    if t["k"] == "ref" and t["m"]:
        cell = ("P", "self")
        st.mem[cell] = obj
        return ("ref", cell, ()), cell
    return obj, None


def val(s, I, v):
    return normpos(I, s, I.freeze(s, v))


def opt(v):
    if v[0] == "agg" and v[1] == OPT:
        return v[4][0] if v[2] == 1 else None
    return ("?", v)


def find_index_impl(P, ty, trait, m, arg):
    for k in P.bodies:
        if k.startswith("<%s as %s<" % (ty, trait)) and k.endswith(">::" + m) and arg in k.split(trait)[1].split(">::")[0]:
            return k
    for im in P.impls:
        if im["trait"] == trait and ty in im["ref"] and arg in im["ref"]:
            for k in P.bodies:
                if im["ref"] in k and k.endswith("::" + m):
                    return k
    raise Anchor("impl %s<%s> for %s" % (trait, arg, ty))


def lookups(case):
    ck, P, api, cx, pre = case.ck, case.P, case.api, case.cx, case.pre
    NK = nodekey(P, api)
    tid = api.tyid(NK)
    kv_name = cx.fn[("KdlIdentifier", "value")]
    entf, valf = cx.fn[("KdlNode", "entries")], cx.fn[("KdlEntry", "value")]
    namef = cx.fn[("KdlEntry", "name")]
    eid = api.tyid(api.ty("KdlEntry"))
    vis = [x["n"] for x in P.adts[NK]["variants"]]

    def setup(path, mode, match, exact=False, short=False, direct=None):
        I = case.interp(NK)
        st = St()
        node = sym("self")
        key = sym("key")
        if direct is None:
            # the key value, whatever it was converted from
            I.into[sym("rawkey")] = key
            I.tyof[key] = tid
            st.facts[("disc", key)] = 0 if mode == "key" else 1
            vn = vis[0] if mode == "key" else vis[1]
            kt = ("fld", key, vn, "0")
            keyval = ("fld", kt, None, kv_name)
            idx = kt
            arg = sym("rawkey")
        else:
            arg = sym(direct)
            keyval = arg
            idx = arg
        gl = entry_list(I, cx, api, st, "E", mode, keyval, match, idx if mode == "index" else None, exact, short)
        self_node(I, cx, api, gl, node)
        sv, cell = mkself(I, st, P.bodies[path], node)
        return I, st, gl, sv, cell, arg, key, keyval

    def unchanged(k, s, I, gl, cell):
        if cell is None:
            return
        fin = I.read(s, cell, ())
        e = fget(I, fin, entf)
        ck.ob(e == gl.term and not any(isinstance(x, tuple) and x[0] == "dirty" for x in s.ext) and
              all(s.mem.get(("E", t), t) == t for t in gl.toks()), k + ":changes the entries", show(e))

    def entry_ref(I, s, raw):
        """(present?, token, path) for a returned Option<&[mut] KdlEntry / KdlValue>"""
        raw = I.deref(s, raw) if raw[0] == "ref" and I.deref(s, raw)[0] == "agg" else raw
        if raw[0] == "agg" and raw[1] == OPT:
            return (raw[2] == 1, raw[4][0] if raw[2] == 1 else None)
        return (None, raw)

    want_last = "the last property of that name"
    # --- shared and mutable lookups
    for m, mut, part in [("entry", False, None), ("get", False, "v"), ("entry_mut", True, None), ("get_mut", True, "v")]:
        path = api.method("KdlNode", m)
        for mode in ("key", "index"):
            for match in (True, False):
                for kw in ([{}] if mode == "key" or match else [dict(exact=True), dict(short=True)]):
                    I, st, gl, sv, cell, arg, key, kv = setup(path, mode, match, **kw)
                    k = "%sKdlNode::%s(%s)" % (pre, m, mode)
                    rs = run_one(case, path, I, st, [sv, arg])
                    ck.ob(bool(rs), k + ":never returns", "")
                    for s, r in rs:
                        pres, x = entry_ref(I, s, r)
                        if not match:
                            ck.ob(pres is False, k + ":finds something that is not there", show(r), sample=k)
                        else:
                            tok = gl.tok("last" if mode == "key" else "target")
                            if mut:
                                okx = x is not None and x[0] == "ref" and x[1] == ("E", tok) and (
                                    (len(x[2]) == 0) if part is None else (len(x[2]) == 1 and x[2][0][0] == "f" and x[2][0][2] == valf))
                            else:
                                okx = x == (tok if part is None else ("fld", tok, None, valf))
                            ck.ob(pres is True and okx, k + ":does not find " + (want_last if mode == "key" else "the argument with that index"),
                                  "returns %s" % show(x if x is not None else r), sample=k)
                        unchanged(k, s, I, gl, cell)
    # --- indexing operators
    ty = api.ty("KdlNode")
    for trait, m, mut in [("std::ops::Index", "index", False), ("std::ops::IndexMut", "index_mut", True)]:
        for mode, argty in [("index", "usize"), ("key", "&str")]:
            path = find_index_impl(P, ty, trait, m, argty if argty == "usize" else "str")
            for match in (True, False):
                for kw in ([{}] if mode == "key" or match else [dict(exact=True), dict(short=True)]):
                    I, st, gl, sv, cell, arg, key, kv = setup(path, mode, match, direct="k", **kw)
                    k = "%sKdlNode %s[%s]" % (pre, "mut " if mut else "", argty)
                    rs = run_one(case, path, I, st, [sv, arg])
                    for s, r in rs:
                        if not match and not (mut and mode == "key"):
                            ck.ob(False, k + ":finds something that is not there", show(r))
                            continue
                        if match:
                            tok = gl.tok("last" if mode == "key" else "target")
                            okx = (r[0] == "ref" and r[1] == ("E", tok) and len(r[2]) == 1 and r[2][0][2] == valf) if mut else \
                                r == ("fld", tok, None, valf)
                            ck.ob(okx, k + ":wrong entry", show(r), sample=k)
                            unchanged(k, s, I, gl, cell)
                        else:
                            # a missing property is appended as null and returned
                            fin = fget(I, I.read(s, cell, ()), entf)
                            okx = fin[0] == "seq" and len(fin[1]) == 2 and fin[1][0] == ("all", gl.term) and fin[1][1][0] == "one"
                            if ck.ob(okx, k + ":a missing property is not appended", show(fin)):
                                e = fin[1][1][1]
                                nm = fget(I, e, namef)
                                okn = nm[0] == "agg" and nm[2] == 1 and fget(I, nm[4][0], kv_name) == arg
                                v = fget(I, e, valf)
                                ck.ob(okn and v[0] == "agg" and v[3] == "Null", k + ":the appended property is not key=null", show(e))
                                ck.ob(r[0] == "ref" and r[1] == ("E", e) and len(r[2]) == 1 and r[2][0][2] == valf,
                                      k + ":does not return the new value", show(r))
                    if match or (mut and mode == "key"):
                        ck.ob(bool(rs), k + ":never returns", "")
    # --- insert
    path = api.method("KdlNode", "insert")
    for mode in ("key", "index"):
        for match in (True, False):
            for kw in ([{}] if mode == "key" or match else [dict(exact=True), dict(short=True)]):
                for ename in ((None, True, False) if mode == "key" else (None, True)):
                    I, st, gl, sv, cell, arg, key, kv = setup(path, mode, match, **kw)
                    ent = sym("entry")
                    I.into[sym("rawentry")] = ent
                    I.tyof[ent] = eid
                    nmt = ("fld", ent, None, namef)
                    st.facts[("disc", nmt)] = 0 if ename is None else 1
                    if ename is not None and mode == "key":
                        f, v = eqfact(I, st, ("fld", payload(nmt), None, kv_name), kv, ename)
                        st.facts[f] = v
                    k = "%sKdlNode::insert(%s)" % (pre, mode)
                    rs = run_one(case, path, I, st, [sv, arg, sym("rawentry")])
                    bad = (mode == "key" and ename is False) or (mode == "index" and (ename is True or kw.get("short")))
                    if bad:
                        ck.ob(not rs, k + ":accepts " + ("an entry whose name is not the key" if mode == "key" else
                                                         "a property" if ename else "an index beyond the end"), "")
                        continue
                    ck.ob(bool(rs), k + ":never returns", "")
                    for s, r in rs:
                        fin = fget(I, I.read(s, cell, ()), entf)
                        fin = normpos(I, s, fin)
                        r = I.freeze(s, r)
                        tok = gl.tok("last") if mode == "key" else gl.tok("target")

                        def newentry(e):
                            if ename is None and mode == "key":
                                nm = fget(I, e, namef)
                                good = nm[0] == "agg" and nm[2] == 1 and fget(I, nm[4][0], kv_name) == kv
                                for fl in ("value", "ty", "format"):
                                    good = good and fget(I, e, cx.fn[("KdlEntry", fl)]) == ("fld", ent, None, cx.fn[("KdlEntry", fl)])
                                return good
                            return e == ent or all(fget(I, e, cx.fn[("KdlEntry", fl)]) == ("fld", ent, None, cx.fn[("KdlEntry", fl)])
                                                   for fl in ("value", "ty", "format", "name"))
                        other = [t for t in gl.toks() if t != tok and s.mem.get(("E", t), t) != t]
                        ck.ob(not other and not any(isinstance(x, tuple) and x[0] == "dirty" for x in s.ext), k + ":changes another entry", "")
                        if mode == "key" and match:
                            ck.ob(fin == gl.term and newentry(s.mem.get(("E", tok), tok)), k + ":does not replace " + want_last,
                                  "entries: %s, entry: %s" % (show(fin), show(s.mem.get(("E", tok), tok))), sample=k)
                            ck.ob(r == some(tok), k + ":does not return the replaced entry", show(r))
                        elif mode == "index" and match:
                            okx = fin[0] == "app" and fin[1] == "vec.insert" and fin[2][0] == gl.term and fin[2][1] == ("pos", "A", tok) and newentry(fin[2][2])
                            ck.ob(okx, k + ":not inserted before the argument with that index", show(fin), sample=k)
                            ck.ob(r == none(), k + ":returns something", show(r))
                        else:
                            okx = fin[0] == "seq" and len(fin[1]) == 2 and fin[1][0] == ("all", gl.term) and fin[1][1][0] == "one" and newentry(fin[1][1][1])
                            ck.ob(okx, k + ":new entry is not appended", show(fin))
                            ck.ob(r == none(), k + ":returns something", show(r))
    # --- remove
    path = api.method("KdlNode", "remove")
    for mode in ("key", "index"):
        for match in (True, False):
            for kw in ([{}] if mode == "key" or match else [dict(exact=True), dict(short=True)]):
                I, st, gl, sv, cell, arg, key, kv = setup(path, mode, match, **kw)
                k = "%sKdlNode::remove(%s)" % (pre, mode)
                rs = run_one(case, path, I, st, [sv, arg])
                for s, r in rs:
                    fin = normpos(I, s, fget(I, I.read(s, cell, ()), entf))
                    r = I.freeze(s, r)
                    if match:
                        tok = gl.tok("last" if mode == "key" else "target")
                        ck.ob(fin == app("vec.remove", gl.term, ("pos", "A", tok)) and r == some(tok),
                              k + ":does not remove and return the entry that get returns", "entries %s, returns %s" % (show(fin), show(r)), sample=k)
                    else:
                        ck.ob(mode == "key" and fin == gl.term and r == none(), k + ":removes something that is not there", show(fin))
                if match or mode == "key":
                    ck.ob(bool(rs), k + ":never returns", "")
                ck.ob(not any(isinstance(x, tuple) and x[0] == "dirty" for s, r in rs for x in s.ext), k + ":changes another entry", "")


def documents(case):
    ck, P, api, cx, pre = case.ck, case.P, case.api, case.cx, case.pre
    nodesf = cx.fn[("KdlDocument", "nodes")]
    entf, valf = cx.fn[("KdlNode", "entries")], cx.fn[("KdlEntry", "value")]
    did = api.tyid(api.ty("KdlDocument"))
    for m, mut in [("get", False), ("get_mut", True), ("get_arg", False), ("get_arg_mut", True)]:
        path = api.method("KdlDocument", m)
        for match in (True, False):
            for hasarg in ((True, False) if "arg" in m and match else (True,)):
                I = case.interp(None)
                st = St()
                doc = sym("self")
                I.tyof[doc] = did
                nm = sym("name")
                gl = node_list(I, cx, api, st, "N", nm, match)
                I.gfields[(doc, nodesf)] = gl.term
                if match:
                    el = entry_list(I, cx, api, st, "E", "index", None, hasarg, INT(0), exact=not hasarg)
                    I.gfields[(gl.tok("first"), entf)] = el.term
                sv, cell = mkself(I, st, P.bodies[path], doc)
                k = "%sKdlDocument::%s" % (pre, m)
                rs = run_one(case, path, I, st, [sv, nm])
                ck.ob(bool(rs), k + ":never returns", "")
                for s, r in rs:
                    if r[0] == "ref":
                        r = I.deref(s, r)
                    if not (r[0] == "agg" and r[1] == OPT):
                        ck.ob(False, k + ":cannot tell what is returned", show(r))
                        continue
                    x = r[4][0] if r[2] == 1 else None
                    if not match or not hasarg:
                        ck.ob(x is None, k + ":finds something that is not there", show(r))
                        continue
                    if "arg" in m:
                        tok = el.tok("target")
                        okx = x is not None and ((x[0] == "ref" and x[1] == ("E", tok) and len(x[2]) == 1 and x[2][0][2] == valf) if mut else x == ("fld", tok, None, valf))
                        what = "the first argument of the first node of that name"
                    else:
                        tok = gl.tok("first")
                        okx = x is not None and ((x[0] == "ref" and x[1] == ("E", tok) and not x[2]) if mut else x == tok)
                        what = "the first node of that name"
                    ck.ob(okx, k + ":does not return " + what, show(r), sample=k)
    # iterators
    for m in ("iter_args", "iter_dash_args"):
        path = api.method("KdlDocument", m)
        for match in (True, False):
            I = case.interp(None)
            st = St()
            doc = sym("self")
            I.tyof[doc] = did
            nm = sym("name")
            gl = node_list(I, cx, api, st, "N", nm, match)
            I.gfields[(doc, nodesf)] = gl.term
            first = gl.tok("first")
            want = {}
            cases = [None]
            if m == "iter_args" and match:
                ents = GList("E", ["arg", "prop"], None, [], counted=["arg"], ety=api.tyid(api.ty("KdlEntry")))
                nmf = cx.fn[("KdlEntry", "name")]
                ents.facts = {n: [(("disc", ("fld", ents.tok(n), None, nmf)), 0 if n == "arg" else 1)] for n in ("arg", "prop")}
                I.add(ents)
                I.gfields[(first, entf)] = ents.term
                want = {"arg": ("fld", ents.tok("arg"), None, valf)}
                lst = ents
            elif match:
                chf = cx.fn[("KdlNode", "children")]
                child = payload(("fld", first, None, chf))
                dash = GList("D", ["dash", "dashnone", "nodash"], None, [], ety=api.tyid(api.ty("KdlNode")))
                nvf = lambda t: ("fld", ("fld", t, None, cx.fn[("KdlNode", "name")]), None, cx.fn[("KdlIdentifier", "value")])
                dash.facts = {n: [eqfact(I, st, nvf(dash.tok(n)), absint.S("-"), n != "nodash")] for n in ("dash", "dashnone", "nodash")}
                I.add(dash)
                I.gfields[(child, nodesf)] = dash.term
                I.tyof[child] = did
                e1 = entry_list(I, cx, api, st, "E1", "index", None, True, INT(0))
                e2 = entry_list(I, cx, api, st, "E2", "index", None, False, INT(0), exact=True)
                I.gfields[(dash.tok("dash"), entf)] = e1.term
                I.gfields[(dash.tok("dashnone"), entf)] = e2.term
                # entries of a node not called "-" must not matter
                e3 = entry_list(I, cx, api, st, "E3", "index", None, True, INT(0))
                I.gfields[(dash.tok("nodash"), entf)] = e3.term
                want = {"dash": ("fld", e1.tok("target"), None, valf)}
                lst = dash
                cases = [0, 1]
            for ch in cases:
                st2 = st.copy()
                if ch is not None:
                    st2.facts[("disc", ("fld", first, None, chf))] = ch
                sv, cell = mkself(I, st2, P.bodies[path], doc)
                k = "%sKdlDocument::%s" % (pre, m)
                rs = run_one(case, path, I, st2, [sv, nm])
                ck.ob(bool(rs), k + ":never returns", "")
                for s, r in rs:
                    r = I.deref(s, r)
                    if r[0] != "iter":
                        r2 = models.as_iter(I, s, r, I.tyof.get(r))
                        if not ck.ob(r2 is not None, k + ":cannot tell what is returned", show(r)):
                            continue
                        r = r2
                    if not match or ch == 0:
                        drive(ck, I, s, r, None, {}, k)
                    else:
                        drive(ck, I, s, r, lst, want, k)


def drive(ck, I, st, it, lst, want, k):
    """walk the abstract states of an iterator: it must yield exactly the wanted part of every wanted element, in order"""
    seen = set()
    work = [(st, it)]
    n = 0
    I.track = True
    while work:
        s, i = work.pop()
        s = s.copy()
        for g in I.glists:
            s.ext.pop(("ys", g), None)
        s.trace = ()
        key = (i, I.hkey(s))
        if key in seen:
            continue
        seen.add(key)
        n += 1
        if n > 60:
            ck.fail(k + ":cannot be followed", "")
            return
        for s2, i2, x in models.nxt(I, s, i, ("drive",)):
            ys = set(s2.ext.get(("ys", lst.gid), ())) if lst else set()
            if lst is None:
                ck.ob(x is None, k + ":yields something that is not there", show(x) if x else "")
                continue
            cur = s2.ext.get(("cur", lst.gid))
            if x is None:
                ck.ob(not (ys & set(want)), k + ":skips an element", ",".join(sorted(ys & set(want))))
                continue
            x = I.freeze(s2, x)
            c = cur[0] if cur else None
            ck.ob(c in want and x == want[c], k + ":yields the wrong thing", "for %s yields %s" % (c, show(x)), sample=k)
            ck.ob(not ((ys - {c}) & set(want)), k + ":skips an element", ",".join(sorted(ys)))
            ck.ob(cur[1] == "f", k + ":yields backwards", "")
            work.append((s2, i2))


def collections(case):
    """len, is_empty, push, clear, iter, iter_mut and the children iterators of nodes"""
    ck, P, api, cx, pre = case.ck, case.P, case.api, case.cx, case.pre
    entf, nodesf, chf = cx.fn[("KdlNode", "entries")], cx.fn[("KdlDocument", "nodes")], cx.fn[("KdlNode", "children")]
    for m, mut, kids in [("iter", False, False), ("iter_mut", True, False), ("iter_children", False, True), ("iter_children_mut", True, True)]:
        path = api.method("KdlNode", m)
        for ch in ((0, 1) if kids else (None,)):
            I = case.interp(None)
            st = St()
            node = sym("self")
            I.tyof[node] = api.tyid(api.ty("KdlNode"))
            l = GList("X", ["x"], None, [], ety=api.tyid(api.ty("KdlNode" if kids else "KdlEntry")))
            I.add(l)
            if kids:
                st.facts[("disc", ("fld", node, None, chf))] = ch
                cd = payload(("fld", node, None, chf))
                I.gfields[(cd, nodesf)] = l.term
                I.tyof[cd] = api.tyid(api.ty("KdlDocument"))
            else:
                I.gfields[(node, entf)] = l.term
            sv, cell = mkself(I, st, P.bodies[path], node)
            k = "%sKdlNode::%s" % (pre, m)
            for s, r in run_one(case, path, I, st, [sv]):
                r = I.deref(s, r)
                it = r if r[0] == "iter" else ("iter", "user", r)
                drive(ck, I, s, it, l if ch != 0 else None, {"x": l.tok("x")}, k)


def run(ck):
    ck.explanation = ("entry, get, entry_mut, get_mut, insert, remove, indexing and the document lookups are interpreted over lists of unbounded length with one "
                      "distinguished element (the last match, the n-th argument, the first node of a name); loops and iterator chains are taken to a fixpoint "
                      "over the position classes of the list and affine counters.")
    ck.rule = "every lookup by name denotes the last property with that name value, every lookup by index the n-th unnamed entry, documents the first node of that name"
    for cfg in (["all"] if ck.tier == "quick" else ["all", "none"]):
        P = dump.load(cfg)
        api = Api(P)
        cx = Ctx(P, api)
        case = Case(ck, P, api, cx, "" if cfg == "all" else cfg + ":")
        lookups(case)
        documents(case)
        collections(case)
