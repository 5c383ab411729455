"""C01: rendering emits every stored piece exactly once, in order, and keeps siblings apart."""
import itertools
from .. import dump, absint
from ..absint import Interp, St, show, is_c, S, I as INT, sym, cat_items, app, mentions
from ..common import Api, payload, disc, Anchor

TYPES = ["KdlDocument", "KdlNode", "KdlEntry", "KdlIdentifier"]


def flat(ev):
    """trace -> atoms: ('ch',c) ('tok',term) ('ws0',) ('loop',iters) ('end',v) ('next',v,e)"""
    out = []
    for e in ev:
        if e[0] == "emit":
            for p in cat_items(e[2]):
                if is_c(p, "str"):
                    out += [("ch", c) for c in p[2]]
                elif p[0] == "disp":
                    out.append(("tok", p[2], p[1]))
                elif p[0] == "app" and p[1] == "pad" and is_c(p[2][1], "str") and p[2][1][2].strip(" \t") == "":
                    out.append(("ws0",))
                else:
                    out.append(("tok", p, "Display"))
        elif e[0] == "loop":
            out.append(("loop", e[2]))
        elif e[0] == "end":
            out.append(("end", e[1]))
        elif e[0] == "peek":
            out.append(e)
        elif e[0] == "next":
            out.append(("next", e[1], e[2]))
        elif e[0] == "render":
            out.append(("tok", e[1], "Display"))
        elif e[0] == "call":
            out.append(("call", e[1]))
    return out


class Spec:
    def __init__(self, api):
        g = api.field
        self.api = api
        self.doc = lambda o: dict(format=g("KdlDocument", "format", o), nodes=g("KdlDocument", "nodes", o))
        self.node = lambda o: dict(format=g("KdlNode", "format", o), ty=g("KdlNode", "ty", o), name=g("KdlNode", "name", o),
                                   entries=g("KdlNode", "entries", o), children=g("KdlNode", "children", o))
        self.entry = lambda o: dict(format=g("KdlEntry", "format", o), ty=g("KdlEntry", "ty", o), name=g("KdlEntry", "name", o),
                                    value=g("KdlEntry", "value", o))


def F(fmt, name):
    return ("fld", payload(fmt), None, name)


def match(spec, atoms, ctx):
    """NFA match of atoms against spec; returns None or the furthest failure"""
    best = [0, ""]

    def go(i, j):
        # skip exhausted bookkeeping
        if i == len(spec):
            k = j
            while k < len(atoms) and atoms[k][0] in ("end", "next", "peek"):
                k += 1
            if k == len(atoms):
                return True
            if k > best[0] or not best[1]:
                best[0], best[1] = k, "unexpected %s" % desc(atoms[k])
            return False
        sp = spec[i]
        if sp[0] == "opt":
            # optional token
            return go(i + 1, j) or (j < len(atoms) and atoms[j][0] == "tok" and atoms[j][1] == sp[1] and go(i + 1, j + 1))
        if sp[0] in ("ws0", "sp0", "ws1", "nl"):
            seen = sp[0] in ("ws0", "sp0")
            k = j
            if seen and go(i + 1, k):
                return True
            while k < len(atoms) and (atoms[k] == ("ws0",) or (atoms[k][0] == "ch" and atoms[k][1] in (" \t\n" if sp[0] not in ("ws1", "sp0") else " \t"))):
                if sp[0] == "nl" and atoms[k] == ("ch", "\n"):
                    seen = True
                if sp[0] == "ws1" and atoms[k][0] == "ch":
                    seen = True
                k += 1
                if seen and go(i + 1, k):
                    return True
            if k >= best[0] and not seen:
                best[0], best[1] = k, "missing separator before %s" % (desc(atoms[k]) if k < len(atoms) else "the end")
            return False
        if j >= len(atoms):
            if j >= best[0]:
                best[0], best[1] = j, "missing %s" % sdesc(sp)
            return False
        a = atoms[j]
        if sp[0] == "ch" and a == sp:
            return go(i + 1, j + 1)
        if sp[0] == "tok" and a[0] == "tok" and a[1] == sp[1]:
            return go(i + 1, j + 1)
        if sp[0] == "each":
            if a[0] == "loop" and j + 1 < len(atoms) and atoms[j + 1] == ("end", sp[1]):
                for ev, fs in a[1]:
                    e = body(sp, ev, dict(fs))
                    if e:
                        if j >= best[0]:
                            best[0], best[1] = j, e
                        return False
                return go(i + 1, j + 2)
            if a == ("end", sp[1]):
                return go(i + 1, j + 1)
            if a[0] in ("loop",) and j >= best[0]:
                best[0], best[1] = j, "traversal of %s may stop before the last element or runs over something else" % show(sp[1])
                return False
        if a[0] in ("end", "peek"):
            return go(i, j + 1)
        if j >= best[0]:
            best[0], best[1] = j, "expected %s, found %s" % (sdesc(sp), desc(a))
        return False

    def body(sp, ev, fs):
        at = flat(ev)
        nx = [a for a in at if a[0] == "next" and a[1] == sp[1]]
        if len(nx) != 1:
            return "an iteration over %s visits %d elements" % (show(sp[1]), len(nx))
        el = nx[0][2]
        if el[2][0] == "*b" or (isinstance(el[2], tuple) and el[2][0] == "b"):
            return "%s is traversed backwards" % show(sp[1])
        at = [a for a in at if a != nx[0]]
        facts = dict(ctx)
        facts.update(fs)
        if ("peek", sp[1], 0) in at:
            facts[("last", sp[1])] = True
        at = [a for a in at if a[0] != "peek"]
        for assign, bspec in sp[2](el, facts):
            e = match(bspec, at, facts)
            if e:
                return "in the loop over %s%s: %s" % (show(sp[1]), assign, e)
        return None

    if go(0, 0):
        return None
    return best[1] or "no match"


def desc(a):
    if a[0] == "ch":
        return repr(a[1])
    if a[0] == "tok":
        return "`%s`" % show(a[1])
    if a[0] == "loop":
        return "a loop"
    return str(a[0])


def sdesc(s):
    if s[0] == "each":
        return "all of `%s`" % show(s[1])
    return desc(s)


def lit(s):
    return [("ch", c) for c in s]


def assignments(facts, opts):
    """all completions of the option discriminants that the path leaves open"""
    ks = [k for k in opts]
    dom = []
    for k in ks:
        d = disc(facts, opts[k])
        dom.append([d] if d is not None else [0, 1])
    for c in itertools.product(*dom):
        yield dict(zip(ks, c))


def tyspec(d, fmt, a, extra_after=True):
    out = []
    if a["ty"]:
        out += lit("(")
        if a["format"]:
            out.append(("tok", F(fmt, "before_ty_name")))
        out.append(("tok", payload(d["ty"])))
        if a["format"]:
            out.append(("tok", F(fmt, "after_ty_name")))
        out += lit(")")
        if a["format"]:
            out.append(("tok", F(fmt, "after_ty")))
    elif a["format"]:
        out.append(("tok" if extra_after else "opt", F(fmt, "after_ty")))
    return out


def spec_entry(sp, o, facts):
    d = sp.entry(o)
    f = d["format"]
    for a in assignments(facts, {"format": f, "ty": d["ty"], "name": d["name"]}):
        s = []
        if a["format"]:
            s.append(("tok", F(f, "leading")))
        if a["name"]:
            s.append(("tok", payload(d["name"])))
            if a["format"]:
                s.append(("tok", F(f, "after_key")))
            s += lit("=")
            if a["format"]:
                s.append(("tok", F(f, "after_eq")))
        s += tyspec(d, f, a)
        if a["format"]:
            s += [("tok", F(f, "value_repr")), ("tok", F(f, "trailing"))]
        else:
            s.append(("tok", d["value"]))
        yield a, s


def nonempty(fs, t):
    """the facts of the path say that string `t` is not empty"""
    ln = app("len", t)
    for k, v in fs.items():
        if not (isinstance(k, tuple) and k and k[0] == "app" and is_c(v, "bool")):
            continue
        op, args, v = str(k[1]).split(".")[-1], k[2], v[2]
        if op in ("Eq", "Le") and args[0] == ln and is_c(args[1], "int") and args[1][2] == 0 and v is False:
            return True
        if op == "Eq" and args[0] == INT(0) and args[1] == ln and v is False:
            return True
        if op in ("Lt", "Ne") and args[0] in (ln, INT(0)) and args[1] in (ln, INT(0)) and args[0] != args[1] and v is True:
            return True
        if op in ("starts_with", "ends_with", "contains", "any") and v is True and mentions(k, lambda x: x == t):
            return True
        if op == "Eq" and S("") in args and t in args and v is False:
            return True
    return False


def comment_ended(fs, t):
    """the path has established something about the text of terminator `t` beyond it not being empty:
    it is no comment, or it ends in a newline"""
    for k, v in fs.items():
        if isinstance(k, tuple) and k and k[0] == "app" and mentions(k, lambda x: x == t):
            if str(k[1]).endswith("starts_with") and v == absint.TRUE:
                continue
            if k[1] in ("Eq", "Lt", "Le", "Ne") and mentions(k, lambda x: x == app("len", t)):
                continue
            return True
    return False


def spec_node(sp, o, facts):
    d = sp.node(o)
    f = d["format"]

    def ent(el, fs):
        ed = sp.entry(el)
        for a in assignments(fs, {"entry.format": ed["format"]}):
            sep = a["entry.format"] and nonempty(fs, F(ed["format"], "leading"))
            yield a, [("sp0",) if sep else ("ws1",), ("tok", el)]

    for a in assignments(facts, {"format": f, "ty": d["ty"], "children": d["children"]}):
        s = [("tok", F(f, "leading"))] if a["format"] else [("ws0",)]
        s += tyspec(d, f, a)
        s.append(("tok", d["name"]))
        s.append(("each", d["entries"], ent))
        if a["children"]:
            ch = payload(d["children"])
            cf = sp.doc(ch)["format"]
            for b in assignments(facts, {"children.format": cf}):
                t = list(s)
                if a["format"]:
                    t.append(("tok", F(f, "before_children")))
                else:
                    t.append(("ws0",))
                t += lit("{")
                if not b["children.format"]:
                    t.append(("ws0",))
                t.append(("tok", ch))
                if not b["children.format"]:
                    t.append(("ws0",))
                t += lit("}")
                if a["format"]:
                    t += [("tok", F(f, x)) for x in ("before_terminator", "terminator", "trailing")]
                yield dict(a, **b), t
        else:
            if a["format"]:
                s.append(("opt", F(f, "before_children")))
                s += [("tok", F(f, x)) for x in ("before_terminator", "terminator", "trailing")]
            yield a, s


def spec_doc(sp, o, facts):
    d = sp.doc(o)
    f = d["format"]

    def nod(el, fs):
        nd = sp.node(el)
        for a in assignments(fs, {"node.format": nd["format"]}):
            sep = False
            if a["node.format"]:
                t, tr = F(nd["format"], "terminator"), F(nd["format"], "trailing")
                sep = nonempty(fs, tr) or nonempty(fs, t) and comment_ended(fs, t)
            if fs.get(("last", d["nodes"])):
                sep = True
            yield a, [("tok", el), ("ws0",) if sep else ("nl",)]

    for a in assignments(facts, {"format": f}):
        s = [("tok", F(f, "leading"))] if a["format"] else []
        s.append(("each", d["nodes"], nod))
        if a["format"]:
            s.append(("tok", F(f, "trailing")))
        yield a, s


def spec_ident(sp, o, facts):
    r = sp.api.field("KdlIdentifier", "repr", o)
    for a in assignments(facts, {"repr": r}):
        if a["repr"]:
            yield a, [("tok", payload(r))]


SPECS = {"KdlDocument": spec_doc, "KdlNode": spec_node, "KdlEntry": spec_entry, "KdlIdentifier": spec_ident}


def candidates(P, api):
    """local functions taking (&T, &mut Formatter, scalars..) for the public tree types"""
    out = {}
    tp = {api.ty(t): t for t in TYPES}
    for f in P.fns:
        b = P.bodies.get(f["path"])
        if b is None or b["argc"] < 2:
            continue
        tys = [P.types[P.peel(b["locals"][i + 1][0])] for i in range(b["argc"])]
        if tys[0]["k"] == "adt" and tys[0]["p"] in tp and any("std::fmt::Formatter" in t["s"] for t in tys[1:]) \
                and all("Formatter" in t["s"] or t["k"] == "prim" for t in tys[1:]):
            out[f["path"]] = tp[tys[0]["p"]]
    for t in TYPES:
        k = api.trait_method(t, "std::fmt::Display", "fmt")
        out[k] = t
    return out


def analyse(P, api, sp, path, tname, full, specs=None):
    """[(error, path-assignment)] for render function `path`"""
    tp = {api.ty(t): t for t in TYPES}

    def hook(I, st, c, site):
        n = c.key if c.key in full else (c.r if c.r in full else None)
        if n is None:
            return None
        o = I.deref(st, c.args[0])
        if o == root:
            if len(I.stack) >= 1 and n in I.stack:
                return []
            return None
        s = st.copy()
        s.ev("render", o, full[n])
        return [(s, ("agg", absint.RES, 0, "Ok", (absint.UNIT,)))]

    root = sym("self")
    I = Interp(P, hooks=[hook], display_tokens=[api.ty("KdlEntry"), api.ty("KdlIdentifier"), api.ty("KdlValue"), api.ty("KdlNode"), api.ty("KdlDocument")])
    if tname == "KdlIdentifier":
        I.display_tokens.discard(api.ty("KdlIdentifier"))
    body = P.bodies[path]
    st = St()
    args = [root]
    I.tyof[root] = api.tyid(api.ty(tname))
    for i in range(1, body["argc"]):
        args.append(I.param(st, "f" if "Formatter" in P.tys(body["locals"][i + 1][0]) else "x%d" % i, body["locals"][i + 1][0]))
    # display of the object itself is inlined, of sub-objects is a token
    I.display_tokens.discard(api.ty(tname))
    res = I.run_body(body, path, args, st, ("root", path))
    errs = []
    n = 0
    for s, v in res:
        if v[0] == "agg" and v[1] == absint.RES and v[2] == 1:
            continue
        at = flat(s.trace)
        for a, spc in (specs or SPECS)[tname](sp, root, s.facts):
            n += 1
            e = match(spc, at, s.facts)
            if e:
                errs.append((e, a))
    return errs, n, I


def run(ck):
    P = dump.load("all" if ck.tier == "quick" else "all")
    check_prog(ck, P)
    if ck.tier == "thorough":
        for c in ("none", "default", "v1span"):
            check_prog(ck, dump.load(c), c + ":")


def check_prog(ck, P, prefix="", specs=None):
    ck.explanation = ck.explanation or ("Abstract interpretation of every rendering function over symbolic documents; the emission sequence of every path "
                      "(format present/absent, annotation, children, entry kinds) is matched against the required sequence of pieces.")
    ck.rule = ck.rule or ("each stored text (format fields, names, annotations, entries, children, terminators) is written exactly once and in source order; "
               "entries without formatting are preceded by white space, nodes without formatting are followed by a newline")
    api = Api(P)
    sp = Spec(api)
    cand = candidates(P, api)
    roots = {api.trait_method(t, "std::fmt::Display", "fmt"): t for t in TYPES}
    full = dict(cand)
    errs = {}
    while True:
        bad = []
        for p, t in full.items():
            try:
                e, n, I = analyse(P, api, sp, p, t, full, specs)
            except absint.Unsupported as x:
                e, n = [("cannot be analysed: %s" % x, {})], 1
                I = None
            errs[p] = (e, n)
            if I:
                ck.used(I)
            if e:
                bad.append(p)
        bad = [p for p in bad if p in full]
        drop = [p for p in bad]
        if not drop:
            break
        # a helper that renders only a part is not a complete renderer: inline it instead
        helpers = [p for p in drop if p not in roots]
        if helpers:
            for p in helpers:
                full.pop(p)
        else:
            break
    for p, t in roots.items():
        e, n = errs[p]
        ck.count("emission_paths", n)
        for i in range(n - len(e)):
            ck.ob(True, "")
        for msg, a in e:
            on = ",".join("%s=%s" % (k, "present" if v else "absent") for k, v in sorted(a.items()))
            ck.fail("%srender:%s:%s" % (prefix, t, msg), "with %s" % on)
        ck.count("render_functions")
    ck.samples.append("renderers proved complete: " + ", ".join(sorted(full)))
