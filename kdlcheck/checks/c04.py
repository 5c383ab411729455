"""C04: a value literal is read as the kind of value the KDL 2.0 grammar gives it."""
import sys
from .. import dump, absint, peg
from .. import grammar as g
from ..peg import Extract, Lang, Count, difference, parallel, canon, seq
from . import c03

INF, NINF, NAN = 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000
ONE = {'"""': 0, "####": 0, "/*": 0, "/-": 0, "=": 0, "(": 0}


def kinds(G):
    return [
        ("string", {"String"}, g.string),
        ("integer", {"Integer"}, g.orr(g.decimal_int, g.hexa, g.octal, g.binary)),
        ("float", {"Float"}, g.decimal_float),
        ("#true", {"Bool:True", "Bool:1"}, g.lit("#true")),
        ("#false", {"Bool:False", "Bool:0"}, g.lit("#false")),
        ("#null", {"Null"}, g.lit("#null")),
        ("#inf", {"Float:%016x" % INF}, g.lit("#inf")),
        ("#-inf", {"Float:%016x" % NINF}, g.lit("#-inf")),
        ("#nan", "nan", g.lit("#nan")),
    ]


def isnan(t):
    if not t.startswith("Float:"):
        return False
    try:
        x = int(t[6:], 16)
    except ValueError:
        return False
    return (x >> 52) & 0x7FF == 0x7FF and x & ((1 << 52) - 1) != 0


def run(ck):
    sys.setrecursionlimit(1000000)
    ck.explanation = ("The grammar of KdlEntry::parse is extracted from MIR together with the KdlValue each alternative builds (variant, and the constant for keywords). For each kind of value, the texts whose successful runs build only that kind are compared, "
                      "as a language over all code points, with the texts the KDL 2.0 grammar gives that kind.")
    ck.rule = "for each kind: language(runs of the extracted parser that build that kind) = language(that kind of literal, with line space around it)"
    P = dump.load("none")
    X, keys = c03.roots(ck, P)
    if "entry" not in keys:
        return
    one(ck, X, keys["entry"], "")
    k = keys["entry"]
    P2 = dump.load("all")
    X2 = Extract(P2)
    try:
        same = k in P2.bodies and canon(X, ("fn", k)) == canon(X2, ("fn", k))
    except (peg.NoModel, absint.Unsupported) as x:
        ck.fail("all:entry:grammar not understood", str(x))
        return
    if same:
        ck.note("the grammar with every feature on is the same")
    elif k in P2.bodies:
        one(ck, X2, k, "all:")


def one(ck, X, key, pre):
    try:
        canon(X, ("fn", key))
    except (peg.NoModel, absint.Unsupported) as x:
        ck.fail("%sentry:grammar not understood" % pre, str(x)[:200])
        return
    ck.analysed |= X.used
    G = g.G(3, 1)
    ks = kinds(G)

    def job(tags, ref):
        def go():
            L = Lang(X.expand)
            L.want = (lambda t: t.startswith("char:") or (isnan(t) if tags == "nan" else t in tags))
            w, side, n, cls = difference(L, seq(("fn", key), ("eof",)), Lang(), seq(G.lsp0, ref, G.lsp0, ("eof",)), Count(ONE))
            return w, side, n, len(cls), len(L.conts), sorted(L.notes)
        return go
    for (name, tags, ref), (st, v) in zip(ks, parallel([job(t, r) for _, t, r in ks])):
        if st == "ok":
            w, side, n, cls, conts, notes = v
            ck.count("automaton_states", n)
            ck.count("comparisons")
            ck.ob(w is None, "%s%s:%s" % (pre, name, "other texts are read as this" if side == "first" else "not read as this"), "%r" % (w,),
                  "%s: exactly the texts the grammar gives this kind (%d states over %d classes of characters)" % (name, n, cls))
        elif st == "budget":
            ck.note("%s%s: not decided within the memory limit" % (pre, name))
        else:
            ck.fail("%s%s:analysis failed" % (pre, name), v[:200])
