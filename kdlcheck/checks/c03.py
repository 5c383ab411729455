"""C03: v2 parsing accepts exactly the KDL 2.0 grammar."""
import sys
from .. import dump, absint, peg
from .. import grammar as g
from ..common import Api
from ..peg import Extract, Lang, Count, difference, parallel, anchor, canon, intern, seq

ROOTS = [("KdlIdentifier", "parse", "identifier"), ("KdlEntry", "parse", "entry"), ("KdlNode", "parse", "node"), ("KdlDocument", "parse_v2", "document")]
NOSTR = {'"': 0, "#": 0}
NOML = {'"""': 0, "####": 0}

# (name, root, children depth of the reference, alphabet or None for every code point, bounds)
QUICK = [
    ("strings", "identifier", 1, None, dict(NOML, **{"/*": 2})),
    ("entries without comments", "entry", 1, None, dict(NOML, **{"/*": 0, "/-": 0})),
    ("entries with comments", "entry", 1, None, dict(NOSTR, **{"/*": 1, "/-": 0})),
    ("nested comments", "entry", 1, "a /*", {"/*": 3, "/-": 0, "//": 0}),
    ("flat documents", "document", 1, None, dict(NOSTR, **{"{": 0, "/*": 0, "/-": 0})),
    ("nested blocks", "document", 3, "a \n;{}", {"{": 3}),
    ("commented-out nodes and blocks", "document", 1, "a \n;{}/-", {"{": 1, "/-": 1}),
    ("commented-out entries", "document", 1, "a ={}/-(", {"{": 1, "/-": 1}),
    ("several commented-out parts", "document", 1, "a /-\n;", {"/-": 2}),
    ("commented-out block and entry", "document", 2, "a {}/-", {"{": 2, "/-": 1}),
    ("comments in documents", "document", 1, "a \n/*;", {"/*": 1, "/-": 0}),
    ("escaped line ends", "document", 1, "a \n\\;/{}", {"{": 1, "/-": 0, "/*": 0}),
    ("type annotations", "document", 1, "a()= \n", {}),
    ("names, arguments and properties", "document", 1, 'a"#\n\\ =', dict(NOML, **{'""': 1})),
    ("numbers in nodes", "document", 1, "a \n{};0.+-", {"{": 1}),
    ("byte-order mark", "document", 1, "a \n\ufeff;{}", {"{": 1}),
    ("single nodes", "node", 1, "a \n;{}/=", {"{": 1, "/*": 0, "/-": 0}),
    ("single nodes with commented-out parts", "node", 1, "a \n;{}/-", {"{": 1, "/-": 1}),
]
THOROUGH = [
    ("three commented-out parts", "document", 1, "a /-\n;", {"/-": 3}),
    ("strings and comments in entries", "entry", 1, None, dict(NOML, **{"/*": 1, "/-": 0})),
    ("two commented-out entries", "document", 1, "a ={}/-(", {"{": 1, "/-": 2}),
    ("flat documents with strings", "document", 1, None, dict(NOML, **{"{": 0, "/*": 0, "/-": 0, '"': 2, "#": 2})),
    ("deep blocks", "document", 5, "a \n;{}", {"{": 5}),
]


def reference(root, depth):
    G = g.G(3, depth)
    e = {"identifier": g.string, "entry": seq(G.lsp0, G.entry, G.lsp0), "document": G.document, "node": G.single_node}[root]
    return seq(e, ("eof",))


def run(ck):
    sys.setrecursionlimit(1000000)
    ck.explanation = ("The grammar the v2 parser implements is extracted from the parser functions' MIR (combinators, look-ahead, cuts, error recovery: a run that records an error counts as a rejection) and compared, as a language, with the KDL 2.0 "
                      "grammar by derivatives over alternating automata: within each stated alphabet and nesting bound the two are shown to accept exactly the same texts of every length, or the shortest text they disagree on is reported.")
    ck.rule = "language(extracted parser, end of input, no recorded error) = language(reference grammar) for each listed alphabet and bound"
    P = dump.load("none")
    X, keys = roots(ck, P)
    jobs = QUICK + (THOROUGH if ck.tier == "thorough" else [])
    compare(ck, X, keys, jobs, "")
    P2 = dump.load("all")
    X2 = Extract(P2)
    for r, k in keys.items():
        try:
            same = k in P2.bodies and canon(X, ("fn", k)) == canon(X2, ("fn", k))
        except (peg.NoModel, absint.Unsupported) as x:
            ck.fail("all:%s:grammar not understood" % r, str(x))
            continue
        ck.ob(True, "")
        if same:
            ck.note("%s: the grammar with every feature on is the same" % r)
        elif k in P2.bodies:
            compare(ck, X2, {r: k}, [j for j in jobs if j[1] == r], "all:")
    ck.used_x = None


def roots(ck, P):
    api = Api(P)
    X = Extract(P)
    keys = {}
    for t, m, r in ROOTS:
        p, bad, I = anchor(P, api, t, m)
        ck.used(I)
        for b in bad:
            ck.fail("%s::%s:%s" % (t, m, b))
        if p is not None:
            keys[r] = X.ast(p)[1] if X.ast(p)[0] == "fn" else None
            if keys[r] is None:
                ck.fail("%s::%s:parser not understood" % (t, m))
                del keys[r]
            else:
                ck.ob(True, "")
    return X, keys


def compare(ck, X, keys, jobs, pre, want=None):
    jobs = [j for j in jobs if j[1] in keys]
    for r, k in keys.items():
        try:
            canon(X, ("fn", k))          # extract everything once, before forking
        except (peg.NoModel, absint.Unsupported) as x:
            ck.fail("%s%s:grammar not understood" % (pre, r), str(x)[:200])
            return
    ck.analysed |= X.used

    def job(j):
        name, root, depth, alpha, most = j

        def go():
            L = Lang(X.expand)
            R = Lang()
            w, side, n, cls = difference(L, seq(("fn", keys[root]), ("eof",)), R, reference(root, depth), Count(most), alphabet=alpha)
            return w, side, n, len(cls), len(L.conts), sorted(L.notes)
        return go
    for j, (st, v) in zip(jobs, parallel([job(j) for j in jobs])):
        report(ck, j, st, v, pre)


def report(ck, j, st, v, pre, what="accepts"):
    name, root, depth, alpha, most = j
    if st == "ok":
        w, side, n, cls, conts, notes = v
        ck.count("automaton_states", n)
        ck.count("comparisons")
        ck.ob(w is None, "%s%s:%s" % (pre, name, "accepts a text the grammar does not derive" if side == "first" else "rejects a text the grammar derives"),
              "%s, %r" % (root, w),
              "%s (%s; alphabet %s; at most %s): equal, %d states over %d classes of characters" % (name, root, "all code points" if alpha is None else repr(alpha), most, n, cls))
        for x in notes:
            if not any(k in ('"""', '"') for k in most):
                ck.note(x)
    elif st == "budget":
        ck.note("%s%s: not decided within the memory limit" % (pre, name))
        ck.count("undecided")
    else:
        ck.fail("%s%s:analysis failed" % (pre, name), v[:200])
