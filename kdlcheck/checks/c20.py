"""C20: the language server answers for the text the client sent last."""
import sys
from .. import lsp, absint
from ..absint import is_c, show, some, TRUE
from ..common import Anchor
from ..lsp import path_of, plain

URI = ("text_document", "uri")
WRITES = {"insert", "remove"}


def keys(ck, m, t, seen):
    """the key a handler uses: the document's URI, in the same form everywhere"""
    p = path_of(plain(t))
    ck.ob(p == URI, "%s:does not use the document's own key" % m, show(t)[:200])
    seen.add(show(plain(t)))


def stores(trace):
    return [e for e in trace if e[0] == "store" and e[1] != "contains_key"]


def flat(trace):
    for e in trace:
        if e[0] == "loop":
            for ev, fs in e[2]:
                yield from flat(ev)
        else:
            yield e


def last_of(t, cc, s):
    """is t the last element of the list cc?"""
    if t[0] == "elem" and t[1] == cc:
        i = t[2]
        return i == ("b", 0) or i == ("app", "Sub", (("app", "len", (cc,)), absint.I(1)))
    if t[0] == "fld" and t[2:] == ("Some", "0") and t[1][0] == "app":
        return str(t[1][1]) == "vec.pop.ret" and t[1][2] == (cc,)
    return False


def empty(s, cc):
    if s.facts.get(("val", ("app", "len", (cc,)))) == absint.I(0):
        return True
    for k, v in s.facts.items():
        if k[0] == "disc" and k[1][0] == "app" and str(k[1][1]) == "vec.pop.ret" and k[1][2] == (cc,) and v == 0:
            return True
    return False


def run(ck):
    sys.setrecursionlimit(100000)
    ck.explanation = ("Every handler of the language server is run to completion on a symbolic request, its awaits included; each path's writes to and reads from the document store are read off: the key, the text stored, "
                      "and the text that a diagnostic request parses. The property over whole sessions follows by induction on the notifications.")
    ck.rule = "open, change and save insert exactly (uri, the text sent), close removes uri, a diagnostic request parses what is stored under its uri; nothing else touches the store"
    P = lsp.load()
    hs = sorted(k.rsplit("::", 1)[-1] for k in P.bodies if "::LanguageServer>::" in k and k.count("::{") == 0 and "@" not in k)
    for need in ("did_open", "did_change", "did_close", "diagnostic", "initialize"):
        if lsp.handler(P, need) is None:
            raise Anchor("handler " + need)
    used = set()
    names = set()
    for m in hs:
        I, res, av = lsp.run(P, m)
        ck.used(I)
        ck.ob(res, "%s:never finishes" % m, "")
        ck.count("handlers")
        for s, v in res:
            ck.count("paths")
            es = list(flat(s.trace))
            st = [e for e in es if e[0] == "store"]
            for e in st:
                names.add(show(e[2]))
            muts = [e for e in st if e[1] not in ("get", "contains_key", "view", "try_get", "iter")]
            if m in ("did_open", "did_change", "did_save"):
                for e in muts:
                    ck.ob(e[1] == "insert", "%s:%s" % (m, e[1]), show(e[3])[:100])
            if m == "did_open":
                ck.ob(len(muts) == 1, "did_open:does not store the text once", "%d writes" % len(muts))
                for e in muts:
                    keys(ck, m, e[3][0], used)
                    ck.ob(e[1] == "insert" and path_of(plain(e[3][1])) == ("text_document", "text"), "did_open:stores something else than the text", show(e[3][-1])[:200])
            elif m == "did_change":
                cc = ("fld", lsp.PARAMS, None, "content_changes")
                top = [e for e in s.trace if e[0] == "store" and e[1] not in ("get", "contains_key", "view")]
                if empty(s, cc):
                    ck.ob(not muts, "did_change:an empty list of changes touches the text", "")
                    ck.count("empty")
                    continue
                if not top:
                    ok = walk(s.trace, cc, ck, used)
                    ck.ob(ok, "did_change:does not store the last change", "")
                    ck.count("empty")
                    continue
                ck.ob(len(top) == 1 and len(muts) == 1, "did_change:does not store one text", "%d writes" % len(muts))
                e = top[-1]
                keys(ck, m, e[3][0], used)
                t = plain(e[3][-1])
                ck.ob(t[0] == "fld" and t[3] == "text" and last_of(t[1], cc, s), "did_change:stores something else than the text of the last change", show(e[3][-1])[:200])
            elif m == "did_save":
                tx = ("fld", lsp.PARAMS, None, "text")
                if s.facts.get(("disc", tx)) == 0:
                    ck.ob(not muts, "did_save:touches the store though no text was sent", "")
                    continue
                for e in muts:
                    keys(ck, m, e[3][0], used)
                    ck.ob(plain(e[3][-1]) == ("fld", tx, "Some", "0"), "did_save:stores something else than the text", show(e[3][-1])[:200])
            elif m == "did_close":
                ck.ob(len(muts) == 1 and muts[0][1] == "remove", "did_close:does not remove the text", "%s" % [e[1] for e in muts])
                for e in muts:
                    keys(ck, m, e[3][0], used)
            else:
                ck.ob(not muts, "%s:changes the store" % m, "")
            if m == "diagnostic":
                gets = [e for e in st if e[1] in ("get", "view", "try_get")]
                ck.ob(gets, "diagnostic:does not look at the store", "")
                for e in gets:
                    keys(ck, m, e[3][0], used)
                for c, a in parses(s, v):
                    ck.count("parses")
                    x = plain(a)
                    good = x[0] == "fld" and x[2:] == ("Some", "0") and x[1][0] == "app" and str(x[1][1]).startswith("stored:") and path_of(plain(x[1][2][1])) == URI
                    ck.ob(good, "diagnostic:parses something else than the stored text", show(a)[:200])
            if m == "initialize":
                sync(ck, v)
    ck.ob(ck.cover.get("empty"), "did_change:an empty list of changes is not provided for", "")
    ck.ob(ck.cover.get("parses"), "diagnostic:parses nothing", "")
    ck.ob(len(names) == 1, "handlers use different stores", ", ".join(sorted(names)))


def walk(trace, cc, ck, used):
    """a loop over all changes that stores each one's text: the last stays"""
    ok = False
    for i, e in enumerate(trace):
        if e[0] != "loop":
            continue
        good = bool(e[2]) and ("end", cc) in trace[i:]
        for ev, fs in e[2]:
            nx = [x[2] for x in ev if x[0] == "next" and x[1] == cc]
            st = [x for x in ev if x[0] == "store"]
            if len(nx) != 1 or len(st) != 1 or st[0][1] != "insert":
                good = False
                continue
            keys(ck, "did_change", st[0][3][0], used)
            good &= plain(st[0][3][1]) == ("fld", nx[0], None, "text")
        ok |= good
    return ok


def parses(s, v):
    """calls of the KDL parser a path depends on"""
    out = set()
    for k, f in s.facts.items():
        if k[0] == "disc" and k[1][0] == "app" and is_parse(k[1][1]):
            out.add((k[1][1], k[1][2][0]))
    return sorted(out, key=repr)


def is_parse(n):
    n = str(n)
    return n.startswith("str.parse:") and "KdlDocument" in n or n in ("kdl::KdlDocument::parse", "kdl::KdlDocument::from_str") or "KdlDocument" in n and n.endswith("from_str")


def sync(ck, v):
    """the client is told to send whole texts"""
    from ..peg import subterms
    for t in subterms(v):
        if t[0] == "agg" and t[1].endswith("::TextDocumentSyncOptions"):
            oc, ch = t[4][0], t[4][1]
            ck.ob(oc == some(TRUE), "initialize:does not ask to be told of opened documents", show(oc))
            ck.ob(kind(ch) == 1, "initialize:does not ask for whole texts", show(ch))
            return
        if t[0] == "agg" and t[1].endswith("::TextDocumentSyncCapability") and t[3] == "Kind":
            ck.ob(kind(some(t[4][0])) == 1, "initialize:does not ask for whole texts", show(t))
            return
    ck.ob(False, "initialize:announces no text synchronisation", "")


def kind(o):
    if o[0] == "agg" and o[1] == absint.OPT and o[2] == 1 and o[4][0][0] == "agg":
        x = o[4][0][4][0]
        return x[2] if is_c(x) else None
    return None
