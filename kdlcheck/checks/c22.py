"""C22: the language server reports all diagnostics of the parser, and none for a document it accepts."""
import sys
from .. import lsp, absint, peg
from ..absint import is_c, show, OPT, RES, TRUE
from ..common import Anchor
from ..lsp import plain, norm, last
from . import c20


def report_items(v):
    """the diagnostics in a full report (None: not understood)"""
    if v[0] == "agg" and v[1] == RES and v[2] == 0:
        v = v[4][0]
    for t in peg.subterms(v):
        if t[0] == "agg" and t[1].endswith("::DocumentDiagnosticReport") and t[3] != "Full":
            return None
        if t[0] == "agg" and t[1].endswith("::FullDocumentDiagnosticReport"):
            return t[4][1]
    for t in peg.subterms(v):
        if t[0] == "app" and not t[2] and "default" in str(t[1]) and "FullDocumentDiagnosticReport" in str(t[1]):
            return ("seq", ())
        if t[0] in ("agg", "app") and str(t[1]).endswith(("RelatedFullDocumentDiagnosticReport as std::default::Default>::default", "FullDocumentDiagnosticReport as std::default::Default>::default")):
            return ("seq", ())
    return None


def cases(P):
    """(state, result, what is known: 'closed' | 'accepted' | 'refused' | None, parser's error) per path of a diagnostic request"""
    I, res, av = lsp.run(P, "diagnostic")
    out = []
    for s, v in res:
        ps = c20.parses(s, v)
        stored = [f for k, f in s.facts.items() if k[0] == "disc" and k[1][0] == "app" and str(k[1][1]).startswith("stored:get")]
        kind, e = None, None
        if ps:
            pt = ("app", ps[0][0], (ps[0][1],))
            d = s.facts.get(("disc", pt))
            kind = "accepted" if d == 0 else "refused" if d == 1 else None
            e = ("fld", pt, "Err", "0")
        elif 0 in stored:
            kind = "closed"
        out.append((s, v, kind, e))
    return I, out


def items_of(s, items, e):
    """[(diagnostic term, element, facts)] pushed per element of the parser's diagnostics; None: not one each, in order"""
    src = ("fld", e, None, "diagnostics")
    accs = []
    its = items[1] if items[0] == "seq" else [items]
    for x in its:
        if x[0] == "loopacc":
            accs.append(x)
        elif x[0] == "one":
            return None
        else:
            return None
    if len(accs) != 1:
        return None
    lp = [(i, t) for i, t in enumerate(s.trace) if t[0] == "loop" and t[1] == accs[0][1]]
    if len(lp) != 1:
        return None
    i, loop = lp[0]
    if ("end", src) not in s.trace[i:]:
        return None
    for ev, fs in loop[2]:
        if [x for x in ev if x[0] == "next" and x[1] == src] == []:
            return None
    out = []
    for d, fs in accs[0][2]:
        if len(d) != 1 or d[0][0] != "one":
            return None
        el = {x for x in peg.subterms(d[0]) if x[0] == "elem" and x[1] == src}
        for k, f in fs:
            if isinstance(k, tuple):
                el |= {x for x in peg.subterms(k) if x[0] == "elem" and x[1] == src}
        if len(el) != 1:
            return None
        out.append((d[0][1], el.pop(), fs))
    return out


NAMES = ["range", "severity", "code", "source", "message", "related_information", "tags"]


def parts(t, P=None):
    """fields of an LSP diagnostic term by name"""
    if t[0] == "app" and str(t[1]).endswith("Diagnostic::new"):
        return dict(zip(NAMES, t[2]))
    if t[0] == "app" and str(t[1]).endswith("Diagnostic::new_simple"):
        return {"range": t[2][0], "message": t[2][1], "severity": absint.none(), "code": absint.none()}
    if t[0] == "agg" and t[1].endswith("::Diagnostic"):
        fs = [f["n"] for f in P.adts[t[1]]["variants"][0]["f"]] if t[1] in P.adts else ["range", "severity", "code", "code_description", "source", "message", "related_information", "tags", "data"]
        d = dict(zip(fs, t[4]))
        return {k: absint.none() if isinstance(v, tuple) and v[0] == "fld" and "default" in str(v[1]) else v for k, v in d.items()}
    return None


def run(ck):
    sys.setrecursionlimit(100000)
    ck.explanation = ("A diagnostic request is run to completion on a symbolic document; for every path the report that is returned is matched with what the parser returned for the stored text: "
                      "nothing where there is no document or the parser accepts it, otherwise one entry per diagnostic, in order, with its message, severity and code.")
    ck.rule = "closed or accepted => empty full report; refused => items[i] is (span, severity, code, message) of diagnostics[i]"
    P = lsp.load()
    if lsp.handler(P, "diagnostic") is None:
        raise Anchor("handler diagnostic")
    I, cs = cases(P)
    ck.used(I)
    seen = set()
    for s, v, kind, e in cs:
        ck.count("paths")
        ck.ob(kind is not None, "diagnostic:a path that neither finds no document nor parses it", "")
        seen.add(kind)
        items = report_items(v)
        ck.ob(items is not None, "diagnostic:no full report (%s)" % kind, show(v)[:200])
        if items is None or kind is None:
            continue
        if kind != "refused":
            ck.ob(items == ("seq", ()), "diagnostic:reports something for a document that is %s" % kind, show(items)[:200])
            continue
        its = items_of(s, items, e)
        ck.ob(its is not None, "diagnostic:not one entry per diagnostic of the parser, in order", show(items)[:200])
        for t, el, fs in its or []:
            ck.count("entries")
            entry(ck, P, t, el, dict((k, f) for k, f in fs if isinstance(k, tuple)))
    for k in ("closed", "accepted", "refused"):
        ck.ob(k in seen, "diagnostic:no path where the document is %s" % k, "")


def entry(ck, P, t, el, fs):
    d = parts(t, P)
    ck.ob(d is not None, "diagnostic:entry not understood", show(t)[:200])
    if d is None:
        return
    m = plain(d["message"])
    ck.ob(m == el or m == ("fld", ("fld", el, None, "message"), "Some", "0"), "diagnostic:the message is not the diagnostic's", show(d["message"])[:200])
    sv = d["severity"]
    want = {0: {4, 3}, 1: {2}, 2: {1}}
    f1 = fs.get(("disc", ("app", "miette::Diagnostic::severity", (el,))))
    pay = ("fld", ("app", "miette::Diagnostic::severity", (el,)), "Some", "0")
    own = ("fld", el, None, "severity")
    k = fs.get(("disc", pay)) if ("disc", pay) in fs else fs.get(("disc", own))
    if isinstance(k, tuple) and k[0] == "not":
        rest = set(want) - set(k[1])
        k = rest.pop() if len(rest) == 1 else None
    if f1 == 0:
        ck.ob(sv == absint.none() or sval(sv) == 1, "diagnostic:a severity nobody gave", show(sv))
    else:
        ck.ob(k in want and sval(sv) in want[k], "diagnostic:severity not carried over", "%s for miette's %s" % (show(sv), ["Advice", "Warning", "Error"][k] if k in want else "?"))
    code = ("app", "miette::Diagnostic::code", (el,))
    f2 = fs.get(("disc", code))
    if f2 == 0:
        ck.ob(d["code"] == absint.none(), "diagnostic:a code nobody gave", show(d["code"])[:100])
    elif f2 == 1:
        c = d["code"]
        good = c[0] == "agg" and c[1] == OPT and c[2] == 1 and any(plain(x) == ("fld", code, "Some", "0") for x in peg.subterms(c))
        ck.ob(good, "diagnostic:code not carried over", show(c)[:100])
    else:
        ck.ob(d["code"] != absint.none(), "diagnostic:code not carried over", show(d["code"])[:100])


def sval(o):
    if o[0] == "agg" and o[1] == OPT and o[2] == 1:
        o = o[4][0]
        if o[0] == "agg" and is_c(o[4][0], "int"):
            return o[4][0][2]
    return None
