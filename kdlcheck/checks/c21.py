"""C21: positions are the line and UTF-16 column of the byte offset they stand for."""
import sys
from .. import lsp, absint, peg
from ..absint import show, none
from ..common import Anchor
from ..lsp import norm, app_, plain, clamp_of
from . import c22


def run(ck):
    sys.setrecursionlimit(100000)
    ck.explanation = ("A diagnostic request is run to completion on a symbolic document; the start and the end of every range it reports are terms over the stored text and the diagnostic's span, "
                      "which are brought into one vocabulary and compared with the position of the span's offset and of its end.")
    ck.rule = "position(b) = (line of c, utf16 units up to c - utf16 units up to the start of that line) with c = min(b, length); start = position(offset), end = position(offset + length)"
    P = lsp.load()
    if lsp.handler(P, "diagnostic") is None:
        raise Anchor("handler diagnostic")
    I, cs = c22.cases(P)
    ck.used(I)
    n = 0
    for s, v, kind, e in cs:
        ck.count("paths")
        items = c22.report_items(v)
        if kind != "refused" or items is None:
            continue
        its = c22.items_of(s, items, e)
        if its is None:
            # not one entry per diagnostic (C22's matter); positions of whatever is there
            ck.fail("entries not understood", show(items)[:200])
            continue
        for t, el, fs in its:
            n += 1
            entry(ck, P, t, el, [(k, f) for k, f in fs if isinstance(k, tuple)] + list(s.facts.items()))
    ck.ob(n, "no range is reported", "")
    enc(ck, P)


def entry(ck, P, t, el, facts):
    d = c22.parts(t, P)
    ck.ob(d is not None, "entry not understood", show(t)[:200])
    if d is None:
        return
    r = norm(d["range"])
    ck.ob(r[0] == "app" and r[1] == "Range" and len(r[2]) == 2, "range not understood", show(r)[:200])
    if not (r[0] == "app" and r[1] == "Range"):
        return
    span = ("fld", el, None, "span")
    off, ln = app_("offset", span), app_("len", span)
    for name, b, p in (("start", off, r[2][0]), ("end", app_("Add", *sorted((off, ln), key=repr)), r[2][1])):
        ck.count("positions")
        ok = p[0] == "app" and p[1] == "Position" and len(p[2]) == 2
        ck.ob(ok, "%s:position not understood" % name, show(p)[:200])
        if ok:
            position(ck, name, b, p[2][0], p[2][1], facts)


def rope_ok(r):
    r = plain(r)
    return r[0] == "fld" and r[2:] == ("Some", "0") and r[1][0] == "app" and str(r[1][1]).startswith("stored:get")


def position(ck, name, b, line, col, facts):
    good = line[0] == "app" and line[1] == "byte_to_line"
    ck.ob(good, "%s:the line is not that of the offset" % name, show(line)[:200])
    if not good:
        return
    rope, c = line[2]
    ck.ob(rope_ok(rope), "%s:not a position in the stored text" % name, show(rope)[:100])
    ck.ob(clamp_of(c, b, app_("len_bytes", rope), facts), "%s:not the offset, kept within the text" % name, show(c)[:200])
    u = lambda x: app_("char_to_utf16_cu", rope, x)
    want = app_("Sub", u(app_("byte_to_char", rope, c)), u(app_("line_to_char", rope, line)))
    ck.ob(col == want, "%s:the column does not count UTF-16 units from the start of the line" % name, show(col)[:300])


def enc(ck, P):
    """the server does not promise another unit than UTF-16"""
    r = lsp.run(P, "initialize")
    if r is None:
        raise Anchor("handler initialize")
    for s, v in r[1]:
        for t in peg.subterms(v):
            if t[0] == "agg" and t[1].endswith("::ServerCapabilities"):
                e = t[4][0]
                ck.ob(e == none() or e[0] == "fld" and "default" in str(e[1]) or "utf-16" in show(e).lower(), "initialize:promises another position encoding", show(e)[:100])
