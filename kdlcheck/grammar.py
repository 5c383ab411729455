"""KDL 2.0 reference grammar (https://kdl.dev/spec/), written declaratively in the node
language of `peg.Lang`, and the filters that keep the comparison finite."""
from . import cset
from .peg import seq, lit, rep, DIG, HEX, OCT, SCALAR

NL1 = [0x0D, 0x0A, 0x85, 0x0B, 0x0C, 0x2028, 0x2029]
SPACE = cset.of([9, 0x20, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x202F, 0x205F, 0x3000])
NLC = cset.of(NL1)
DISALLOWED = cset.norm([(0, 8), (0x0E, 0x1F), (0x7F, 0x7F), (0x200E, 0x200F), (0x202A, 0x202E), (0x2066, 0x2069), (0xFEFF, 0xFEFF)])
ANY = cset.CHARS
IDC = cset.diff(cset.CHARS, cset.union(cset.union(SPACE, NLC), cset.union(DISALLOWED, cset.of([ord(c) for c in '\\/(){}[];"#=']))))
SIGN = cset.of([43, 45])
DOT = cset.single(46)


def s(cs):
    return ("set", cs)


def orr(*es):
    return es[0] if len(es) == 1 else ("or", tuple(es))


def star(e):
    return ("star", e)


def opt(e):
    return orr(("eps",), e)


def plus(e):
    return seq(e, star(e))


def no(e):
    return ("not", e)


def minus(a, b):
    return cset.diff(a, b)


newline = orr(lit("\r\n"), seq(lit("\r"), no(lit("\n"))), s(cset.of([x for x in NL1 if x != 13])))
anynl = s(NLC)


def comment(d):
    inner = [comment(d - 1)] if d > 1 else []
    # '/*' commented-block: the block ends at the first '*/' that is not part of a nested comment
    piece = orr(*(inner + [seq(no(orr(lit("*/"), lit("/*"))), s(ANY))]))
    return seq(lit("/*"), star(piece), lit("*/"))


def tail(cs):
    return rep(0, None, s(cs))


BARE_KEYWORDS = ["true", "false", "null", "inf", "nan"]
bare = seq(no(seq(orr(*[lit(k) for k in BARE_KEYWORDS]), no(s(IDC)))),
           orr(seq(s(minus(IDC, cset.union(cset.union(DIG, SIGN), DOT))), tail(IDC)),
               seq(s(SIGN), orr(no(s(IDC)), seq(s(minus(IDC, cset.union(DIG, DOT))), tail(IDC)))),
               seq(opt(s(SIGN)), s(DOT), orr(no(s(IDC)), seq(s(minus(IDC, DIG)), tail(IDC))))))

ws_escape = seq(lit("\\"), s(cset.union(SPACE, NLC)), rep(0, None, s(cset.union(SPACE, NLC))))
escape = seq(lit("\\"), orr(s(cset.of([ord(c) for c in '"\\bfnrts'])), "UNI"))


def uni():
    from . import peg
    # at most six digits, value a Unicode scalar value
    return ("and", seq(lit("u{"), rep(1, 6, s(HEX)), lit("}")), peg.SCALAR)


escape = seq(lit("\\"), orr(s(cset.of([ord(c) for c in '"\\bfnrts'])), uni()))
strchar = orr(escape, ws_escape, s(minus(ANY, cset.union(DISALLOWED, cset.of([34, 92])))))
strchar1 = orr(escape, ws_escape, s(minus(ANY, cset.union(cset.union(DISALLOWED, NLC), cset.of([34, 92])))))
quoted = seq(lit('"'), star(strchar1), lit('"'))


def raw(n):
    h = "#" * n
    return seq(lit(h + '"'), star(seq(no(lit('"' + h)), s(minus(ANY, cset.union(NLC, DISALLOWED))))), lit('"' + h))


raws = orr(*[raw(n) for n in (1, 2, 3)])
string = orr(bare, quoted, raws)

USC = cset.single(95)


def digs(cs):
    return seq(s(cs), star(s(cset.union(cs, USC))))


integer = digs(DIG)
sign = opt(s(SIGN))
exponent = seq(s(cset.of([69, 101])), sign, integer)
decimal_int = seq(sign, integer)
decimal_float = seq(sign, integer, orr(seq(lit("."), integer, opt(exponent)), exponent))
hexa = seq(sign, lit("0"), s(cset.of([120, 88])), digs(HEX))
octal = seq(sign, lit("0"), s(cset.of([111, 79])), digs(OCT))
binary = seq(sign, lit("0"), s(cset.of([98, 66])), digs(cset.of([48, 49])))
kw_bool = orr(lit("#true"), lit("#false"))
kw_null = lit("#null")
kw_num = orr(lit("#inf"), lit("#-inf"), lit("#nan"))


class G:
    """grammar with bounds: comment nesting c, children nesting d"""

    def __init__(self, c=3, d=2):
        self.c = comment(c)
        self.ws = orr(s(SPACE), self.c)
        wss = star(self.ws)
        self.slc = seq(lit("//"), star(s(minus(ANY, NLC))), orr(newline, ("eof",)))
        self.escline = seq(lit("\\"), wss, orr(self.slc, newline, ("eof",)))
        self.node_space = orr(seq(wss, self.escline, wss), plus(self.ws))
        self.nsp0 = star(orr(self.ws, self.escline))
        self.nsp1 = plus(orr(self.ws, self.escline))
        self.line_space = orr(self.ws, self.escline, newline, self.slc)
        self.lsp0 = star(self.line_space)
        self.type = seq(lit("("), self.nsp0, string, self.nsp0, lit(")"))
        self.number = orr(decimal_int, decimal_float, hexa, octal, binary, kw_num)
        self.atom = orr(string, self.number, kw_bool, kw_null)
        self.value = seq(opt(seq(self.type, self.nsp0)), self.atom)
        self.prop = seq(string, self.nsp0, lit("="), self.nsp0, self.value)
        self.entry = orr(self.prop, self.value)
        self.slashdash = seq(lit("/-"), self.lsp0)
        self.term = orr(self.slc, newline, lit(";"), ("eof",))
        # children
        ch = None
        for i in range(d):
            ch = seq(lit("{"), self.nodes(ch, final=True), lit("}"))
        self.children = ch
        sdnode = seq(self.lsp0, self.slashdash, self.base(ch), self.term)
        self.single_node = seq(star(sdnode), self.lsp0, self.base(ch), opt(self.term), self.lsp0)
        self.document = seq(opt(lit("\ufeff")), self.nodes(ch, final=True))

    def base(self, ch):
        # what follows the optional slashdash of a node
        e = [opt(seq(self.type, self.nsp0)), string,
             star(seq(self.nsp1, opt(self.slashdash), self.entry))]
        if ch is not None:
            sd = star(seq(self.nsp1, self.slashdash, ch))
            e += [sd, opt(seq(self.nsp0, ch, opt(seq(self.nsp0, self.slashdash, ch, sd))))]
        return seq(*e, self.nsp0)

    def nodes(self, ch, final):
        b = seq(opt(self.slashdash), self.base(ch))
        nodes = seq(star(seq(self.lsp0, b, self.term)), self.lsp0)
        return seq(nodes, opt(b))


