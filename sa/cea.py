"""Reference CEA-608 (line 21) tables and pop-on decoder, written from the
standard and independent of the code under analysis."""
from . import strs as S
from .interp import Fin


def par(b):
    """byte with odd parity as two hex digits"""
    return "%02x" % (b | (0x80 if bin(b).count("1") % 2 == 0 else 0))


def w(b1, b2):
    return par(b1) + par(b2)


BASIC = {i: chr(i) for i in range(0x20, 0x80)}
BASIC.update({0x2a: "\u00e1", 0x5c: "\u00e9", 0x5e: "\u00ed", 0x5f: "\u00f3", 0x60: "\u00fa", 0x7b: "\u00e7",
              0x7c: "\u00f7", 0x7d: "\u00d1", 0x7e: "\u00f1", 0x7f: "\u2588"})
SPECIAL = dict(enumerate("\u00ae\u00b0\u00bd\u00bf\u2122\u00a2\u00a3\u266a\u00e0 \u00e8\u00e2\u00ea\u00ee\u00f4\u00fb"))
EXT = {0x12: "\u00c1\u00c9\u00d3\u00da\u00dc\u00fc\u2018\u00a1*\u2019\u2014\u00a9\u2120\u2022\u201c\u201d"
             "\u00c0\u00c2\u00c7\u00c8\u00ca\u00cb\u00eb\u00ce\u00cf\u00ef\u00d4\u00d9\u00f9\u00db\u00ab\u00bb",
       0x13: "\u00c3\u00e3\u00cd\u00cc\u00ec\u00d2\u00f2\u00d5\u00f5{}\\^_\u00a6~"
             "\u00c4\u00e4\u00d6\u00f6\u00df\u00a5\u00a4|\u00c5\u00e5\u00d8\u00f8\u250c\u2510\u2514\u2518"}
BASICCODE = {par(b): c for b, c in BASIC.items()}
SPECCODE = {w(0x11, 0x30 + i): c for i, c in SPECIAL.items()}
EXTCODE = {w(h, 0x20 + i): c for h, s in EXT.items() for i, c in enumerate(s)}
ROWBASE = {1: (0x11, 0x40), 2: (0x11, 0x60), 3: (0x12, 0x40), 4: (0x12, 0x60), 5: (0x15, 0x40), 6: (0x15, 0x60),
           7: (0x16, 0x40), 8: (0x16, 0x60), 9: (0x17, 0x40), 10: (0x17, 0x60), 11: (0x10, 0x40),
           12: (0x13, 0x40), 13: (0x13, 0x60), 14: (0x14, 0x40), 15: (0x14, 0x60)}


def pac(row, col=0, italic=False, ul=False, color=None):
    """preamble address code"""
    h, b = ROWBASE[row]
    a = 0x0e if italic else (0x10 + col // 4 * 2 if color is None else color * 2)
    assert (not italic and color is None) or col == 0
    return w(h, b + a + (1 if ul else 0))


def tab(n):
    return w(0x17, 0x20 + n)


def mid(attr, ul=False):
    """0 white .. 6 magenta, 7 italics"""
    return w(0x11, 0x20 + attr * 2 + (1 if ul else 0))


RCL, BS, DER, RU2, RU3, RU4, RDC, EDM, CR, ENM, EOC = (
    w(0x14, x) for x in (0x20, 0x21, 0x24, 0x25, 0x26, 0x27, 0x29, 0x2c, 0x2d, 0x2e, 0x2f))
PUNCT = [par(ord(c)) for c in ".!?,"]
NONSPACE = [par(b) for b in range(0x21, 0x80)]
LETTERS = [c for c in NONSPACE if c not in PUNCT]
HEAD = "Scenarist_SCC V1.0\n\n"


class Sym:
    """symbolic characters: pieces for the code and for its glyph"""

    def __init__(self, I):
        self.I, self.n = I, 0

    def one(self, codes, table, name):
        self.n += 1
        name = "%s%d" % (name, self.n)
        code = self.I.finsym(name, codes)
        if len(set(codes)) == 1:
            return codes[0], table[codes[0]]
        return code, self.I.fin_str(Fin((name,), {(c,): table[c] for c in sorted(set(codes))}))

    def letter(self):
        return self.one(LETTERS, BASICCODE, "c")

    def any(self):
        return self.one(NONSPACE, BASICCODE, "b")

    def special(self):
        return self.one([c for c in SPECCODE if SPECCODE[c] != " "], SPECCODE, "s")

    def ext(self):
        return self.one(sorted(EXTCODE), EXTCODE, "x")


class Screen:
    """pop-on memory: rows of cells (glyph, italic); M = mid-row blank"""

    M = object()

    def __init__(self):
        self.nd, self.disp = {}, {}
        self.row, self.col, self.it = None, 0, False
        self.addr = {}

    def enm(self):
        self.nd, self.addr = {}, {}

    def pac(self, row, col, italic):
        self.row, self.col, self.it = row, col, italic
        self.addr[row] = col
        self.nd.setdefault(row, [])

    def tab(self, n):
        self.col += n
        if not self.nd[self.row]:
            self.addr[self.row] = self.col

    def put(self, ch):
        self.nd[self.row].append((ch, self.it))
        self.col += 1

    def mid(self, italic):
        self.put(Screen.M)
        self.it = italic

    def bs(self):
        if self.nd[self.row]:
            self.nd[self.row].pop()
            self.col -= 1

    def eoc(self):
        """flip; returns the displayed rows: [(row, col, cells)]"""
        out = [(r, self.addr[r], cells) for r, cells in sorted(self.nd.items())
               if any(c is not Screen.M and c != " " for c, _ in cells)]
        self.nd, self.addr = {}, {}
        return out


def groups(rows):
    out = []
    for r in rows:
        if out and out[-1][-1][0] == r[0] - 1:
            out[-1].append(r)
        else:
            out.append([r])
    return out


class Stream:
    """writes an SCC line and tracks the screen it produces.
    double: every control/special/extended code is sent twice;
    style "tab-pairs" sends PAC TO PAC TO instead of PAC PAC TO TO"""

    def __init__(self, I, double=False, pairs=False):
        self.I, self.sym = I, Sym(I)
        self.double, self.pairs = double, pairs
        self.words, self.scr, self.half = [], Screen(), None
        self.lines, self.screens = [], []
        self.stamp = None

    def ctl(self, code):
        self.flush()
        self.words += [code] * (2 if self.double else 1)

    def flush(self):
        if self.half is not None:
            self.words.append(self.half + "80")
            self.half = None

    def begin(self, stamp):
        self.flush()
        self.end()
        self.stamp = stamp
        return self

    def end(self):
        if self.stamp is not None:
            self.flush()
            self.lines.append((self.stamp, self.words))
        self.words, self.stamp = [], None

    def pac(self, row, col=0, italic=False, ul=False, color=None, tab_=0):
        self.flush()
        p, t = pac(row, col, italic, ul, color), tab(tab_) if tab_ else None
        if not self.double:
            self.words += [p] + ([t] if t else [])
        elif t and self.pairs:
            self.words += [p, t, p, t]
        else:
            self.words += [p, p] + ([t, t] if t else [])
        self.scr.pac(row, col, italic)
        if tab_:
            self.scr.tab(tab_)

    def ch(self, code, glyph):
        if self.half is None:
            self.half = code
        else:
            self.words.append(self.half + code)
            self.half = None
        self.scr.put(glyph)

    def letters(self, n=2):
        for _ in range(n):
            self.ch(*self.sym.letter())

    def any(self, n=2):
        for _ in range(n):
            self.ch(*self.sym.any())

    def space(self):
        self.ch("20", " ")

    def punct(self, c="."):
        self.flush()
        self.ch(par(ord(c)), c)

    def special(self, code=None):
        c, g = self.sym.special()
        self.ctl(c)
        self.scr.put(g)

    def ext(self, standin="letter"):
        """an extended character, which replaces a stand-in"""
        if standin == "letter":
            self.letters(1)
        elif standin == "any":
            self.any(1)
        elif standin == "special":
            self.special()
        elif standin == "space":
            self.space()
        c, g = self.sym.ext()
        self.ctl(c)
        self.scr.bs()
        self.scr.put(g)

    def bs(self):
        self.ctl(BS)
        self.scr.bs()

    def mid(self, attr, ul=False):
        self.ctl(mid(attr, ul))
        self.scr.mid(attr == 7)

    def enm(self):
        self.ctl(ENM)
        self.scr.enm()

    def rcl(self):
        self.ctl(RCL)

    def edm(self):
        self.ctl(EDM)

    def eoc(self):
        self.ctl(EOC)
        self.screens.append(self.scr.eoc())

    def document(self):
        self.end()
        return HEAD + "".join("%s\t%s\n\n" % (s, " ".join(ws)) for s, ws in self.lines)
