"""C16: roll-up and paint-on SCC text is conserved and ordered."""
import itertools

from ..lib import *
from ..cea import Stream, Screen, RDC, CR, RU2, RU3, RU4
from .c05 import actual_lines, cmp_row, runs
from .c06 import Line, close

PROP = "C16"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of SCCReader.read on roll-up (2-4 rows) and paint-on
programs over one to eight lines with symbolic characters, symbolic timecode
digits and symbolic gaps between the lines.  The glyphs of all returned captions
in order are compared with the transmitted rows (each row inside one line of one
caption); start and end are compared as linear forms: captions in order, start
before end, each caption (or group of captions of one screen) ends when the next
begins."""
ASSUMPTIONS = ["text of a row is not addressed again later, a preamble in roll-up mode follows a mode code or a carriage return",
               "lines do not overlap in time", "a mid-row code shows as a blank that may be omitted at the ends of a row, next to a space and before . ! ? ,",
               "equality of times up to one microsecond"]
MINIMUM = 150
RU = {"2": RU2, "3": RU3, "4": RU4}


class Prog:
    def __init__(self, I, double):
        self.st = Stream(I, double, True)
        self.rows, self.row = [], None
        self.roll = False

    def new(self):
        self.close()
        self.st.scr = Screen()
        self.st.scr.pac(15, 0, False)

    def close(self):
        cells = self.st.scr.nd.get(self.st.scr.row) if self.st.scr.row else None
        if cells and any(c is not Screen.M and c != " " for c, _ in cells):
            self.rows.append(cells)
        self.st.scr = Screen()
        self.st.scr.pac(15, 0, False)

    def pac(self, row, **kw):
        self.close()
        self.st.pac(row, **kw)

    def run(self, prog, lines):
        st = self.st
        self.new()
        for ln, toks in zip(lines, prog.split("|")):
            st.begin(ln.text)
            for t in toks:
                if t in RU:
                    st.ctl(RU[t])
                    self.close()
                elif t == "D":
                    st.ctl(RDC)
                    self.close()
                elif t == "c":
                    st.ctl(CR)
                    self.close()
                elif t == "P":
                    self.pac(15)
                elif t == "Q":
                    self.pac(14, col=4, tab_=2)
                elif t == "T":
                    self.pac(1, col=8)
                elif t == "U":
                    self.pac(2, tab_=1)
                elif t == "V":
                    self.pac(3)
                elif t == "Y":
                    self.pac(9, italic=True)
                elif t == "J":
                    self.pac(15, italic=True)
                elif t == "K":
                    self.pac(15, color=3)
                elif t == "w":
                    st.letters(4)
                elif t == "o":
                    st.letters(1)
                    st.flush()
                elif t == "a":
                    st.any(2)
                elif t == "_":
                    st.space()
                elif t == ".":
                    st.punct()
                elif t == "s":
                    st.special()
                elif t == "x":
                    st.ext()
                elif t == "b":
                    st.letters(1)
                    st.bs()
                elif t == "m":
                    st.mid(7)
                elif t == "M":
                    st.mid(0)
                elif t == "C":
                    st.edm()
                elif t == "E":
                    st.ctl(ENM)
                elif t == "n":
                    st.flush()
                    st.words.append("8080")
                elif t == "N":
                    st.flush()
                    st.words += ["8080"] * 6
                else:
                    raise AssertionError(t)
            st.flush()
            ln.words = len(st.words)
        self.close()
        return st.document()


class Fixed:
    """a line with a constant timecode"""

    def __init__(self, text):
        self.text = text


def run(I, j, prog, double, sep, gap=0, offset=None, frames="fixed", base=None):
    n = prog.count("|") + 1
    if frames == "fixed":
        lines = [Fixed("00:00:%02d%s00" % (5 * k, sep)) for k in range(n)] if base == 0 else [Fixed("%02d:3%d:1%d%s0%d" % (k + 1, k % 7, (3 * k) % 10, sep[k % len(sep)], (7 * k) % 9)) for k in range(n)]
    else:
        lines = [Line(k, sep[k % len(sep)], frames, None if n == 1 else k + 1) for k in range(n)]
    p = Prog(I, double)
    text = p.run(prog, lines)
    args = {}
    if offset is not None:
        args["offset"] = offset
    cs = read(I, "SCCReader", text, **args)
    got = caps(I, cs, "en-US")
    content(I, j, got, p.rows)
    timing(I, j, got)


def content(I, j, got, rows):
    lines = []
    for k, c in enumerate(got):
        ls = actual_lines(I, j, c)
        if ls is None:
            return
        lines += [(k, l) for l in ls if any(not (x != Screen.M and x.isspace()) for x, _ in l)]
    if len(lines) == len(rows):
        for i, ((k, l), r) in enumerate(zip(lines, rows)):
            cmp_row(I, j, l, r, "row %d" % (i + 1))
        return
    # several rows in a line: every row has to be inside one of them
    have = [x[2] for _, l in lines for x in runs(I, l)]
    want = [x[2] for r in rows for x in runs(I, r)]
    if have != want:
        j.streq("text-conserved", "".join(have), "".join(want), "text of all captions without blanks")
        return
    at = [i for i, (_, l) in enumerate(lines) for x in runs(I, l)]
    i = 0
    for n, r in enumerate(rows):
        m = len(runs(I, r))
        j.true("row-together", len(set(at[i:i + m])) == 1, "row %d is spread over several lines" % (n + 1))
        i += m


def timing(I, j, got):
    ts = []
    for k, c in enumerate(got):
        s, e = j.num(I.getattr(c, "start")), j.num(I.getattr(c, "end"))
        if s is None or e is None:
            return j.fail("times", "caption %d has no times" % (k + 1))
        ts.append((s.p, e.p))
        j.ge("start-end", e.p - s.p - C(1), "caption %d: end - start" % (k + 1))
    for k in range(1, len(ts)):
        (a, b), (c, d) = ts[k - 1], ts[k]
        if prove_eq(I.path.facts, a - c):
            close(j, "same-screen", b, d, "captions that start together end at %s and %s")
        else:
            j.ge("order", c - a - C(1), "caption %d starts after the one before" % (k + 1))
            close(j, "chain", b, c, "caption " + str(k) + " ends at %s, the next one begins at %s")


MODES = (("single", False), ("double", True))


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(prog, modes=MODES, seps=(";", ":"), tag="", **kw):
        for mn, m in modes:
            for sp in seps:
                nm = {";": "df", ":": "ndf"}.get(sp, "mixed")
                out.append(Scenario("%s%s/%s/%s" % (tag, prog, mn, nm), lambda I, j, p=prog, m=m, sp=sp, kw=kw:
                                    run(I, j, p, m, sp, **kw), 100))
    TXT = ("w", "o", "wo", "a", "w_w", "s", "x", "wsx", "bw", "wmw", "mwMo", "w.", "wm.o", "owo", "wx.", "ww__w")
    k = 0
    for d in "234":
        for t in TXT:
            k += 1
            o = MODES[k % 2:][:1]
            sp = (";:"[k % 3 % 2],)
            add("%scP%s|%scP%s" % (d, t, d, t), o, sp)
            add("%scJ%s|cP%s|cK%sc" % (d, t, t, t), o, sp)
        # usual forms of a roll-up line
        for a in ("RcPw", "RPw", "RPwc", "PRcw", "RcPwn", "RcQw", "RcTwo", "RncnPw", "RcPwNc", "RcPwcPo", "RcPwcPocPw", "RPwcPwc",
                  "RCcPw", "CRcPw", "ERcPw", "RcPwC", "RcEPw", "RcPEw", "RRcPw"):
            for b in ("RcPw", "cPw", "RPw", "RPwc", "c", "cPwcQo", "R", "C", "EC", "RcPwC", "RcEw", "N"):
                k += 1
                p = (a + "|" + b).replace("R", d)
                add(p, MODES[k % 2:][:1], (";:"[k % 3 % 2],))
        for n in range(1, 9):
            o = MODES[n % 2:][:1]
            add("|".join([d + "cPw"] * n), tag="lines/")
            add("|".join([d + "cPw"] + ["cPw"] * (n - 1)), o, (";",), tag="lines/")
            add("|".join([d + "Pwc"] * n), o, (":",), tag="lines/")
            add(d + "cPw" * n, o, (";",), tag="one/")
            add(d + "Pwc" * n, o, (":",), tag="one/")
            add(d + "cPw" * n + "|" + d + "cPw" * n, o, (":",), tag="two/")
        add("%scPw|2cPw|3cPw|4cPw|%sPw" % (d, d), tag="depths/")
        add("%scPw|2Pwc|3Pwc|4Pwc|%sPwc" % (d, d), tag="depths/")
        add("%scPw|%scPw|%scPw" % (d, d, d), seps=(";:", ":;"), tag="mix/")
    PTXT = ("PA", "PAC", "TA", "TAUA", "TAUAVA", "TAPA", "PATA", "TAVA", "QAPA", "PAQA", "YAPA", "TAUAPA", "JA", "KA", "PAE",
            "TAEPA", "PA" + "n", "NPA")
    for t in PTXT:
        for x in ("w", "wo", "ox", "s", "w_w", "wmo", "a"):
            k += 1
            u = "D" + t.replace("A", x)
            for v in ("", "|Dw", "|DPw", "|" + u, "|Po", "|" + u + "|" + u):
                if x != "w" and v in ("|Dw", "|Po") and not thorough:
                    continue
                if v == "|Po" and "P" in t:
                    v = "|Vo"
                if v == "|Vo" and "V" in t:
                    continue
                if x == "a" and v.count("|") > 1:
                    continue
                k += 1
                add(u + v, MODES if x == "w" else MODES[k % 2:][:1], (";:"[k % 3 % 2],))
    for p in ("EDPw|EDPw", "CDPw|CDPw", "DPw|C|DPw", "DPw|E|DPw|C", "DPwDPw", "DPwDTwDQw|DPw", "DPwD|DPw", "DDPw|DDPw", "DPwC|DPwC",
              "DCPw|DCPw", "CEDPw|CEDPw", "DPwN|DPw", "DPw|n|DPw", "DPw|DPwN|DPw|C"):
        add(p, tag="paint/")
    # a caption that begins at the time zero
    for p in ("DPw", "DPw|DPw", "DTwUo", "DTwPo|DPw", "2cPw", "2cPw|cPw", "3Pwc", "2cPwcPw", "DPwDPw"):
        add(p, tag="zero/", base=0)
    for n in range(3, 9):
        add("|".join(["DPw"] * n), MODES[n % 2:][:1], tag="paint/")
        add("|".join(["DTwUo"] * n), MODES[n % 2:][:1], tag="paint/")
    # between the two modes
    for p in ("2cPw|DPw|2cPw|DPw", "DPw|3cPw", "4cPw|4cPwDTw|4cPw", "DPw2cPw|cPw", "DTwUw|2cPw|cPw|DTwUw"):
        add(p, tag="switch/")
    # symbolic times
    for d in "234":
        for n in (1, 2):
            o = MODES[n % 2:][:1]
            add("|".join([d + "cPw"] * n), o, frames="1", tag="time/")
            add("|".join([d + "cPw"] + ["cPw"] * (n - 1)), o, frames="1", tag="time/")
            add("|".join([d + "cPwC"] + ["CcPw"] * (n - 1)), o, frames="1", tag="time/")
    for p in ("DPw", "DPw|DPw", "DPw|C|DPw", "DTwUo|DPw", "DPw|2cPw", "2cPw|DPw", "DPwC|DPwC", "DTwPw|DTwPw"):
        add(p, frames="1", tag="time/")
    if thorough:
        for d in "24":
            for t in itertools.product(("%scPw" % d, "cPo", "%sPwc" % d, "c", "C", "DPw", "DTwUw", "E"), repeat=4):
                if t[0][0] in "24D":
                    k += 1
                    add("|".join(t), MODES[k % 2:][:1], (";:"[k % 3 % 2],), tag="grid/")
    return out


ENM = "94ae"
