"""C15: SCC lines longer than 32 characters are never returned silently."""
import itertools

from ..lib import *
from ..cea import Stream, RDC, CR, RU2, RU3, RU4, par

PROP = "C15"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of SCCReader.read on pop-on, roll-up and paint-on
programs whose rows have every length from 0 to 40 and contain symbolic
characters.  Captions share a start time because they belong
to one screen, because their lines carry the same timecode, or because the
offset moves all of them to zero, in every order of long and short rows.  The
line-length error has to be raised exactly when a transmitted row has more than
32 characters, and its message has to contain every such row."""
ASSUMPTIONS = ["rows do not end in blanks or mid-row codes, except in the scenarios that hold only the returned lines to the limit"]
MINIMUM = 150
ALPHA = "abcdefghijklmnopqrstuvw"


class Gen:
    def __init__(self, I, double):
        self.I, self.st = I, Stream(I, double, True)
        self.long, self.n, self.maxlen = [], 0, 0

    def row(self, n, kind="letters"):
        """n characters: two symbolic ones, then a letter of its own"""
        c = ALPHA[self.n % len(ALPHA)]
        self.n += 1
        text, put = [], self.st.ch
        for i in range(n):
            if i in (0, n - 1) and kind not in ("const", "lead", "trail"):
                code, g = self.st.sym.letter()
            elif kind == "words" and i % 5 == 4:
                code, g = "20", " "
            elif kind == "lead" and i < 9:
                code, g = "20", " "
            elif kind == "inner" and i in range(9, 15):
                code, g = "20", " "
            elif kind == "trail" and i > n - 4:
                code, g = "20", " "
            elif kind == "ext" and i == n - 2:
                self.st.ext()
                text.append(self.st.scr.nd[self.st.scr.row][-1][0])
                continue
            elif kind == "special" and i == n - 2:
                self.st.special()
                text.append(self.st.scr.nd[self.st.scr.row][-1][0])
                continue
            else:
                code, g = par(ord(c)), c
            put(code, g)
            text.append(g)
        self.st.flush()
        if kind == "mid":
            self.st.mid(7)
        if n > 32:
            self.long.append("".join(text))


def stamp(d, k, sep):
    """d: digit of the hour; k seconds"""
    return "0%s:%02d:%02d%s00" % (d, k // 60, k % 60, sep)


def canon(I, s):
    return "".join(I.canon(c) if S.is_atom(c) else c for c in s)


def verdict(I, j, g, text, exact=True, **kw):
    msg = []

    def go():
        try:
            return read(I, "SCCReader", text, **kw)
        except PyExc as e:
            msg.append(e.inst)
            raise
    out = []
    r = raised(I, lambda: out.append(go()))
    if exact and g.long:
        if not j.true("long-lines-rejected", r is not None and "CaptionLineLengthError" in r,
                      "%d rows of more than 32 characters: %s" % (len(g.long), r[0] if r else "captions are returned")):
            return
        t = canon(I, "".join(I.s(a) or "" for a in msg[0].attrs.get("args", ()) if isinstance(a, str)))
        for k, l in enumerate(g.long):
            j.true("offending-line-named", canon(I, l) in t, "over-long row %d of %d is not in the message" % (k + 1, len(g.long)))
        return
    if r is not None:
        if exact and not (g.n == 0 or "CaptionReadNoCaptions" in r):
            j.true("short-lines-accepted", False, "no row has more than 32 characters: %s" % r[0])
        elif exact is False and "CaptionLineLengthError" in r:
            j.true("error-needs-long-line", bool(g.long), "no row has more than 32 characters")
        return
    cs = out[0]
    for c in caps(I, cs, "en-US"):
        for l in visible(I, c):
            j.true("returned-lines", fixed(l) is not None and fixed(l) <= 32, "a returned line has %s characters" % fixed(l))


def fixed(l):
    n = 0
    for c in l:
        if S.is_atom(c):
            a = S.A(c)
            if a.minlen != a.maxlen:
                return None
            n += a.maxlen
        else:
            n += 1
    return n


def shared(I, j, mode, caps_, double, sep, same, offset=None, kind="letters", exact=True, end=True, **kw):
    """caps_: tuples of row lengths; same: the lines carry equal timecodes"""
    g = Gen(I, double)
    st = g.st
    d = "1"
    # equal number of words before the moment the caption starts
    for k, rows in enumerate(caps_):
        st.begin(stamp(d, 10 if same else 10 + 7 * k, sep))
        if mode == "pop":
            st.enm()
            st.rcl()
            for i, n in enumerate(rows):
                st.pac(2 + (i if kw.get("adjacent") else 3 * i))
                g.row(n, kind)
            want = 200 if same else 0
            while len(st.words) < want:
                st.words.append("8080")
            st.eoc()
        elif mode == "paint":
            st.ctl(RDC)
            for i, n in enumerate(rows):
                st.pac(2 + (i if kw.get("adjacent") else 3 * i))
                g.row(n, kind)
        else:
            for i, n in enumerate(rows):
                st.ctl({2: RU2, 3: RU3, 4: RU4}[int(mode)])
                st.ctl(CR)
                st.pac(15)
                g.row(n, kind)
    if end:
        st.begin(stamp(d, 58, sep))
        st.edm()
    a = {k: v for k, v in kw.items() if k == "simulate_roll_up"}
    if offset is not None:
        a["offset"] = offset
    verdict(I, j, g, st.document(), exact, **a)


def rollup(I, j, depth, rows, double, sep, simulate, kind="letters", one=False):
    g = Gen(I, double)
    st = g.st
    d = "1"
    for k, n in enumerate(rows):
        if not one or k == 0:
            st.begin(stamp(d, 10 + 3 * k, sep))
        if not one or k == 0:
            st.ctl({2: RU2, 3: RU3, 4: RU4}[depth])
        st.ctl(CR)
        st.pac(15)
        g.row(n, kind)
    # the simulation joins rows with a blank, which makes longer lines
    verdict(I, j, g, st.document(), None if simulate and one else True, simulate_roll_up=simulate)


def mixed(I, j, modes, lens, same, double):
    """captions of several modes in one file"""
    g = Gen(I, double)
    st = g.st
    d = "1"
    for k, (m, n) in enumerate(zip(modes, lens)):
        st.begin(stamp(d, 10 if same else 10 + 7 * k, ";"))
        if m == "p":
            st.rcl()
            st.enm()
            st.pac(12)
            g.row(n)
            st.eoc()
            st.words += ["8080"] * 8
            st.edm()
        elif m == "d":
            st.ctl(RDC)
            st.pac(12)
            g.row(n)
        else:
            st.ctl({"2": RU2, "3": RU3, "4": RU4}[m])
            st.ctl(CR)
            st.pac(15)
            g.row(n)
    verdict(I, j, g, st.document())


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, f, *a, **kw):
        out.append(Scenario(name, lambda I, j: f(I, j, *a, **kw), 60))
    MODE = ("pop", "paint", "2", "3", "4")
    # every length, one caption
    for m in MODE:
        for n in range(0, 41) if thorough or m in ("pop", "paint") else (0, 1, 2, 31, 32, 33, 34, 39, 40):
            add("length/%s/%d" % (m, n), shared, m, ((n,),), n % 2 == 1, ";:"[n % 3 % 2], False)
    for m in MODE[:3]:
        for kind in ("words", "ext", "special", "const"):
            for n in (30, 31, 32, 33, 34, 40):
                add("kind/%s/%s/%d" % (m, kind, n), shared, m, ((n,),), n % 2 == 0, ";", False, kind=kind)
        for n in (30, 31, 32, 33):
            add("italic/%s/%d" % (m, n), shared, m, ((n,),), False, ":", False, kind="mid", exact=n != 32)
        for n in (30, 31, 32, 33, 34, 36, 40):
            add("lead/%s/%d" % (m, n), shared, m, ((n,),), n % 2 == 0, ";", False, kind="lead")
            add("lead-two/%s/%d" % (m, n), shared, m, ((5, n), (n, 7)), n % 2 == 0, ":", False, kind="lead", adjacent=True)
            add("inner/%s/%d" % (m, n), shared, m, ((n,),), n % 2 == 1, ";", False, kind="inner")
            add("trail/%s/%d" % (m, n), shared, m, ((n,),), n % 2 == 1, ";", False, kind="trail", exact=False)
            add("trail-two/%s/%d" % (m, n), shared, m, ((n, 5), (6, n)), n % 2 == 1, ";", False, kind="trail", exact=False)
    # captions that share their start
    L = (5, 33, 40)
    for m in MODE:
        for k in (2, 3, 4):
            for t in itertools.product(L[:2] if k > 2 or m not in ("pop", "paint") else L, repeat=k):
                if k == 4 and not thorough and sum(x > 32 for x in t) != 1:
                    continue
                nm = "-".join(map(str, t))
                add("separate/%s/%s" % (m, nm), shared, m, tuple((x,) for x in t), False, ";", False)
                add("same/%s/%s" % (m, nm), shared, m, tuple((x,) for x in t), k == 2, ":", True)
                add("screen/%s/%s" % (m, nm), shared, m, (t,), k == 2, ";", False)
                add("screens/%s/%s" % (m, nm), shared, m, (t, (4,), t[::-1]), False, ";", False)
                add("zero/%s/%s" % (m, nm), shared, m, tuple((x,) for x in t), False, ";", False, 50000)
                add("open/%s/%s" % (m, nm), shared, m, tuple((x,) for x in t), k == 3, ":", False, end=False)
                if m == "paint":
                    add("adjacent/%s" % nm, shared, m, (t,), False, ";", False, adjacent=True)
    # blocks of adjacent rows
    for k in range(2, 13):
        for i in sorted({0, 1, k // 2, k - 1}):
            for m in ("pop", "paint"):
                add("block/%s/%d-%d" % (m, k, i), shared, m, (tuple(33 if i == x else 3 for x in range(k)),), k % 2 == 0, ";",
                    False, adjacent=True)
    # rows rolling up, with and without the rows above
    for depth in (2, 3, 4):
        for sim in (False, True):
            for t in itertools.product((6, 32, 33), repeat=3):
                nm = "-".join(map(str, t))
                add("roll/%d/%s/%s" % (depth, nm, sim), rollup, depth, t, depth == 3, ";", sim)
                if thorough or depth == 2:
                    add("roll-one/%d/%s/%s" % (depth, nm, sim), rollup, depth, t, depth == 3, ";", sim, one=True)
    for ms in itertools.product("pd3", repeat=2):
        for t in itertools.product((6, 33), repeat=2):
            for same in (False, True):
                add("mixed/%s/%s/%s" % ("".join(ms), "-".join(map(str, t)), same), mixed, ms, t, same, False)
    for ms in ("pdp", "d3p", "p2d", "3p3", "dpd", "4dp"):
        for t in itertools.product((6, 33), repeat=3):
            add("mixed/%s/%s" % (ms, "-".join(map(str, t))), mixed, ms, t, len(out) % 2 == 0, False)
    return out
