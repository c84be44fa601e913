"""C05: pop-on SCC decoding reproduces the CEA-608 screen."""
import itertools
import re

from ..lib import *
from .. import cea
from ..cea import Stream, Screen, groups

PROP = "C05"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of SCCReader.read on pop-on streams whose skeleton of
control codes is enumerated (every preamble address x tab offset x single /
doubled / paired transmission; every ordered pair of preambles inside one
caption and across two captions; every sequence of content tokens up to a
length) while the characters are symbolic: each byte ranges over the finite set
of all basic / special / extended character codes.  The captions are compared
with an independent CEA-608 decoder: glyphs and their italic flag per row,
grouping of rows into captions, position as the linear form of (row, column),
balanced style nodes."""
ASSUMPTIONS = ["one preamble per row, rows sent top to bottom, no more than 32 columns",
               "a mid-row code shows as a blank: its space may be omitted next to a space, before one of . ! ? , and at either end of a row",
               "non-displayed memory is erased before each caption",
               "doubled preambles with a tab offset are sent PAC TO PAC TO", "no backspace directly after a mid-row code"]
MINIMUM = 3000
T0 = "00:00:01:00"
PUNCT = set(".!?,")


def actual_lines(I, j, cap):
    """rows of (glyph, italic); checks the balance of style nodes"""
    lines, it = [[]], False
    for n in I.iterate(I.getattr(cap, "nodes")):
        t = node_type(I, n)
        if t == "TEXT":
            c = I.getattr(n, "content")
            s = I.s(c)
            for ch in (s if s is not None else ""):
                lines[-1].append((I.canon(ch), it))
        elif t == "BREAK":
            lines.append([])
        else:
            on = I.truth(I.getattr(n, "start"))
            if not j.true("style-balance", on != it, "style nodes are not alternately opened and closed"):
                return None
            it = on
    j.true("style-balance", not it, "the italics of a caption are not closed")
    return lines


def sp(c):
    return c is not Screen.M and len(c) == 1 and not S.is_atom(c) and c.isspace()


def strip(cells):
    i, k = 0, len(cells)
    while i < k and (cells[i][0] is Screen.M or sp(cells[i][0])):
        i += 1
    while k > i and (cells[k - 1][0] is Screen.M or sp(cells[k - 1][0])):
        k -= 1
    return cells[i:k]


def runs(I, cells):
    """[(blanks, midrow blanks, glyph, italic)]"""
    out, n, m = [], 0, 0
    for c, it in strip(cells):
        if c is Screen.M:
            m += 1
        elif sp(c):
            n += 1
        else:
            out.append((n, m, I.canon(c), it))
            n = m = 0
    return out


def cmp_row(I, j, got, want, what):
    g, w = runs(I, got), runs(I, want)
    show = lambda r: "".join(" " * (n + m) + S.show(c) for n, m, c, _ in r)
    if [x[2] for x in g] != [x[2] for x in w]:
        return j.streq("row-text", "".join(x[2] for x in g), "".join(x[2] for x in w), what + " without blanks")
    j.true("row-text", True, what)
    for k, (a, b) in enumerate(zip(g, w)):
        lo = b[0] if not b[1] or b[2] in PUNCT else max(b[0], 1)
        j.true("row-blanks", lo <= a[0] <= b[0] + b[1], "%s has %d blanks before its %d. glyph (%d are shown): %s" % (
            what, a[0], k + 1, b[0] + b[1], show(g)))
    j.true("italics", [x[3] for x in g] == [x[3] for x in w], "%s has italics %s, sent %s" % (
        what, "".join("i" if x[3] else "-" for x in g), "".join("i" if x[3] else "-" for x in w)))


def origin(I, j, lay, row, col, what):
    if lay is None or I.getattr(lay, "origin") is None:
        return j.fail("position", "%s has no position" % what)
    o = I.getattr(lay, "origin")
    for a, p in (("x", F(80 * col, 32) + 10), ("y", F(90 * (row - 1), 15) + 5)):
        s = I.getattr(o, a)
        j.true("position-unit", I.truth(I.eq(I.getattr(s, "unit"), unit(I, "%"))), what + " unit")
        v = j.num(I.getattr(s, "value"))
        if v is None:
            j.fail("position", "%s has no number as position" % what)
        else:
            d = v.p - C(p)
            j.ge("position", C(F(1, 10 ** 6)) - d, "%s: %s is %s, row %d column %d is %s" % (what, a, v.p, row, col, p))
            j.ge("position", d + C(F(1, 10 ** 6)), "%s: %s is %s, row %d column %d is %s" % (what, a, v.p, row, col, p))


def compare(I, j, cs, screens):
    want = [(k, g) for k, rows in enumerate(screens) for g in groups(rows)]
    got = caps(I, cs, "en-US")
    if not j.true("captions", len(got) == len(want), "%d captions returned, the screens show %d groups of rows" % (
            len(got), len(want))):
        return
    prev = {}
    for n, (cap, (k, g)) in enumerate(zip(got, want)):
        what = "caption %d" % (n + 1)
        lines = actual_lines(I, j, cap)
        if lines is None:
            continue
        st, en = I.getattr(cap, "start"), I.getattr(cap, "end")
        if k in prev:
            j.numeq("group-times", st, prev[k][0], "start of %s, same screen as the one before" % what)
            j.numeq("group-times", en, prev[k][1], "end of %s, same screen as the one before" % what)
        else:
            prev[k] = (j.num(st).p, j.num(en).p)
        if not j.true("rows", len(lines) == len(g), "%s has %d lines, %d rows are shown" % (what, len(lines), len(g))):
            continue
        for i, (l, (r, c, cells)) in enumerate(zip(lines, g)):
            cmp_row(I, j, l, cells, "%s line %d" % (what, i + 1))
        origin(I, j, I.getattr(cap, "layout_info"), g[0][0], g[0][1], what)
        for nd in I.iterate(I.getattr(cap, "nodes")):
            if node_type(I, nd) == "TEXT":
                origin(I, j, I.getattr(nd, "layout_info"), g[0][0], g[0][1], what + " text node")


def run(I, j, build, double, pairs):
    st = Stream(I, double, pairs)
    build(st)
    cs = read(I, "SCCReader", st.document())
    compare(I, j, cs, st.screens)


MODES = {"single": (False, False), "double": (True, True)}


def start(st, k=0):
    st.begin("00:00:%02d:00" % (1 + 8 * k))
    st.enm()
    st.rcl()


def attrs():
    for c in range(0, 32, 4):
        for u in (False, True):
            yield "col%d%s" % (c, "u" if u else ""), dict(col=c, ul=u)
    for u in (False, True):
        yield "it%s" % ("u" if u else ""), dict(italic=True, ul=u)
        for k in range(7):
            yield "clr%d%s" % (k, "u" if u else ""), dict(color=k, ul=u)


def b_address(st, row, at, t):
    start(st)
    st.pac(row, tab_=t, **at)
    st.letters(3)
    st.eoc()
    st.begin("00:00:05:00").edm()


def b_afterit(st, row, at):
    """italic row followed by a row with the given preamble"""
    start(st)
    st.pac(row - 1, italic=True)
    st.letters(3)
    st.pac(row, **at)
    st.letters(3)
    st.eoc()


def b_any(st, how):
    start(st)
    st.pac(14, col=4)
    if how == "pair":
        st.any(2)
    elif how == "half":
        st.any(1)
    elif how == "special":
        st.special()
    elif how == "ext":
        st.ext()
    elif how in ("ext-any", "ext-special", "ext-space"):
        st.letters(1)
        st.ext(how[4:])
    elif how in ("ext-any-2", "ext-special-2"):
        st.ext(how[4:-2])
        st.ext(how[4:-2])
    elif how == "ext-first":
        st.ext(None)
    elif how == "ext-mid":
        st.letters(2)
        st.ext()
        st.letters(1)
    elif how == "two-special":
        st.special()
        st.letters(1)
        st.special()
    elif how == "same-special":
        c, g = st.sym.special()
        for _ in range(2):
            st.ctl(c)
            st.scr.put(g)
            st.letters(2)
    st.letters(1)
    st.eoc()


def token(st, t):
    if t == "w":
        st.letters(2)
    elif t == "h":
        st.flush()
        st.letters(1)
        st.flush()
    elif t == "_":
        st.space()
    elif t == ".":
        st.punct()
    elif t == "s":
        st.special()
    elif t == "x":
        st.ext()
    elif t == "b":
        st.bs()
    elif t == "I":
        st.mid(7)
    elif t == "U":
        st.mid(7, True)
    elif t == "P":
        st.mid(0)
    elif t == "C":
        st.mid(3)
    elif t == "L":
        st.mid(0, True)
    elif t == "n":          # next row
        st.pac(st.scr.row + 1)
    elif t == "i":          # next row, italic
        st.pac(st.scr.row + 1, italic=True)
    elif t == "t":          # next row, indented and tabbed
        st.pac(st.scr.row + 1, col=4, tab_=2)
    elif t == "g":          # a row further down
        st.pac(st.scr.row + 3, col=8)
    elif t == "j":
        st.pac(st.scr.row + 2, italic=True)


def b_tokens(st, toks, it, row=2):
    start(st)
    st.pac(row, italic=it)
    st.letters(2)
    for t in toks:
        token(st, t)
    st.eoc()


def b_screens(st, caps_, edm, enm_first=True):
    """several captions: each a list of (row, dict) rows"""
    for k, rows in enumerate(caps_):
        st.begin("00:00:%02d:00" % (1 + 4 * k))
        if enm_first:
            st.enm()
            st.rcl()
        else:
            st.rcl()
            st.enm()
        for r, a in rows:
            st.pac(r, **a)
            st.letters(3)
        if edm == "before":
            st.edm()
        st.eoc()
        if edm == "after":
            st.begin("00:00:%02d:00" % (3 + 4 * k)).edm()


def b_blank(st, kind):
    """rows and captions without visible text"""
    start(st)
    st.pac(13)
    if kind == "lead-eoc":
        st.eoc()
        start(st, 1)
        st.pac(14)
    elif kind == "mid-only":
        st.mid(7)
    elif kind == "bs-all":
        st.letters(2)
        st.bs()
        st.bs()
    elif kind == "bs-first-next":
        st.letters(2)
        st.pac(14)
        st.bs()
    elif kind == "bs-first-far":
        st.letters(2)
        st.pac(15)
        st.bs()
    elif kind == "bs-row-two":
        st.letters(2)
        st.pac(14)
        st.letters(2)
        st.bs()
        st.bs()
    st.letters(3)
    st.eoc()


POS = [(13, {}), (14, {}), (15, {}), (14, dict(col=4)), (15, dict(col=4)), (14, dict(col=4, tab_=1)),
       (15, dict(tab_=2)), (14, dict(italic=True)), (15, dict(italic=True)), (15, dict(col=28, tab_=3)), (12, dict(col=8)),
       (1, dict(tab_=3)), (13, dict(tab_=1))]


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, b, *a, modes=MODES, **k):
        for m in modes:
            out.append(Scenario("%s/%s" % (name, m), lambda I, j, b=b, a=a, m=m: run(I, j, lambda st: b(st, *a), *MODES[m]),
                                k.get("budget", 300)))
    for row in range(1, 16):
        for an, at in attrs():
            add("addr/%d/%s/0" % (row, an), b_address, row, at, 0, modes=["single"])
            if at.get("col") is not None and not at["ul"]:
                for t in (1, 2, 3):
                    if thorough or row in (1, 7, 11, 15) or (row + t + at["col"] // 4) % 3 == 0:
                        add("addr/%d/%s/%d" % (row, an, t), b_address, row, at, t)
            if row > 1:
                add("after-italics/%d/%s" % (row, an), b_afterit, row, at,
                    modes=["single", "double"] if thorough or row == 11 else ["single"])
    for how in ("pair", "half", "special", "ext", "ext-any", "ext-special", "ext-space", "ext-any-2", "ext-special-2",
                "ext-first", "ext-mid", "two-special", "same-special"):
        add("chars/" + how, b_any, how, modes=["single", "double"])
    alpha = "whsx_.bIPC"
    for n in (1, 2, 3, 4):
        for toks in itertools.product(alpha, repeat=n):
            t = "".join(toks)
            if n == 4 and not thorough and sum((i + 1) * ord(c) for i, c in enumerate(t)) % 23:
                continue
            if "bbb" in t or t.count("b") > 2 or re.search("[ICPU][.]?b", t):
                continue
            if "bb" in t or "ss" in t or "xx" in t:
                modes = ["double"]
            else:
                modes = ["single", "double"] if thorough or n < 3 else [["single", "double"][len(out) % 2]]
            add("tokens/%s" % t, b_tokens, toks + ("w",), False, modes=modes)
            if n < 3 or thorough:
                add("tokens-it/%s" % t, b_tokens, toks + ("w",), True, modes=modes)
                if t != "bb":
                    add("tokens-end/%s" % t, b_tokens, toks, True, modes=modes)
    rows = "nitgj"
    for n in (1, 2, 3):
        for rs in itertools.product(rows, repeat=n):
            for pat in (("w",), ("I", "w"), ("w", "P", "w"), ("h",), ("_", "w"), ("w", "_"), ("w", "I", "w", "P"), ("P", "w"),
                        ("U", "w", "L"), ("s",), ("x",), ("w", "I")):
                if n == 3 and not thorough and (len(out) + ord(pat[0])) % 7:
                    continue
                for it in (False, True):
                    toks = [x for r in rs for x in (r,) + pat]
                    add("rows/%s/%s/%d" % ("".join(rs), "".join(pat), it), b_tokens, toks, it,
                        modes=["single", "double"] if n < 2 or thorough else [["single", "double"][len(out) % 2]])
    for a, b in itertools.product(POS, POS):
        n = "%s>%s" % (nm(a), nm(b))
        for edm in (None, "before", "after"):
            add("two/%s/%s" % (n, edm), b_screens, [[a], [b]], edm, modes=["single", "double"] if edm != "before" or thorough else ["double"])
        if a[0] < b[0]:
            add("one/%s" % n, b_screens, [[a, b]], None)
            for c in POS if thorough else POS[::3]:
                add("two-rows/%s>%s" % (n, nm(c)), b_screens, [[a, b], [c]], "after", False, modes=["double"])
                add("two-rows-b/%s<%s" % (n, nm(c)), b_screens, [[c], [a, b]], "before", modes=["single"])
    for a, b, c in itertools.product(POS[:5], POS[:5], POS[:5]):
        add("three/%s>%s>%s" % (nm(a), nm(b), nm(c)), b_screens, [[a], [b], [c]], "after", modes=["double"])
        if a[0] < b[0] < c[0]:
            add("one/%s>%s>%s" % (nm(a), nm(b), nm(c)), b_screens, [[a, b, c]], None)
    for kind in ("lead-eoc", "mid-only", "bs-all", "bs-first-next", "bs-first-far", "bs-row-two"):
        add("blank/" + kind, b_blank, kind, modes=["double"] if kind in ("bs-all", "bs-row-two") else ["single", "double"])
    return out


def nm(p):
    return "%d%s" % (p[0], "".join("%s%d" % (k[0], v) for k, v in p[1].items()))
