"""C17: SCC output is structurally valid and re-reads to the same words."""
import itertools

from ..lib import *
from ..cea import BASICCODE, BASIC, par, pac, ROWBASE, EOC, EDM, ENM, RCL
from .c05 import PUNCT

PROP = "C17"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of SCCWriter.write on caption sets over the CEA-608
basic characters: every character of a word ranges over all of them, words and
lines have enumerated lengths (words 1-40, lines up to 80, 1-4 lines), start and
end times are symbolic with spacings from just feasible to sparse.  The output
is decoded by an independent line 21 decoder (header, hexadecimal words, parity,
rows, columns, breaks at spaces only), its timecodes are compared as linear
forms with the start times, and SCCReader.read is interpreted on it."""
ASSUMPTIONS = ["a cue is feasible when its text and control words fit between it and the cue before it (the first: between it and time zero)",
               "caption sets whose text needs more than fifteen rows of 32 columns are not asserted",
               "floating point rounding of one microsecond is ignored"]
MINIMUM = 120
FRAME = F(1001000, 30)
ROWS = {}
for _r in range(1, 16):
    for _c in range(0, 32, 4):
        ROWS[pac(_r, _c)] = (_r, _c)
CHARS = sorted(set(BASIC.values()) - {" "})
LETTERS = sorted(set(CHARS) - PUNCT - {"-"})
DOM = {"letters": LETTERS, "nohyphen": sorted(set(CHARS) - {"-"})}


class Txt:
    def __init__(self, I):
        self.I, self.n = I, 0

    def char(self, kind="letters"):
        self.n += 1
        nm = "c%d" % self.n
        dom = DOM[kind]
        c = self.I.finsym(nm, dom)
        return c if isinstance(c, str) else self.I.fin_str(c)

    def word(self, n, kind="letters"):
        """n characters; the first and last are symbolic"""
        k = chr(ord("a") + self.n % 26)
        return "".join(self.char(kind) if i in (0, n - 1) else k for i in range(n))


def atom_values(I, c):
    """all strings a finite piece can be"""
    f = I.as_fin(c)
    return None if f is None else {v for v in f.table.values()}


def parse(I, j, doc):
    """[(timecode text, [word])]; None after a violation"""
    lines = doc.split("\n")
    if not j.true("header", lines[0] == "Scenarist_SCC V1.0", "the file begins with %r" % S.show(lines[0])):
        return None
    out = []
    for l in lines[1:]:
        if not l.strip():
            continue
        tc, _, ws = l.partition("\t")
        if not j.true("line-form", bool(_), "no tabulator in the line %s" % S.show(l)[:60]):
            return None
        out.append((tc, [w for w in ws.split(" ") if w != ""]))
    return out


def halves(I, w):
    """the two bytes of a word, or None"""
    if len(w) == 4 and not any(S.is_atom(c) for c in w):
        return w[:2], w[2:]
    parts, i = [], 0
    while i < len(w):
        if S.is_atom(w[i]):
            a = S.A(w[i])
            if a.maxlen == 4 == a.minlen:
                return (w[i],)
            if not (a.minlen == a.maxlen == 2):
                return None
            parts.append(w[i])
            i += 1
        else:
            parts.append(w[i:i + 2])
            i += 2
    return tuple(parts) if len(parts) == 2 and all(len(p) == 2 or S.is_atom(p) for p in parts) else None


def odd(h):
    try:
        return len(h) in (2, 4) and h == h.lower() and all(bin(int(h[i:i + 2], 16)).count("1") % 2 == 1
                                                         for i in range(0, len(h), 2))
    except ValueError:
        return False


def decode(I, j, words, what):
    """-> rows [(row, col, [glyph piece])], index of the first EOC"""
    rows, eoc, cur, last = [], None, None, None
    for k, w in enumerate(words):
        hs = halves(I, w)
        if not j.true("word-form", hs is not None, "%s: %s is not a four digit word" % (what, S.show(w))):
            return None
        for h in hs:
            vals = atom_values(I, h) if any(S.is_atom(c) for c in h) else {h}
            bad = sorted(v for v in vals if not odd(v))
            if not j.true("odd-parity", not bad, "%s: byte %s in %s" % (what, bad[:4], S.show(w))):
                return None
        if len(hs) == 1:
            j.fail("basic-code", "%s: character sent as the two byte code %s" % (what, S.show(w)))
            return None
        if w in (EOC, EDM, ENM, RCL):
            if w == EOC and eoc is None:
                eoc = k
            last = None if last == w else w
            continue
        if w in ROWS:
            if last != w:
                cur = ROWS[w] + ([],)
                rows.append(cur)
            last = None if last == w else w
            continue
        last = None
        if not any(S.is_atom(c) for c in w) and int(w[:2], 16) & 0x7f < 0x20:
            if not j.true("rows", False, "%s: %s is no preamble for the rows 1 to 15" % (what, w)):
                return None
        if not j.true("addressed", cur is not None, "%s: text before a preamble" % what):
            return None
        for h in hs:
            if h == "80":
                continue
            if len(h) == 1:
                f = I.as_fin(h)
                g = I.fin_str(Fin(f.syms, {k_: BASICCODE.get(v, "\0") for k_, v in f.table.items()}))
            else:
                g = BASICCODE.get(h, "\0")
            cur[2].append(I.canon(g) if S.is_atom(g) else g)
    return rows, eoc


def words_of(lines):
    return [w for l in lines for w in l.split(" ") if w]


def layout_ok(I, j, rows, lines, what):
    """rows are the words of the lines, broken at spaces or inside words longer than 32"""
    want = [[I.canon(c) if S.is_atom(c) else c for c in w] for w in words_of(lines)]
    wi, wp = 0, 0           # next word, position inside of it
    for n, (r, c, cells) in enumerate(rows):
        j.true("columns", c + len(cells) <= 32, "%s: row %d has %d columns" % (what, n + 1, c + len(cells)))
        i = 0
        while i < len(cells):
            if cells[i] == " ":
                i += 1
                if wp:
                    return j.fail("words", "%s: a blank inside a word of row %d" % (what, n + 1))
                continue
            if wi >= len(want):
                return j.fail("words", "%s: more text than the caption has" % what)
            w = want[wi]
            k = 0
            while i < len(cells) and cells[i] != " " and wp + k < len(w):
                if cells[i] != w[wp + k]:
                    return j.streq("words", "".join(cells), "".join(w), "%s: row %d and word %d" % (what, n + 1, wi + 1))
                i += 1
                k += 1
            wp += k
            if wp == len(w):
                wi, wp = wi + 1, 0
                if i < len(cells) and cells[i] != " ":
                    return j.fail("words", "%s: words run together in row %d" % (what, n + 1))
            elif i < len(cells):
                return j.fail("words", "%s: a blank inside word %d" % (what, wi + 1))
            elif not j.true("break-at-space", len(w) > 32, "%s: word %d of %d characters is broken at the end of row %d" % (
                    what, wi + 1, len(w), n + 1)):
                return
    j.true("words", wi == len(want), "%s: %d of %d words are transmitted" % (what, wi, len(want)))


def timecode(I, j, tc, what):
    """microseconds"""
    p = tc.split(":")
    if ";" in tc or not j.true("timecode", len(p) == 4, "%s: timecode %s" % (what, S.show(tc))):
        return None
    vals = []
    for k, x in enumerate(p):
        r = length(x)
        if r is None or r[1] or (not any(S.is_atom(c) for c in x) and len(x) != 2):
            j.fail("timecode", "%s: timecode %s" % (what, S.show(tc)))
            return None
        v = r[0]
        if not j.ge("timecode", v, "%s: field %d of the timecode %s" % (what, k + 1, S.show(tc))):
            return None
        vals.append(v)
    t = vals[0].scale(3600) + vals[1].scale(60) + vals[2]
    return t.scale(1001000) + vals[3].scale(FRAME)


def check(I, j, captions, doc, times):
    """captions: lists of lines; times: (start, end) Poly"""
    ls = parse(I, j, doc)
    if ls is None:
        return
    prev, n = None, 0
    for k, (tc, ws) in enumerate(ls):
        what = "line %d" % (k + 1)
        t = timecode(I, j, tc, what)
        d = decode(I, j, ws, what)
        if t is None or d is None:
            return
        if prev is not None:
            # whole frames: a difference above minus one frame is not negative
            j.ge("non-decreasing", t - prev + C(FRAME) - C(1), "%s: timecode minus the one before" % what)
        prev = t
        rows, eoc = d
        if eoc is None:
            j.true("text-shown", not rows, "%s: text is sent but not displayed" % what)
            continue
        if n < len(captions):
            layout_ok(I, j, rows, captions[n], "caption %d" % (n + 1))
            vis = t + C(eoc * FRAME)
            late = vis - times[n][0]
            j.ge("visible", C(3 * FRAME + 1) - late, "caption %d is displayed late: three frames minus its delay" % (n + 1))
            j.ge("visible", late + C(3 * FRAME + 1), "caption %d is displayed early: three frames minus its advance" % (n + 1))
        n += 1
    j.true("captions-sent", n == len(captions), "%d captions are displayed, the set has %d" % (n, len(captions)))


def nrows(lines):
    """rows a line needs when filled greedily"""
    n = 0
    for l in lines:
        col = 0
        n += 1
        for w in [len(x) for x in l.split(" ") if x]:
            if col and col + 1 + w > 32 and w <= 32:
                n, col = n + 1, 0
            if col:
                col += 1
            while col + w > 32:
                w -= 32 - col
                n, col = n + 1, 0
            col += w
    return n


def need(lines):
    """code words of a caption: an upper limit"""
    return 8 + sum(2 for _ in range(nrows(lines))) + sum((len(l) + 1) // 2 + nrows([l]) for l in lines)


def make(I, shapes, kind):
    """shapes: captions -> lines -> word lengths (or text)"""
    T = Txt(I)
    out = []
    for cap in shapes:
        out.append([l if isinstance(l, str) else " ".join(T.word(n, kind) for n in l) for l in cap])
    return out


def text(I, j, shapes, kind="letters", styled=False):
    """constant, sparse times: structure and round trip"""
    caps_ = make(I, shapes, kind)
    t, cl, times = C(0), [], []
    for k, lines in enumerate(caps_):
        s = 20 * 10 ** 6 * (k + 1)
        nodes = lines_to_nodes(I, lines)
        if styled:
            nodes = [style_node(I, True, {"italics": True})] + nodes[:1] + [style_node(I, False, {"italics": True})] + nodes[1:]
        cl.append(caption(I, s, s + 4 * 10 ** 6, nodes))
        times.append((C(s), C(s + 4 * 10 ** 6)))
    cs = capset(I, [("en-US", cl)])
    doc = I.s(write(I, "SCCWriter", cs))
    check(I, j, caps_, doc, times)
    reread(I, j, doc, caps_)


def reread(I, j, doc, caps_):
    back = caps(I, read(I, "SCCReader", doc), "en-US")
    if not j.true("reread-captions", len(back) == len(caps_), "%d captions are read back, %d were written" % (len(back), len(caps_))):
        return
    for k, (c, lines) in enumerate(zip(back, caps_)):
        rows = [(0, 0, [I.canon(x) if S.is_atom(x) else x for x in l]) for l in visible(I, c)]
        layout_ok(I, j, rows, lines, "caption %d read back" % (k + 1))


def timed(I, j, shapes, gaps, first=None, dur=None, top=3600):
    """symbolic times; gaps: per following caption (low, high) frames between the
    moment the cue before is displayed and the first word of this one"""
    caps_ = make(I, shapes, "letters")
    cl, times = [], []
    prev = None
    for k, lines in enumerate(caps_):
        n = need(lines)
        s = sym("s%d" % k, 0, top * 10 ** 6)
        e = sym("e%d" % k, 0, (top + 60) * 10 ** 6)
        # room for the code words of this cue
        base_ = C(0) if prev is None else prev.p
        lo, hi = (first or (0, None)) if prev is None else gaps[(k - 1) % len(gaps)]
        I.add_fact(s.p - base_ - C((n + lo) * FRAME))
        if hi is not None:
            I.add_fact(base_ + C((n + hi) * FRAME) - s.p)
        I.add_fact(e.p - s.p - C(2 * FRAME))
        if dur is not None:
            I.add_fact(C(dur * FRAME) - (e.p - s.p))
        if prev is not None:
            I.add_fact(s.p - times[-1][1])
        cl.append(caption(I, s, e, lines_to_nodes(I, lines)))
        times.append((s.p, e.p))
        prev = s
    cs = capset(I, [("en-US", cl)])
    doc = I.s(write(I, "SCCWriter", cs))
    check(I, j, caps_, doc, times)


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, f, *a, **kw):
        def go(I, j):
            I.exact_floats = True
            f(I, j, *a, **kw)
        out.append(Scenario(name, go, 200))
    for n in range(1, 41):
        add("word/%d" % n, text, [[(n,)]])
        add("words/%d" % n, text, [[(n,) * max(1, 80 // (n + 1))]])
        add("word-lines/%d" % n, text, [[(n,), (n,)]])
        if n < 33:
            add("fit/%d" % n, text, [[(n, 32 - n - 1)] if n < 31 else [(n,)]])
            add("over/%d" % n, text, [[(n, 32 - n)]] if n < 32 else [[(n,)]])
            add("after/%d" % n, text, [[(n, 40, n)]])
    for k in ("nohyphen",):
        for sh in ([[(1,)]], [[(2,)]], [[(3, 2)]], [[(2,), (3,)]], [[(1, 1)]]):
            add("chars/%s/%r" % (k, sh), text, sh, k)
    for l in ("a-b", "well-known", "aaaaaaaaaa bbbbbbbbbb well-known-words", "aaaaaaaaaaaaaaaaaaaaaaaaaaaa bb-cc", "-", "--", "a--b c",
              "aaaaaaaaaaaaaaaaaaaaaaaaaaa a-b-c-d-e", "- a bbbbbbbbbbbbbbbbbbbbbbbbbbbbb -- c", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaa. b, c! (d) 'e'",
              "aaaaaaaaaaaaaaaaaaaaaaaaaaaaa--bbbbbbbb", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaa\u00e1\u00e9-\u00ed\u00f3", "a/b aaaaaaaaaaaaaaaaaaaaaaaaaaaaa/bbb",
              "".join(CHARS[:32]), "".join(CHARS[32:64]), "".join(CHARS[64:]), "x \u2588 \u00f7"):
        add("text/%s" % l, text, [[l]])
        add("text-two/%s" % l, text, [[l, "x " + l[:60]]])
    pats = [(5,) * 13, (1,) * 40, (10, 10, 10, 10, 10), (31, 1, 31), (32, 32), (2, 29, 2, 29), (16, 16, 16), (15, 16, 15, 16), (40, 38),
            (4, 27, 1, 30), (33, 33), (8, 8, 8, 8, 8, 8, 8), (13, 18, 1, 20)]
    for a in pats:
        add("pat/%r" % (a,), text, [[a]])
        add("pat2/%r" % (a,), text, [[a, (3, 4)]])
        add("pat4/%r" % (a,), text, [[(2,), a, (6, 7), a]] if nrows(["x " * 0 + " ".join("x" * n for n in a)]) < 6 else [[(2,), a]])
        add("styled/%r" % (a,), text, [[a, (5,)]], styled=True)
        add("two/%r" % (a,), text, [[a], [(3,), a]])
    for n in (2, 3, 4):
        add("lines/%d" % n, text, [[(k + 1, 4) for k in range(n)]])
        add("full/%d" % n, text, [[(32, 32) for k in range(n)]])
        add("full3/%d" % n, text, [[(32, 15, 16, 12) for k in range(n)]])
        add("captions/%d" % n, text, [[(k + 1, 4)] for k in range(n)])
    # times
    shapes = ([(2,)], [(32,)], [(5, 5), (31,)], [(1,)], [(30, 30), (30, 30)])
    for a in shapes:
        for hi in (1, 40, None):
            add("first/%r/%s" % (a, hi), timed, [a], [], (0, hi))
        for b in shapes:
            for lo, hi in ((0, 0.9), (0, 5), (3, 60), (100, None)):
                add("two-timed/%r/%r/%s" % (a, b, lo or hi), timed, [a, b], [(lo, hi)])
            for d in (3, 30):
                add("short/%r/%r/%s" % (a, b, d), timed, [a, b], [(0, None)], None, d)
    for lo, hi in ((0, 1), (0, 30), (60, None)):
        add("three-timed/%s" % lo, timed, [shapes[0], shapes[2], shapes[3]], [(lo, hi)])
    add("late", timed, [shapes[0], shapes[1]], [(0, None)], None, None, 80000)
    return out
