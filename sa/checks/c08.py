"""C08: any chain of conversions preserves the cue timeline and text."""
import itertools

from ..lib import *
from .c03 import CORE, ASCII, EXTRA, SNIPPETS, spaced, around

PROP = "C08"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of the composition of pycaption's own writers and
readers along chains of formats, each chain walked twice.  Times: every chain
of one, two and three of the five formats on one to three cues whose start and
end instants are symbolic (any microsecond below 24 h, ordered), the instants
read back after the first pass must equal the source's instants rounded down to
the coarsest resolution of the chain as linear forms with floors, and the
second pass must return the same forms and texts.  Text: every ordered pair of
formats (and longer chains) on cues whose lines are templates of symbolic words
around every ordered triple of metacharacters, every pair of printable ASCII
characters and format-looking substrings, and on every small arrangement of
text, break and style nodes.  Languages: chains of DFXP and SAMI on several
languages.  A chain whose second pass changes nothing is a fixed point, so no
further pass drifts."""
ASSUMPTIONS = ["cues start at different units of the chain's coarsest resolution and last at least one unit of it",
               "MicroDVD texts contain no '|'; texts hold no line terminators",
               "SRT, WebVTT and MicroDVD hold one language",
               "cues with the same two times count as one (WebVTT splits a cue by position)"]
MINIMUM = 200
FORMATS = ["SRT", "WebVTT", "DFXP", "SAMI", "MicroDVD"]
SHORT = {"SRT": "S", "WebVTT": "V", "DFXP": "D", "SAMI": "A", "MicroDVD": "M"}
FRAME, MS, SEC = 40000, 1000, 10 ** 6


def floor_to(p, q):
    return pfloor(p.scale(F(1, q))).scale(q)


def hop(I, cs, f, lang=None):
    doc = write(I, f + "Writer", cs)
    kw = {"lang": lang} if lang and f in ("SRT", "WebVTT", "MicroDVD") else {}
    return read(I, f + "Reader", I.s(doc) if I.s(doc) is not None else doc, **kw)


def walk(I, cs, fmts, lang=None):
    for f in fmts:
        cs = hop(I, cs, f, lang)
    return cs


def timeline(I, cs):
    """[(language, [(start, end, text)])]"""
    out = []
    for l in langs(I, cs):
        out.append((I.s(l), [(numval(I, I.getattr(c, "start")), numval(I, I.getattr(c, "end")), norm_ws(" ".join(visible(I, c))))
                             for c in caps(I, cs, l)]))
    return out


def joined(cl, final=False):
    """cues with the same (concrete) times, one after the other, are one cue;
    final: the end of the last one is not known"""
    out = []
    for a, b, t in cl:
        if out and out[-1][0].p == a.p and (out[-1][1].p == b.p or (final and a.p == cl[-1][0].p)):
            out[-1] = (a, b, (out[-1][2] + " " + t).strip())
        else:
            out.append((a, b, t))
    return out


def same(j, name, got, want, last=True):
    """second pass: nothing changes"""
    if not j.true(name, len(got) == len(want) and [l for l, _ in got] == [l for l, _ in want], "second pass has languages %s" % [l for l, _ in got]):
        return
    for (l, g), (_, w) in zip(got, want):
        if not j.true(name, len(g) == len(w), "%d cues after the second pass, %d after the first" % (len(g), len(w))):
            continue
        for i, (x, y) in enumerate(zip(g, w)):
            j.numeq(name, x[0], y[0].p, "start of cue %d after the second pass" % (i + 1))
            j.numeq(name, x[1], y[1].p, "end of cue %d after the second pass" % (i + 1))
            if x[2] != y[2]:
                a, b = around(x[2], y[2])
                j.fail(name, "text of cue %d is %r after the second pass, %r after the first" % (i + 1, S.show(a), S.show(b)))
            else:
                j.proved(name, "text of cue %d" % (i + 1))


def compare(j, tl, want, fmts, exact, merge):
    """want: [(language, [(start Poly, end Poly, text)])]"""
    if not j.true("languages", [l for l, _ in tl] == [l for l, _ in want], "languages %s, must be %s" % ([l for l, _ in tl], [l for l, _ in want])):
        return False
    for (l, cl), (_, wl) in zip(tl, want):
        if merge:
            cl = joined(cl, "SAMI" in fmts)
        if not j.true("cues", len(cl) == len(wl), "%d cues, must be %d: %s" % (len(cl), len(wl), [S.show(t)[:20] for _, _, t in cl][:6])):
            return False
        for i, ((a, b, t), (x, y, u)) in enumerate(zip(cl, wl)):
            j.numeq("start", a, x, "start of cue %d" % (i + 1))
            if "SAMI" not in fmts or i < len(wl) - 1:
                j.numeq("end", b, y, "end of cue %d" % (i + 1))
            if t != u:
                p, q = around(t, u)
                j.fail("text", "text of cue %d is %r, must be %r" % (i + 1, S.show(p), S.show(q)))
            else:
                j.proved("text", "text of cue %d" % (i + 1))
    return True


# ----------------------------------------------------------------------- times
def chain(I, j, fmts, n, kind="int", lang="en-US", passes=2, low=0):
    # the last cue of a SAMI document lasts four seconds
    sami = "SAMI" in fmts
    ts = times(n, DAY - 1 - (4 * SEC if sami else 0), kind, pre="%s%s" % (kind, "a" if sami else "t"))
    q = FRAME if "MicroDVD" in fmts else MS
    unit_ = lambda t: pfloor(t.p.scale(F(1, q)))
    for i, (a, b) in enumerate(ts):
        I.add_fact(b.p - a.p)
        if low:
            I.add_fact(a.p - C(low))
        I.add_fact(unit_(b) - unit_(a) - C(1))
        if i:
            I.add_fact(a.p - ts[i - 1][1].p)
    cs = capset(I, [(lang, [caption(I, a, b, lines_to_nodes(I, [word("w%d" % i), word("v%d" % i)][:1 + i % 2])) for i, (a, b) in enumerate(ts)])])
    want = [(lang, [(floor_to(a.p, q), floor_to(b.p, q), " ".join([word("w%d" % i), word("v%d" % i)][:1 + i % 2])) for i, (a, b) in enumerate(ts)])]
    cur = walk(I, cs, fmts, lang)
    tl = timeline(I, cur)
    if not compare(j, tl, want, fmts, True, False):
        return
    for _ in range(passes - 1):
        cur = walk(I, cur, fmts, lang)
        same(j, "second-pass", timeline(I, cur), tl)


def first_frame(I, j):
    """a cue that is over within the first frame"""
    cs = capset(I, [("en-US", [caption(I, 0, 39999, [text_node(I, "a")]), caption(I, SEC, 2 * SEC, [text_node(I, "b")])])])
    tl = timeline(I, walk(I, cs, ["MicroDVD"]))
    j.true("cues", len(tl[0][1]) == 2, "%d cues, must be 2" % len(tl[0][1]))


# ------------------------------------------------------------------------ text
def spec_text(sp):
    return norm_ws("".join(" " if n == "b" else n if isinstance(n, str) else "" for n in sp))


def build(I, specs, layouts=None):
    cl = []
    for k, sp in enumerate(specs):
        out = []
        for i, n in enumerate(sp):
            L = layouts[(i + k) % len(layouts)] if layouts else None
            out.append(break_node(I, L) if n == "b" else text_node(I, n, L) if isinstance(n, str) else style_node(I, n[0], n[1], L))
        cl.append(caption(I, k * 2 * SEC + (MS if k % 2 else 0), k * 2 * SEC + SEC + 200 * MS * k, out, None, layouts[k % len(layouts)] if layouts else None))
    return cl


def wanted(specs, lang, q):
    f = lambda t: C(t // q * q)
    return (lang, [(f(k * 2 * SEC + (MS if k % 2 else 0)), f(k * 2 * SEC + SEC + 200 * MS * k), spec_text(sp)) for k, sp in enumerate(specs)])


def texts(I, j, fmts, specs, lang="en-US", lay=None):
    q = FRAME if "MicroDVD" in fmts else MS
    cs = capset(I, [(lang, build(I, specs, [layout(I, **d) if d is not None else None for d in lay] if lay else None))])
    cur = walk(I, cs, fmts, lang)
    tl = timeline(I, cur)
    if not compare(j, tl, [wanted(specs, lang, q)], fmts, False, True):
        return
    cur = walk(I, cur, fmts, lang)
    same(j, "second-pass", timeline(I, cur), tl)


def several(I, j, fmts, lm):
    """lm: [(language, specs)]"""
    cs = capset(I, [(l, build(I, sp)) for l, sp in lm])
    cur = walk(I, cs, fmts)
    tl = timeline(I, cur)
    if not compare(j, sorted(tl, key=lambda x: x[0]), sorted([wanted(sp, l, MS) for l, sp in lm]), fmts, False, True):
        return
    cur = walk(I, cur, fmts)
    same(j, "second-pass", sorted(timeline(I, cur), key=lambda x: x[0]), sorted(tl, key=lambda x: x[0]))


def from_document(I, j, rname, doc, fmts, n):
    """the source is a document"""
    cs = read(I, rname, doc)
    src = timeline(I, cs)
    q = FRAME if "MicroDVD" in fmts else MS
    if not j.true("source", len(src) == 1 and len(src[0][1]) == n, "%s cues in the source" % [len(c) for _, c in src]):
        return
    lang = src[0][0]
    want = [(lang, [(floor_to(a.p, q), floor_to(b.p, q), t) for a, b, t in joined(src[0][1])])]
    cur = walk(I, cs, fmts, lang)
    tl = timeline(I, cur)
    if not compare(j, tl, want, fmts, True, True):
        return
    cur = walk(I, cur, fmts, lang)
    same(j, "second-pass", timeline(I, cur), tl)


def nm(fmts):
    return "".join(SHORT[f] for f in fmts)


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, f, *a, **k):
        out.append(Scenario(name, lambda I, j: f(I, j, *a, **k), 200))
    for n in (1, 2, 3):
        for k in (1, 2, 3) if n < 3 or thorough else (1, 2):
            for fm in itertools.product(FORMATS, repeat=k):
                if k == 3 and n == 2 and not thorough and len(set(fm)) < 3:
                    continue
                add("time/%d/%s" % (n, nm(fm)), chain, list(fm), n, low=0 if thorough or n + k < 5 else 3600 * SEC)
    for fm in itertools.product(FORMATS, repeat=2):
        if fm[0] != "MicroDVD":
            add("time-float/%s" % nm(fm), chain, list(fm), 2, "float")
        add("time-fr/%s" % nm(fm), chain, list(fm), 1, "int", "fr")
    for fm in itertools.permutations(FORMATS):
        add("time-five/%s" % nm(fm), chain, list(fm), 1 if not thorough else 2, low=0 if thorough else 3600 * SEC)
    add("first-frame", first_frame)
    # text
    I1, I0 = (True, {"italics": True}), (False, {"italics": True})
    B1, B0 = (True, {"bold": True}), (False, {"bold": True})
    t = [word("w%d" % k) for k in range(5)]
    fam = []
    for c in CORE:
        fam.append(("triples-%02x" % ord(c), [[spaced([c + a + b for a in CORE for b in CORE]), "b", t[0]], [t[1]]]))
    for i in range(0, len(ASCII), 24):
        for k in range(0, len(ASCII), 32):
            fam.append(("pairs-%02x-%d" % (ord(ASCII[i]), k), [[spaced([a + b for a in ASCII[i:i + 24] for b in ASCII[k:k + 32]])], [t[0]]]))
    fam.append(("extra", [[spaced([a + b for a in EXTRA for b in EXTRA + "&<x"])], [t[0]]]))
    fam.append(("edges", [[a + b + t[0], "b", t[1] + a + b, "b", a + b] for a in CORE for b in CORE]))
    for i in range(0, len(SNIPPETS), 20):
        sn = SNIPPETS[i:i + 20]
        fam.append(("snippet-inside-%d" % i, [[t[0] + x + t[1], "b", t[2]] for x in sn]))
        fam.append(("snippet-line-%d" % i, [[x] for x in sn] + [[t[0]]]))
        fam.append(("snippet-first-%d" % i, [[x, "b", t[0]] for x in sn]))
        fam.append(("snippet-last-%d" % i, [[t[0], "b", x] for x in sn]))
        fam.append(("snippet-styled-%d" % i, [[I1, x, I0, "b", t[0]] for x in sn]))
        fam.append(("snippet-words-%d" % i, [[t[0] + " " + x + " " + t[1]] for x in sn]))
    pats = []
    for n in range(1, 6):
        for pat in itertools.product("tb", repeat=n):
            if "t" in pat and not any(pat[k] == pat[k + 1] == "t" for k in range(n - 1)):
                pats.append([t[k] if p == "t" else "b" for k, p in enumerate(pat)])
    fam.append(("nodes", pats))
    fam.append(("blank-lines", [[t[0], "b", x, "b", t[1]] for x in ("", " ", "\u00a0", "  ")] + [[x, "b", t[0], "b", x] for x in ("", " ", "\u00a0")] + [[t[2]]]))
    fam.append(("spaces", [["  " + t[0] + "  " + t[1] + " "], [" " + t[0], "b", t[1] + " "], [t[0] + "   ", "b", "  " + t[1]], [t[0] + " \u00a0 " + t[1]], [t[2]]]))
    fam.append(("styled", [[I1, t[0], "b", t[1], I0], [t[0], "b", I1, I0, "b", t[1]], [I1, t[0], I0, "b", "b", B1, t[1], B0], [t[0] + " ", I1, t[1], I0, " " + t[2]],
                           [I1, t[0], I0, "b", I1, t[1], I0], [I1, B1, t[0], B0, I0], [t[0], "b", I1, t[1], I0], [I1, t[0], I0, "b", t[1]], [t[2]]]))
    fam.append(("many", [[word("m%d" % k), "b", word("n%d" % k)] for k in range(8)]))
    for a in ("italics", "bold", "underline"):
        s1, s0 = (True, {a: True}), (False, {a: True})
        fam.append(("partial-word-%s" % a, [[t[0], s1, t[1], s0, t[2], "b", t[3]], [t[4]]]))
        fam.append(("inner-space-%s" % a, [[t[0], s1, " " + t[1] + " ", s0, t[2]], [t[4]]]))
    fam.append(("two-nodes", [[t[0], t[1]], [t[4]]]))
    nobar = lambda n: n.replace("|", "") if isinstance(n, str) else n
    for nm_, specs in fam:
        for fm in itertools.product(FORMATS, repeat=2):
            if fm[0] == fm[1]:
                continue
            sp = [[nobar(x) for x in s] for s in specs] if "MicroDVD" in fm else specs
            add("text/%s/%s" % (nm_, nm(fm)), texts, list(fm), sp)
        for fm in (("SRT", "WebVTT", "DFXP", "SAMI", "MicroDVD"), ("MicroDVD", "SAMI", "DFXP", "WebVTT", "SRT"), ("SAMI", "DFXP", "SAMI", "WebVTT", "SAMI")):
            sp = [[nobar(x) for x in s] for s in specs] if "MicroDVD" in fm else specs
            add("text/%s/%s" % (nm_, nm(fm)), texts, list(fm), sp)
    # layouts do not disturb text and times
    lays = [None, dict(origin=((10, "%"), (20, "%"))), dict(align=("left", "top")), dict(origin=((30, "%"), (40, "%")), extent=((30, "%"), (40, "%"))), dict(raw="line:1")]
    lsp = [[t[0], "b", t[1]], [t[0], "b", I1, t[1], I0, "b", t[2]], [t[1]], [I1, t[2], I0], [t[0], "b", "b", t[1]]]
    for i, c in enumerate([[lays[1]], [lays[2]], [lays[3]], [lays[4]], [lays[1], lays[3]], [None, lays[1]], [lays[2], lays[3], None], lays]):
        for fm in itertools.product(FORMATS, repeat=2):
            add("layout/%d/%s" % (i, nm(fm)), texts, list(fm), lsp, lay=c)
    # several languages
    for fm in [x for k in (1, 2, 3) for x in itertools.product(("DFXP", "SAMI"), repeat=k)]:
        add("languages/%s" % nm(fm), several, list(fm), [("en-US", [[t[0]], [t[1]]]), ("fr", [[t[2]], [t[3], "b", t[4]]])])
        add("languages-3/%s" % nm(fm), several, list(fm), [("en", [[t[0]], [t[1]], [t[2]]]), ("fr", [[t[2]]]), ("de", [[t[3]], [t[4]]])])
    return out
