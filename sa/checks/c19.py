"""C19: timing adjustment and merging of concurrent captions."""
import itertools

from ..lib import *

PROP = "C19"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of CaptionSet.adjust_caption_timing and
merge_concurrent_captions on caption lists of one to six captions in one to
three languages.  Times, skew and offset are symbolic; the sign of every new
start is decided along the paths and the surviving captions are compared with
the affine image of the input.  For merging all patterns of equal and different
starts and ends are enumerated (equal, different or undetermined symbolic
times); nodes are compared by identity and content."""
ASSUMPTIONS = ["exact arithmetic"]
MINIMUM = 150


def nodes_for(I, k, shape):
    """shape: t text, b break, s style pair around a text"""
    out = []
    for i, c in enumerate(shape):
        if c == "t":
            out.append(text_node(I, word("w%d_%d" % (k, i))))
        elif c == "b":
            out.append(break_node(I))
        elif c == "s":
            out.append(style_node(I, True, {"italics": True}))
            out.append(text_node(I, word("w%d_%d" % (k, i))))
            out.append(style_node(I, False, {"italics": True}))
    return out


def snap(I, n):
    """what a node says"""
    return (node_type(I, n), I.getattr(n, "content"), I.getattr(n, "start"), I.getattr(n, "layout_info"))


def same(I, a, b):
    for x, y in zip(a, b):
        if isinstance(x, Inst) and isinstance(x.data, DictData) or isinstance(y, Inst):
            if not I.truth(I.eq(x, y)):
                return False
        elif isinstance(x, str) and isinstance(y, str):
            if I.canon(x) != I.canon(y):
                return False
        elif x is not y and x != y:
            return False
    return True


SHAPES = ("t", "tbt", "tb", "bt", "s", "tt", "sbt", "ts", "st")


def nodes_of(I, c):
    return list(I.iterate(I.getattr(c, "nodes")))


def adjust(I, j, langs_, skew, offset, how, styled=0):
    """langs_: list of numbers of captions per language"""
    sets, want = [], []
    n = 0
    for li, cnt in enumerate(langs_):
        cl, w = [], []
        for k in range(cnt):
            kind = ("int", "float")[n % 2]
            s = sym("s%d" % n, 0, DAY, kind == "int", kind)
            e = sym("e%d" % n, 0, DAY, kind == "int", kind)
            I.add_fact(e.p - s.p)
            ns = nodes_for(I, n, SHAPES[(n + styled) % len(SHAPES)])
            c = caption(I, s, e, ns, style={"color": "red"} if n % 2 else None)
            cl.append(c)
            w.append((s.p, e.p, [snap(I, x) for x in ns]))
            n += 1
        sets.append((("en-US", "de", "fr")[li], cl))
        want.append(w)
    cs = capset(I, sets)
    kw = {}
    if skew == "sym":
        f = sym("skew", F(1, 1000), 4, False, "float")
        kw["rate_skew"], kp = f, f.p
    elif skew is not None:
        kw["rate_skew"], kp = lift(skew), C(lift(skew).p.cval())
    else:
        kp = C(1)
    if offset == "sym":
        o = sym("offset", -2 * DAY, 2 * DAY)
        kw["offset"], op = o, o.p
    elif offset == "symf":
        o = sym("offset", -2 * DAY, 2 * DAY, False, "float")
        kw["offset"], op = o, o.p
    elif offset is not None:
        kw["offset"], op = lift(offset), C(lift(offset).p.cval())
    else:
        op = C(0)
    if how == "pos":
        r = I.callm(cs, "adjust_caption_timing", kw.get("offset", 0), kw.get("rate_skew", 1))
    else:
        r = I.callm(cs, "adjust_caption_timing", **kw)
    for (lang, _), w in zip(sets, want):
        got = caps(I, cs, lang)
        keep = [(s * kp + op, e * kp + op, ns) for s, e, ns in w if I.decide_ge(s * kp + op)]
        if not j.true("kept", len(got) == len(keep), "%s: %d captions remain, %d have a start that is not negative" % (
                lang, len(got), len(keep))):
            return
        for k, (c, (s, e, ns)) in enumerate(zip(got, keep)):
            j.numeq("start", I.getattr(c, "start"), s, "%s: start of remaining caption %d" % (lang, k + 1))
            j.numeq("end", I.getattr(c, "end"), e, "%s: end of remaining caption %d" % (lang, k + 1))
            now = [snap(I, x) for x in nodes_of(I, c)]
            j.true("nodes", len(now) == len(ns) and all(same(I, a, b) for a, b in zip(now, ns)),
                   "%s: nodes of remaining caption %d are changed" % (lang, k + 1))
    j.true("languages", [str(x) for x in langs(I, cs)] == [x for x, _ in sets], "languages after the adjustment")


def merging(I, j, langs_, twice=True):
    """langs_: list of patterns; a pattern is a string with a letter per caption:
    equal letters are equal spans.  Upper case: start of the lower case letter,
    another end; a digit: a symbolic span that may equal the one before"""
    sets, want = [], []
    n = 0
    for li, pat in enumerate(langs_):
        cl, w, span = [], [], {}
        for k, ch in enumerate(pat):
            if ch.isdigit():
                s, e = sym("x%ds%s" % (li, ch), 0, 50), sym("x%de%s" % (li, ch), 0, 50)
            else:
                if ch not in span:
                    lo = ch.lower()
                    i = ord(lo) - 96
                    # every letter lives in a second of its own
                    s = sym("%ds%s" % (li, lo), i * 10 ** 7, i * 10 ** 7 + 10 ** 6)
                    e = sym("%de%s" % (li, ch), i * 10 ** 7 + (2 + ch.isupper() * 2) * 10 ** 6,
                            i * 10 ** 7 + (3 + ch.isupper() * 2) * 10 ** 6)
                    span[ch] = (s, e)
                s, e = span[ch]
                if k % 3 == 2:
                    # the same time as a float
                    s = Num(s.p, "float")
            ns = nodes_for(I, n, SHAPES[n % len(SHAPES)])
            c = caption(I, s, e, ns, style={"color": "c%d" % n})
            cl.append(c)
            w.append((s, e, ns, [snap(I, x) for x in ns], ch))
            n += 1
        sets.append((("en-US", "de", "fr")[li], cl))
        want.append(w)
    cs = capset(I, sets)
    f = base(I, "merge_concurrent_captions")
    r = I.call(f, [cs])
    check_merged(I, j, r, sets, want, "merged")
    if twice:
        r = I.call(f, [r])
        check_merged(I, j, r, sets, want, "merged again")


def check_merged(I, j, cs, sets, want, what):
    for (lang, _), w in zip(sets, want):
        exp = []
        for s, e, ns, sn, ch in w:
            if exp and zero(I, exp[-1][0].p - s.p) and zero(I, exp[-1][1].p - e.p):
                exp[-1][2].append(None)
                exp[-1][2].extend(sn)
                exp[-1][3] += 1
            else:
                exp.append([s, e, list(sn), 1])
        got = caps(I, cs, lang)
        if not j.true("runs", len(got) == len(exp), "%s, %s: %d captions for %d runs of %s" % (
                what, lang, len(got), len(exp), "".join(x[4] for x in w))):
            continue
        for k, (c, (s, e, sn, m)) in enumerate(zip(got, exp)):
            nm = "%s, %s: run %d of %d captions" % (what, lang, k + 1, m)
            j.numeq("run-start", I.getattr(c, "start"), s.p, "start of " + nm)
            j.numeq("run-end", I.getattr(c, "end"), e.p, "end of " + nm)
            now = [snap(I, x) for x in nodes_of(I, c)]
            ok = len(now) == len(sn) and all((x[0] == "BREAK" if y is None else same(I, x, y)) for x, y in zip(now, sn))
            j.true("run-nodes", ok, "%s has nodes %s, must be %s" % (nm, [x[0] for x in now], ["BREAK" if y is None else y[0] for y in sn]))


def zero(I, p):
    return I.decide_ge(p) and I.decide_ge(-p)


def parts(n, al="abcdef"):
    """patterns of n captions with letters in order of first appearance"""
    def go(p, used):
        if len(p) == n:
            yield p
            return
        for i in range(used + 1):
            if i < len(al):
                yield from go(p + al[i], max(used, i + 1))
    return go("", 0)


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, f, *a, **kw):
        out.append(Scenario(name, lambda I, j: f(I, j, *a, **kw), 600))
    for ls in ([1], [2], [3], [1, 1], [2, 1, 2], [4]):
        for sk in (None, 1, 1.0, 2, 0.5, 1.25, 4, 0.999):
            for off in (None, "sym", "symf", 0, -5000000, 7000000, 1.5, -0.25, -2 * DAY):
                if off is not None and "sym" in str(off) and sum(ls) > 4 and not thorough:
                    continue
                for how in (("kw", "pos") if sum(ls) < 3 else ("kw",)):
                    add("adjust/%s/%s/%s/%s" % (ls, sk, off, how), adjust, ls, sk, off, how)
        for off in (None, "sym", -3000000, 1.5):
            if sum(ls) <= 2:
                add("skew/%s/%s" % (ls, off), adjust, ls, "sym", off, "kw", 3)
    for n in range(1, 7 if thorough else 6):
        for p in parts(n):
            add("merge/%s" % p, merging, [p])
    for p in ("aA", "Aa", "aAa", "aaA", "aAA", "aAaa", "AaA", "aabBB", "aAbB", "bAa"):
        add("merge/%s" % p, merging, [p])
    for p in ("01", "00", "001", "0a0", "a0a", "010", "011", "0a1"):
        add("merge/%s" % p, merging, [p])
    for ls in itertools.product(("a", "ab", "aa", "aab", "baa", "aba"), repeat=2):
        add("merge2/%s" % "-".join(ls), merging, list(ls))
    for ls in (["aa", "b", "cc"], ["a", "bb", "a"], ["aaab", "abbb", "aabb"]):
        add("merge3/%s" % "-".join(ls), merging, ls)
    return out
