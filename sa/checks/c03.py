"""C03: written text survives a conformant parser."""
import itertools

from ..lib import *
from .. import refs as R
from .c02 import WRITERS, make_writer

PROP = "C03"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of every text writer on caption sets whose text lines
are templates of symbolic words (any letters) around every ordered triple of
the formats' metacharacters, every pair of printable ASCII characters,
entity-, tag-, comment- and cue-looking substrings, as whole lines and inside
lines, over every arrangement of text, break and style nodes up to five nodes;
for SRT and MicroDVD the text additionally contains a piece of arbitrary
printable characters.  The abstract document is then read by an independent
reference parser of the format (strict lxml XML, HTML tokenizer, WebVTT cue
grammar, SRT blocks, MicroDVD lines), and the recovered lines of every cue must
be exactly the template's lines; the number of cues must not change."""
ASSUMPTIONS = ["whitespace runs compare equal; empty lines may vanish or become a non-breaking space",
               "MicroDVD text contains no '|'",
               "symbolic words stand for letters; metacharacters are enumerated in every pair and triple"]
MINIMUM = 200

CORE = "&<>\"'-;#/!x"
ASCII = "".join(chr(i) for i in range(33, 127))
EXTRA = "\u00e9\u2014\u201c\u266a\u00a3\u8a9e\u200e\u00ad\u00df\u0130"

SNIPPETS = ["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&nbsp;", "&amp;lt;", "&amp;amp;", "&#60;", "&#x3C;",
            "&#38;#60;", "&bogus;", "&", "<", ">", "&&", "<<", ">>", "-->", "--", "->", "--&gt;", "<!--", "<!-- x -->",
            "]]>", "<![CDATA[x]]>", "<?xml?>", "<br/>", "<br>", "</p>", "<p>", "<span>", "</span>", "<i>", "</i>",
            "<b>x</b>", "<c.x>", "<v Bob>", "<00:00:01.000>", "</tt>", "<sync start=1>", "</sami>", "<style>", "*/",
            "WEBVTT", "NOTE x", "STYLE", "REGION", "1", "42", "{1}{2}", "{1}{2}x", "{y:i}", "{0}{0}25",
            "00:00:01,000 --> 00:00:02,000", "00:01.000 --> 00:02.000", "MULTI-LANGUAGE SRT", "Scenarist_SCC V1.0",
            "a & b", "a < b", "b > c", "'q'", '"q"', "- x", "-", "%s", "%(x)s", "{}", "{0}", "\\n", "\\", "$1", "\\1", ";>", "<i/>",
            "&;", "&#;", "&#x;", "&#", "&lt", "&ltx", "&copy", "x&y;z"]


def spec_lines(spec):
    """visible lines of a node specification"""
    lines, cur = [], ""
    for n in spec:
        if n == "b":
            lines.append(cur)
            cur = ""
        elif isinstance(n, str):
            cur += n
    return R.norm(lines + [cur])


def build_nodes(I, spec):
    out = []
    for n in spec:
        if n == "b":
            out.append(break_node(I))
        elif isinstance(n, str):
            out.append(text_node(I, n))
        else:
            out.append(style_node(I, n[0], n[1]))
    return out


def read_back(w, s):
    """[lines of each cue] via the reference parser"""
    if w == "SRTWriter":
        return [c.lines for c in R.srt(s)[0]]
    if w == "WebVTTWriter":
        return [c.lines for c in R.vtt(s)]
    if w == "SAMIWriter":
        d = R.sami(s)
        if d.stray:
            raise R.Bad("text outside paragraphs: %r" % [S.show(x) for x in d.stray])
        return [p.lines for _, ps in d.syncs for p in ps if R.norm(p.lines)]
    if w == "MicroDVDWriter":
        return [c.lines for c in R.mdvd(s)]
    return [p.lines for _, ps, _ in R.dfxp(s).divs for p in ps]


def run(I, j, w, specs, opts=None):
    cl = [caption(I, i * 2000000, i * 2000000 + 1000000, build_nodes(I, sp)) for i, sp in enumerate(specs)]
    cs = capset(I, [("en", cl)])
    wr = make_writer(I, w) if not opts else I.call(ext(I, w), [], opts)
    s = I.s(I.callm(wr, "write", cs))
    if s is None:
        return j.fail("writes-text", "output is not text")
    try:
        got = [R.norm(x) for x in read_back(w, s)]
    except R.Bad as e:
        return j.fail("document-grammar", "%s" % e)
    want = [spec_lines(sp) for sp in specs]
    if w == "SAMIWriter":
        want = [x for x in want if x]
    if not j.true("cue-count", len(got) == len(want), "%d cues recovered for %d captions" % (len(got), len(want))):
        return
    for i, (g, e) in enumerate(zip(got, want)):
        if not j.true("line-count", len(g) == len(e), "cue %d has lines %r, expected %r" % (
                i + 1, show(g), show(e))):
            continue
        for k, (a, b) in enumerate(zip(g, e)):
            if a == b:
                j.proved("line-text", "line %d of cue %d" % (k + 1, i + 1))
            else:
                x, y = around(a, b)
                j.fail("line-text", "line %d of cue %d reads %r where the caption has %r" % (
                    k + 1, i + 1, S.show(x), S.show(y)))


def show(ls):
    return [S.show(x)[:80] for x in ls]


def around(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return a[max(0, i - 4):i + 10], b[max(0, i - 4):i + 10]


def spaced(parts, pre="w"):
    """symbolic words between the parts"""
    out = word(pre + "0")
    for i, p in enumerate(parts):
        out += p + word("%s%d" % (pre, i % 7 + 1))
    return out


def alphabet(w):
    return [c for c in ASCII if c != "|" or w != "MicroDVDWriter"]


def scenarios(tier):
    out = []

    def add(name, w, specs, **k):
        out.append(Scenario("%s/%s" % (w.replace("Writer", ""), name),
                            lambda I, j: run(I, j, w, specs, **k), 400))
    I1, I0 = (True, {"italics": True}), (False, {"italics": True})
    B1, B0 = (True, {"bold": True}), (False, {"bold": True})
    for w in WRITERS:
        for i, c in enumerate(CORE):
            add("triples-%02x" % ord(c), w, [[spaced([c + a + b for a in CORE for b in CORE]), "b", word("z")]])
        al = alphabet(w)
        for i in range(0, len(al), 16):
            add("pairs-%02x" % ord(al[i]), w, [[spaced([a + b for a in al[i:i + 16] for b in al])], [word("z")]])
        add("extra", w, [[spaced([a + b for a in EXTRA for b in EXTRA + "&<x"])], [word("z")]])
        for a in CORE:
            add("edges-%02x" % ord(a), w, [[a + b + word("w"), "b", word("v") + a + b, "b", a + b] for b in CORE])
        for i in range(0, len(SNIPPETS), 6):
            sn = [x for x in SNIPPETS[i:i + 6] if w != "MicroDVDWriter" or "|" not in x]
            add("snippet-inside-%d" % i, w, [[word("w") + x + word("v"), "b", word("u")] for x in sn])
            add("snippet-line-%d" % i, w, [[x] for x in sn] + [[word("u")]])
            add("snippet-first-%d" % i, w, [[x, "b", word("w")] for x in sn])
            add("snippet-last-%d" % i, w, [[word("w"), "b", x] for x in sn])
            add("snippet-middle-%d" % i, w, [[word("w"), "b", x, "b", word("v")] for x in sn])
            add("snippet-styled-%d" % i, w, [[I1, x, I0, "b", word("v")] for x in sn])
        add("snippet-rows", w, [[y for x in SNIPPETS[i:i + 5] for y in (x, "b")][:-1] for i in range(0, len(SNIPPETS), 5)])
        # arrangements of nodes
        t = [word("w%d" % k) for k in range(5)]
        for n in range(1, 6):
            for pat in itertools.product("tb", repeat=n):
                if "t" not in pat:
                    continue
                # adjacent text nodes are covered by the partial-word rows
                if any(pat[k] == pat[k + 1] == "t" for k in range(n - 1)):
                    continue
                sp = [t[k] if p == "t" else "b" for k, p in enumerate(pat)]
                add("nodes-" + "".join(pat), w, [sp, [word("z")]])
        for k in range(2, 6):
            add("breaks-%d" % k, w, [[t[0]] + ["b"] * k + [t[1]], [t[2]]])
        add("empty-text", w, [[t[0], "b", "", "b", t[1]], [t[2]]])
        add("empty-text-edges", w, [["", "b", t[0], "b", ""], [t[2]]])
        add("blank-text", w, [[t[0], "b", " ", "b", t[1]], [t[2]]])
        add("nbsp-text", w, [[t[0], "b", "\u00a0", "b", t[1]], [t[2]]])
        add("styled-break", w, [[I1, t[0], "b", t[1], I0], [t[2]]])
        add("styled-blank", w, [[t[0], "b", I1, I0, "b", t[1]], [t[2]]])
        add("style-then-breaks", w, [[I1, t[0], I0, "b", "b", B1, t[1], B0], [t[2]]])
        add("style-spaces", w, [[t[0] + " ", I1, t[1], I0, " " + t[2]], [t[3]]])
        for style in (None, "italics", "bold", "underline"):
            mid = [t[1]] if style is None else [(True, {style: True}), t[1], (False, {style: True})]
            add("partial-word-%s" % style, w, [[t[0]] + mid + [t[2], "b", t[3]], [t[4]]])
            add("style-inner-space-%s" % style, w, [[t[0]] + ([" " + t[1] + " "] if style is None else [
                mid[0], " " + t[1] + " ", mid[2]]) + [t[2]], [t[4]]])
        add("arrow-across-nodes", w, [[t[0] + "--", ">" + t[1]], [t[2]]])
        add("arrow-across-nodes-3", w, [[t[0] + "-", "-", ">" + t[1]], [t[2]]])
        add("empty-node-inside", w, [[t[0], "", t[1]], [t[2]]])
        add("entity-across-nodes", w, [[t[0] + "&", "lt;" + t[1]], [t[2]]])
        add("many-cues", w, [[word("m%d" % k), "b", word("n%d" % k)] for k in range(8)])
        add("many-lines", w, [[y for k in range(8) for y in (word("m%d" % k), "b")][:-1]] * 2)
        if w in ("SRTWriter", "MicroDVDWriter"):
            pr = frozenset(c for c in S.UNIVERSE if c.isprintable() and c != " " and (c != "|" or w != "MicroDVDWriter"))
            p, q = S.satom("<any %s>" % w, pr), S.satom("<any2 %s>" % w, pr)
            add("any-printable", w, [[word("w") + p + word("v"), "b", q], [p, "b", word("z") + q]])
    return out
