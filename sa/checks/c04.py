"""C04: read text equals authored text."""
import re

from ..lib import *
from .. import refs as R

PROP = "C04"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of every text reader on document templates built by an
independent serialiser: each caption line is a sequence of constructs (symbolic
words, named/decimal/hexadecimal references to every printable ASCII character,
references whose expansion spells another reference, comments, CDATA, inline
tags and their nestings, line-break markup, source line wrapping at every
construct boundary) for which the displayed text is known by construction.
Every construct is placed alone, at the start, in the middle and at the end of
a line, and in every ordered pair with every other construct, adjacent and
separated by a word.  The caption's TEXT and BREAK nodes must spell exactly the
displayed lines, up to trimming and whitespace runs."""
ASSUMPTIONS = ["symbolic words stand for letters and digits; markup characters are enumerated",
               "SRT and MicroDVD text carries no inline tags (the formats' tag dialects are unspecified)",
               "bs4, lxml and html.parser behave as their documented tree construction (modelled or applied to inert pieces)"]
MINIMUM = 100

W = word


def disp(lines):
    return [x for x in (norm_ws(l) for l in lines) if x]


class T:
    """a construct: source text and displayed text ('\\n' = line break)"""

    def __init__(self, src, out=None, name=None):
        self.src, self.out = src, src if out is None else out
        self.name = name or src


def chars_for(fmt):
    return [chr(i) for i in range(33, 127)]


# ---------------------------------------------------------------- documents
def doc(fmt, cues):
    """document with the given cue sources (list of strings)"""
    if fmt == "dfxp":
        ps = "".join('<p begin="00:00:%02d.000" end="00:00:%02d.500" region="bottom">%s</p>\n' % (i + 1, i + 1, c)
                     for i, c in enumerate(cues))
        return ('<?xml version="1.0" encoding="utf-8"?>\n<tt xml:lang="en" xmlns="http://www.w3.org/ns/ttml" '
                'xmlns:tts="http://www.w3.org/ns/ttml#styling"><head><styling/><layout><region xml:id="bottom"/>'
                '</layout></head>\n<body><div xml:lang="en">\n%s</div></body></tt>' % ps)
    if fmt == "sami":
        ps = "".join('<SYNC Start=%d><P Class=ENCC>%s</P></SYNC>\n' % ((i + 1) * 1000, c) for i, c in enumerate(cues))
        return ('<SAMI><HEAD><TITLE>t</TITLE><STYLE TYPE="text/css"><!--\nP { margin-left: 1pt; }\n'
                '.ENCC { Name: English; lang: en-US; SAMIType: CC; }\n--></STYLE></HEAD>\n<BODY>\n%s</BODY></SAMI>' % ps)
    if fmt == "vtt":
        return "WEBVTT\n\n" + "\n".join("00:%02d.000 --> 00:%02d.500\n%s\n" % (i + 1, i + 1, c) for i, c in enumerate(cues))
    if fmt == "srt":
        return "\n".join("%d\n00:00:%02d,000 --> 00:00:%02d,500\n%s\n" % (i + 1, i + 1, i + 1, c)
                         for i, c in enumerate(cues))
    return "{0}{0}25\n" + "".join("{%d}{%d}%s\n" % (25 * (i + 1), 25 * (i + 1) + 10, c) for i, c in enumerate(cues))


READERS = {"dfxp": "DFXPReader", "sami": "SAMIReader", "vtt": "WebVTTReader", "srt": "SRTReader",
           "mdvd": "MicroDVDReader"}


def run(I, j, fmt, cues, opts=None, crlf=False, raw=None, labels=None):
    """cues: list of (source, displayed lines)"""
    text = raw if raw is not None else doc(fmt, [c for c, _ in cues])
    if crlf:
        text = text.replace("\n", "\r\n")
    cs = read(I, READERS[fmt], text, opts)
    got = [disp(visible(I, c)) for c in caps(I, cs)]
    want = [disp(l) for _, l in cues]
    want = [w for w in want if w]
    if not j.true("caption-count", len(got) == len(want), "%d captions read from %d cues" % (len(got), len(want))):
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if not j.true("line-count", len(g) == len(w), "cue %d %s reads as lines %r, displayed as %r" % (
                i + 1, show1(cues[i][0]), show(g), show(w))):
            continue
        for a, b in zip(g, w):
            if a == b:
                j.proved("line-text")
            else:
                j.fail("line-text", "source %s reads as %r, displayed as %r" % (
                    show1(cues[i][0]), S.show(a), S.show(b)))


def show(ls):
    return [S.show(x)[:80] for x in ls]


def show1(s):
    return S.show(s)[:120]


def lines_of(out):
    return out.split("\n")


# ---------------------------------------------------------------- constructs
def refs_html():
    out = []
    for c in chars_for(""):
        out.append(T("&#%d;" % ord(c), c))
        out.append(T("&#x%x;" % ord(c), c))
        out.append(T("&#x%X;" % ord(c), c))
    return out


NAMED_XML = [T("&amp;", "&"), T("&lt;", "<"), T("&gt;", ">"), T("&quot;", '"'), T("&apos;", "'")]
NAMED_HTML = NAMED_XML + [T("&nbsp;", "\u00a0"), T("&eacute;", "\u00e9"), T("&copy;", "\u00a9"),
                              T("&mdash;", "\u2014"), T("&hearts;", "\u2665"), T("&Aacute;", "\u00c1"),
                              T("&hellip;", "\u2026"), T("&frac12;", "\u00bd")]
# references that spell a reference, displayed literally
DOUBLE = [T("&amp;%s;" % n, "&%s;" % n) for n in
          ("amp", "lt", "gt", "quot", "apos", "nbsp", "eacute", "#60", "#x3C", "#38", "copy", "bogus")] + \
         [T("&#38;lt;", "&lt;"), T("&#x26;amp;", "&amp;"), T("&#38;#60;", "&#60;"), T("&amp;amp;lt;", "&amp;lt;"),
          T("&#38;amp;lt;", "&amp;lt;"), T("&#x26;#x26;lt;", "&#x26;lt;"),
          T("&lt;b&gt;", "<b>"), T("&lt;br/&gt;", "<br/>"), T("&#60;i&#62;", "<i>"), T("&lt;!-- x --&gt;", "<!-- x -->"),
          T("&lt;/p&gt;", "</p>"), T("&lt;span&gt;", "<span>"), T("&lt;", "<"), T("&lt;&lt;", "<<"), T("&gt;&gt;", ">>"),
          T("&amp;&amp;", "&&"), T("&amp;&lt;", "&<"), T("&lt;&amp;", "<&"), T("&lt;x", "<x"), T("&lt;3", "<3"),
          T("&lt;i/&gt;", "<i/>"), T("&lt;/i&gt;", "</i>"), T("a &lt; b", "a < b")]
WIDE = [T("&#233;", "\u00e9"), T("&#xe9;", "\u00e9"), T("&#8212;", "\u2014"), T("&#x266A;", "\u266a"),
        T("&#x1F600;", "\U0001F600"), T("&#128512;", "\U0001F600"), T("&#0233;", "\u00e9"), T("&#x000E9;", "\u00e9"),
        T("\u00e9"), T("\u2014"), T("\u266a"), T("\u8a9e"), T("\U0001F600")]
LITERAL = [T(c) for c in "abXYZ019!\"#$%'()*+,-./:;=?@[]^_`{}~\\"] + [T("--"), T("..."), T("];"), T("x;"), T("#x"), T("'"),
                                                               T('"q"'), T("it's"), T("100%"), T("a;b"), T("{}")]


def constructs(fmt):
    """[(name, [T])]: constructs of a format, each displayed as given"""
    if fmt == "dfxp":
        tags = [T("<br/>", "\n"), T("<br />", "\n"), T("<br></br>", "\n"), T("<span>x</span>", "x"),
                T('<span tts:fontStyle="italic">y</span>', "y"),
                T('<span tts:color="red"><span tts:fontWeight="bold">z</span></span>', "z"),
                T('<span tts:textDecoration="underline">u<br/>v</span>', "u\nv"),
                T('<span style="s1">a</span><span>b</span>', "ab"), T("<span/>", ""), T("<span></span>", ""),
                T("<metadata/>", ""), T("<set begin=\"1s\"/>", "")]
        other = [T("<!-- c -->", ""), T("<!--c-->", ""), T("<!-- a > b -->", ""), T("<!-- <br/> -->", ""),
                 T("<!-- &lt; -->", ""), T("<![CDATA[x]]>", "x"), T("<![CDATA[a & b]]>", "a & b"),
                 T("<![CDATA[<i>]]>", "<i>"), T("<![CDATA[&lt;]]>", "&lt;"), T("<![CDATA[&apos;]]>", "&apos;"),
                 T("<![CDATA[a < b > c]]>", "a < b > c"), T("<?pi data?>", "")]
        return [("ref", [r for r in refs_html() if r.src != "&#%d;"]), ("named", NAMED_XML), ("double", DOUBLE),
                ("wide", WIDE), ("literal", LITERAL + [T(">"), T("->"), T("->")]), ("tags", tags), ("other", other)]
    if fmt == "sami":
        tags = [T("<br>", "\n"), T("<BR>", "\n"), T("<br/>", "\n"), T("<BR />", "\n"), T("<Br/>", "\n"),
                T("<i>x</i>", "x"), T("<I>x</I>", "x"), T("<b>x</b>", "x"), T("<u>x</u>", "x"),
                T("<font color=\"red\">x</font>", "x"), T("<FONT COLOR=red>x</FONT>", "x"),
                T("<span>x</span>", "x"), T('<span style="color:red;">x</span>', "x"), T("<div>x</div>", "x"),
                T('<span class="ENCC">x</span>', "x"), T('<span style="font-style:italic">x<br/>y</span>', "x\ny"),
                T("<i><b>x</b></i>", "x"), T("<i><b><u>x</u></b></i>", "x"), T("<b>x<i>y</i>z</b>", "xyz"),
                T("<i></i>", ""), T("<em>x</em>", "x"), T("<strong>x</strong>", "x")]
        other = [T("<!-- c -->", ""), T("<!--c-->", ""), T("<!-- a > b -->", ""), T("<!-- <br> -->", "")]
        return [("ref", refs_html()), ("named", NAMED_HTML), ("double", DOUBLE), ("wide", WIDE),
                ("literal", LITERAL + [T(">"), T(";>"), T("a;>b"), T("->")]), ("tags", tags), ("other", other),
                ("refx", [T("&#X3C;", "<"), T("&#X26;", "&"), T("&#X41;", "A"), T("&#XE9;", "\u00e9")]),
                ("punct", [T("&lt;;>", "<;>"), T("&gt;>", ">>"), T("&amp;>", "&>"), T("&#62;>", ">>")]),
                ("stray", [T("a & b"), T("&"), T("a &"), T("AT&T"), T("a < b"), T("1 < 2 > 0")])]
    if fmt == "vtt":
        def sp(n, o=None):
            return T("<%s>" % n, "" if o is None else o)
        tags = []
        for n in ("c", "i", "b", "u", "ruby", "rt", "lang"):
            tags += [T("<%s>x</%s>" % (n, n), "x"), T("<%s.cls>x</%s>" % (n, n), "x"),
                     T("<%s.cls.two>x</%s>" % (n, n), "x")]
        tags += [T("<lang en>x</lang>", "x"), T("<lang en-GB>x</lang>", "x"), T("<lang.c en-US>x</lang>", "x"),
                 T("<ruby>a<rt>b</rt></ruby>", "ab"), T("<c.yellow.bg_blue>x</c>", "x"), T("<c.my-class>x</c>", "x"),
                 T("<i><b>x</b></i>", "x"), T("<c><i>x</i></c>", "x"), T("<b annotation>x</b>", "x"), T("<i>x", "x")]
        tags += [T("<00:00:01.000>", ""), T("<00:01.000>", ""), T("<100:00:01.500>", ""), T("<01:02:03.004>x", "x")]
        voice = [T("<v Bob>", "Bob: "), T("<v Bob>x</v>", "Bob: x"), T("<v.loud Bob>x</v>", "Bob: x"),
                 T("<v.first.loud Bob>x", "Bob: x"), T("<v.first-loud Esme>x", "Esme: x"), T("<v Bob Smith>x", "Bob Smith: x"),
                 T("<v Mr. O'Neil>x", "Mr. O'Neil: x"), T("<v A &amp; B>x", "A & B: x"), T("<v Bob><i>x</i></v>", "Bob: x"),
                 T("<v.1 Bob>x", "Bob: x"), T("<v \u00c9ric>x", "\u00c9ric: x")]
        unknown = [T("<%s>" % n) for n in ("x", "cat", "bold", "video", "under", "ital", "red", "a", "rub", "rtx", "language",
                                            "rubyx", "vv", "ii", "center", "br", "span", "u2", "1", "font", "iframe", "vox", "cue")] + \
                  [T("</cat>"), T("</bold>"), T("</x>"), T("<x.y>"), T("<cat dog>"), T("<00:01>"), T("<12>"), T("<B>"), T("<I>"),
                   T("<3"), T("<<"), T("< i >"), T("<->"), T("<3>"), T("<unknown>x</unknown>"), T("<ctrl-c>")]
        unknown = [u for u in unknown if u.src not in ("<<",)]
        return [("ref", [T("&#%d;" % ord(c), c) for c in chars_for("")] + [T("&#x%x;" % ord(c), c) for c in chars_for("")]),
                ("named-vtt", [T("&amp;", "&"), T("&lt;", "<"), T("&gt;", ">"), T("&lrm;", "\u200e"), T("&rlm;", "\u200f"),
                               T("&nbsp;", "\u00a0")]),
                ("named", NAMED_HTML), ("double", [d for d in DOUBLE]), ("wide", WIDE),
                ("literal", LITERAL + [T(">"), T("->"), T("a & b"), T("&"), T("AT&T"), T("&bogus;"), T("a > b"), T("< b"), T("a <")]),
                ("tags", tags), ("voice", voice), ("unknown", unknown)]
    lit = [T(c) for c in chars_for("") if not (fmt == "mdvd" and c == "|")]
    more = [T("&amp;"), T("&lt;"), T("&#60;"), T("a & b"), T("a < b"), T("--"), T("->"), T("..."), T("1"), T("&nbsp;x"),
            T("\u00e9"), T("\u266a"), T("\u8a9e"), T("\U0001F600"), T("42"), T("x 1")]
    if fmt == "srt":
        more += [T("|"), T("a|b"), T("{1}{2}x")]
    else:
        more += [T("|", "\n"), T("a|b", "a\nb"), T("a || b", "a\n\nb")]
        # a line whose text merely contains frame-like braces
        more += [T("x{1}"), T("{"), T("}{"), T("{}")]
    return [("literal", lit), ("more", more)]


SEP = {"dfxp": ["<br/>", "<br/>\n   ", "\n  <br/>\n  "], "sami": ["<br>", "<br/>\n  ", "\n <BR>\n "],
       "vtt": ["\n"], "srt": ["\n"], "mdvd": ["|"]}


def placements(fmt, t, i):
    """a construct in every position of a line"""
    a, b = W("a%d" % (i % 5)), W("b%d" % (i % 5))
    o = t.out
    if OPEN.search(t.src):
        b = " " + b
    return [(t.src, o), (a + t.src, a + o), (t.src + b, o + b), (a + t.src + b, a + o + b),
            (a + " " + t.src + " " + b, a + " " + o + " " + b)]


def start_hazard(fmt, src):
    """sources that mean something else at the start of a cue or line"""
    if fmt == "srt":
        return src.strip().isdigit()
    if fmt == "vtt":
        return "-->" in src
    return False


def scenarios(tier):
    out = []

    def add(name, fmt, cues, budget=400, **k):
        out.append(Scenario("%s/%s" % (fmt, name), lambda I, j: run(I, j, fmt, cues, **k), budget))

    for fmt in READERS:
        cons = constructs(fmt)
        allc = [t for _, ts in cons for t in ts]
        for nm, ts in cons:
            size = 8
            for k in range(0, len(ts), size):
                cues = []
                for i, t in enumerate(ts[k:k + size]):
                    pl = placements(fmt, t, i)
                    for q, (s, o) in enumerate(pl):
                        if not norm_ws(o):
                            continue
                        cues.append((s, lines_of(o)))
                    # between lines
                    sep = SEP[fmt][0]
                    if not start_hazard(fmt, t.src) and norm_ws(t.out):
                        cues.append((W("p") + sep + t.src + sep + W("q"), [W("p")] + lines_of(t.out) + [W("q")]))
                        cues.append((t.src + sep + t.src, lines_of(t.out) * 2))
                add("%s-%d" % (nm, k), fmt, cues)
        # every ordered pair of representative constructs, adjacent and separated
        rep = []
        for nm, ts in cons:
            n = {"ref": 0, "literal": 3, "tags": 40 if tier == "thorough" else 16, "double": 12, "wide": 2}.get(nm, 6)
            rep += ts[:n]
        rep += [t for t in allc if t.src in ("&#60;", "&#38;", "&#x26;", "&#59;", "&#x3c;", ";", "#", "/", "-", "!", "[")]
        rep = [t for t in rep if not (fmt in ("srt",) and t.src.isdigit())]
        for a in rep:
            cues = []
            for i, b in enumerate(rep):
                if "\n" in a.out + b.out and fmt in ("srt", "vtt"):
                    continue
                w1, w2, w3 = W("a"), " " * bool(OPEN.search(a.src)) + W("b"), " " * bool(OPEN.search(b.src)) + W("c")
                if hazard_pair(fmt, a.src, b.src):
                    continue
                cues.append((w1 + a.src + b.src + w3, lines_of(w1 + a.out + b.out + w3)))
                cues.append((w1 + a.src + w2 + b.src + w3, lines_of(w1 + a.out + w2 + b.out + w3)))
            for k in range(0, len(cues), 24):
                add("pair-%s-%d" % (a.src.replace(" ", "_").replace("/", "|")[:30], k), fmt, cues[k:k + 24])
        # source wrapping
        if fmt in ("dfxp", "sami"):
            for wi, nl in enumerate(["\n", "\n    ", " \n", "\n\n  ", "\n\t", " \n "]):
                cues = []
                it0, it1 = ("<span tts:fontStyle=\"italic\">", "</span>") if fmt == "dfxp" else ("<i>", "</i>")
                a, b, c, d = W("a"), W("b"), W("c"), W("d")
                br = "<br/>"
                pieces = [
                    ([a, nl, b], a + " " + b), ([a, nl, b, nl, c], "%s %s %s" % (a, b, c)),
                    ([nl, a, nl, b, nl], a + " " + b), ([nl, a, nl, b, nl, c, nl, d, nl], " ".join([a, b, c, d])),
                    ([nl, a, nl, br, nl, b, nl], a + "\n" + b), ([a, br, nl, b, nl, c], a + "\n" + b + " " + c),
                    ([nl, it0, a, it1, nl], a), ([nl, it0, nl, a, nl, it1, nl], a),
                    ([a, nl, it0, b, it1], a + " " + b), ([it0, a, it1, nl, b], a + " " + b),
                    ([it0, a, it1, nl, it0, b, it1], a + " " + b), 
                    ([a, it0, nl, b, it1], a + " " + b), ([a, it0, b, nl, c, it1, d], a + b + " " + c + d),
                    ([nl, a, nl, it0, nl, b, nl, it1, nl, c, nl], " ".join([a, b, c])),
                    ([nl, it0, a, br, nl, b, it1, nl, br, nl, c], "\n".join([a, b, c])),
                    ([a, nl, "&amp;", nl, b], a + " & " + b), ([a, nl, "&lt;" + b], a + " <" + b),
                    ([a, nl, "<!-- x -->", nl, b], a + " " + b), ([nl, "<!-- x -->", nl, b], b),
                    ([a + " ", it0, b, it1, " " + c], " ".join([a, b, c])),
                    ([a, it0 + " ", b, " " + it1, c], " ".join([a, b, c])),
                    ([a, " ", it0, it1, " ", c], a + " " + c), ([a, it0, " ", it1, c], a + " " + c),
                    ([it0, a, it1, " ", it0, b, it1], a + " " + b),
                ]
                if fmt == "dfxp":
                    # HTML drops a newline before an end tag, XML does not
                    add("wrap-endtag-%d" % wi, fmt, [("".join([it0, a, nl, it1, b]), [a + " " + b])])
                    add("wrap-empty-%d" % wi, fmt, [("".join([a, it0, nl, it1, c]), [a + " " + c])])
                for k in range(0, len(pieces), 9):
                    add("wrap-%d-%d" % (wi, k), fmt, [("".join(s), lines_of(o)) for s, o in pieces[k:k + 9]])
                add("wrap-crlf-%d" % wi, fmt, [("".join(s), lines_of(o)) for s, o in pieces], crlf=True)
            if fmt == "sami":
                add("html5-name", fmt, [("&starf;", ["\u2605"])])
            for si, sep in enumerate(SEP[fmt]):
                for n in (2, 3, 4):
                    ls = [W("l%d" % i) for i in range(n)]
                    add("lines-%d-%d" % (si, n), fmt, [(sep.join(ls), ls)])
                add("blank-lines-%d" % si, fmt, [(W("a") + sep + sep + W("b"), [W("a"), "", W("b")]),
                                                 (sep + W("a") + sep, [W("a")])])
            if fmt == "dfxp":
                a, b = W("a"), W("b")
                add("nested-div-p", fmt, [("<span><span>%s</span> <span>%s</span></span>" % (a, b), [a + " " + b]),
                                          ("<span>%s<span>%s</span></span>%s" % (a, b, a), [a + b + a])])
        else:
            for n in (1, 2, 3, 5):
                for crlf in (False, True):
                    ls = [W("l%d" % i) for i in range(n)]
                    src = SEP[fmt][0].join(ls)
                    add("lines-%d%s" % (n, "-crlf" if crlf else ""), fmt, [(src, ls), (src, ls)], crlf=crlf)
            if fmt in ("vtt", "mdvd"):
                # a line of spaces is a line of the cue
                for si, sp in enumerate([" ", "   ", "\t", "\u00a0", " \t "] + (["&nbsp;"] if fmt == "vtt" else [])):
                    nl, a, b = SEP[fmt][0], W("a"), W("b")
                    add("spaces-%d" % si, fmt, [(a + nl + sp + nl + b, [a, b]), (a + nl + sp + nl + sp + nl + b, [a, b]),
                                                (sp + nl + b, [b]), (a, [a])])
            ls = [W("a"), W("b")]
            add("trim", fmt, [("  %s  %s  " % (ls[0], SEP[fmt][0]) + ls[1] + " ", ls)])
            if fmt in ("srt", "mdvd"):
                pr = frozenset(c for c in S.UNIVERSE if c.isprintable() and c != " " and (c != "|" or fmt != "mdvd"))
                p, q = S.satom("<any %s>" % fmt, pr), S.satom("<any2 %s>" % fmt, pr)
                add("any-printable", fmt, [(W("w") + p + W("v"), [W("w") + p + W("v")]),
                                           (W("w") + SEP[fmt][0] + p + W("u") + q, [W("w"), p + W("u") + q])])
    return out


OPEN = re.compile(r"(&#?\w*|<)$")


def hazard_pair(fmt, a, b):
    """adjacent constructs whose concatenation is a different construct"""
    s = a + b
    if fmt == "vtt":
        # a literal '<' consumes what follows up to '>'
        for x, y in ((a, b),):
            if x.count("<") > x.count(">"):
                return True
        if a.endswith("&") or (a.endswith("&") and b[:1] == "#"):
            return True
    if fmt in ("sami", "dfxp"):
        if OPEN.search(a) or a.endswith("<"):
            return True
        if "]]>" in s and "<![CDATA[" not in s:
            return True
    return False
