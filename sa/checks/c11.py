"""C11: italic, bold and underline spans survive conversion and stay balanced."""
import itertools

from ..lib import *
from .. import refs as R
from .. import strs as S
from ..cea import *
from ..cea import Stream
RU = {"2": RU2, "3": RU3, "4": RU4}

PROP = "C11"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of the DFXP, SAMI and WebVTT writers and the DFXP and
SAMI readers on caption sets whose captions hold every arrangement of text,
break and (non-nested) span nodes up to a length - spans of italics, bold,
underline and their combinations given directly, through classes, or mixed with
other attributes - with symbolic words as text.  In every written document the
span / tag markup must be balanced and properly nested and an independent
parser must find the same flags on the same characters; the set read back must
have the same flagged characters in balanced style nodes, over DFXP and SAMI
round trips and both cross conversions.  Documents with nested, unclosed and
misplaced markup and SCC streams with every sequence of italic codes (the
latter also written to DFXP, SAMI and WebVTT) must be read into captions with
balanced style nodes."""
ASSUMPTIONS = ["arrangements up to seven nodes; longer captions are concatenations",
               "flags of white space are not compared",
               "a caption's own style (Caption.style) carries no flags"]
MINIMUM = 100
FLAGS = ("italics", "bold", "underline")
SEC = 10 ** 6
# no n: words in a row must not read "no closed captioning available"
LETTERS_ = frozenset("abcdefghijklmopqrstuvwxyzABCDEFGHIJKLMOPQRSTUVWXYZ")


# ---------------------------------------------------------------- flags of a set
def resolve(I, cs, content, depth=0):
    """effective style of a style node's content (host dict), through classes"""
    out = {}
    if content is None or depth > 4:
        return out
    d = {}
    for k in I.iterate(content):
        d[I.s(k) or k] = I.getitem(content, k)
    names = []
    if "classes" in d:
        names = [I.s(x) for x in I.iterate(d["classes"])]
    elif "class" in d:
        names = [I.s(d["class"])]
    for n in names:
        sub = I.callm(cs, "get_style", n)
        out.update(resolve(I, cs, sub, depth + 1))
    for k in FLAGS:
        if k in d:
            out[k] = I.truth(d[k])
    return out


def flags(I, cs, content):
    return frozenset(k for k, v in resolve(I, cs, content).items() if v)


def model(I, j, cs, cap, what):
    """[(visible character, flags)] of a caption; checks the balance"""
    out, stack = [], []
    for n in I.iterate(I.getattr(cap, "nodes")):
        t = node_type(I, n)
        if t == "TEXT":
            st = frozenset().union(*stack) if stack else frozenset()
            s = I.s(I.getattr(n, "content"))
            out += [(I.canon(c), st) for c in s if S.is_atom(c) or not (c.isspace() or c == "\xa0")]
        elif t == "STYLE":
            f = flags(I, cs, I.getattr(n, "content"))
            if I.truth(I.getattr(n, "start")):
                stack.append(f)
            elif not stack:
                j.fail("node-balance", "%s: a style node closes what is not open" % what)
                return None
            else:
                g = stack.pop()
                if not j.true("node-balance", f == g, "%s: the node that closes %s is of %s" % (what, sorted(g), sorted(f))):
                    return None
    if not j.true("node-balance", not stack, "%s: %s is not closed" % (what, [sorted(f) for f in stack])):
        return None
    return out


def only(seq, keep):
    return [(c, frozenset(st) & keep) for c, st in seq]


def show(seq):
    out = ""
    for c, st in seq:
        out += "%s[%s]" % (S.show(c), "".join(sorted(f[0] for f in st))) if st else S.show(c)
    return out


def compare(j, rule, got, want, what):
    if got == want:
        return j.proved(rule, what)
    a, b = [c for c, _ in got], [c for c, _ in want]
    return j.fail(rule if a == b else rule + "-text", "%s: %s, must be %s" % (what, show(got), show(want)))


# ------------------------------------------------------------------- documents
CARRIES = {"DFXPWriter": frozenset(["italics"]), "LegacyDFXPWriter": frozenset(["italics"]),
           "SinglePositioningDFXPWriter": frozenset(["italics"]), "SAMIWriter": frozenset(FLAGS), "WebVTTWriter": frozenset(FLAGS)}


def sami_flags(d, p, attrs_of):
    return p


def document(I, j, w, doc, want, what):
    """flags in the document itself; want: one list per caption"""
    keep = CARRIES[w]
    try:
        if w == "SAMIWriter":
            d = R.sami(doc)
            j.true("balanced", d.balanced, "%s: span markup is not balanced" % what)
            got = [R.flagged(p.lines) for _, ps in d.syncs for p in ps]
            got = [g for g in got if g]
            want = [x for x in want if x]
        elif w == "WebVTTWriter":
            cues = R.vtt(doc)
            for c in cues:
                j.true("balanced", c.balanced, "%s: tags of a cue are not balanced" % what)
            got, last = [], None
            for c in cues:                      # cues of one caption share their times
                key = (str(c.start), str(c.end))
                f = R.flagged(c.lines)
                if key == last:
                    got[-1] += f
                else:
                    got.append(f)
                last = key
            got = [g for g in got if g]
            want = [x for x in want if x]
        else:
            d = R.dfxp(doc)                     # well-formed, so balanced
            j.true("balanced", True, what)
            got = [R.flagged(p.lines) for _, ps, _ in d.divs for p in ps]
            for _, ps, _ in d.divs:
                for p in ps:
                    for e in p.el.iter():
                        if isinstance(e.tag, str) and e is not p.el:
                            j.true("balanced", e.tag in ("{%s}span" % R.TTNS, "{%s}br" % R.TTNS), "%s: element %s in a paragraph" % (what, e.tag))
    except R.Bad as e:
        return j.fail("balanced", "%s: %s" % (what, e))
    if not j.true("document-captions", len(got) == len(want), "%s: %d cues with text for %d captions" % (what, len(got), len(want))):
        return
    for k, (g, x) in enumerate(zip(got, want)):
        compare(j, "document-flags", [(I.canon(c), s) for c, s in only(g, keep)], only(x, keep), "%s caption %d" % (what, k + 1))


def reread(I, j, w, doc, want, keep, what):
    cs = read(I, "SAMIReader" if w == "SAMIWriter" else "DFXPReader", doc)
    l = langs(I, cs)[0]
    got = [model(I, j, cs, c, "%s caption %d" % (what, k + 1)) for k, c in enumerate(caps(I, cs, l))]
    want = [x for x in want if x]
    if not j.true("reread-captions", len(got) == len(want), "%s: %d captions read back for %d" % (what, len(got), len(want))):
        return cs
    for k, (g, x) in enumerate(zip(got, want)):
        if g is not None:
            compare(j, "reread-flags", only(g, keep), only(x, keep), "%s caption %d" % (what, k + 1))
    return cs


def chain(I, j, cs, want, ws, what):
    """write / read along the writers of a chain"""
    keep = frozenset(FLAGS)
    for k, w in enumerate(ws):
        keep = keep & CARRIES[w]
        doc = I.s(write(I, w, cs))
        here = "%s %s" % (what, ">".join(ws[:k + 1]))
        document(I, j, w, doc, [only(x, keep) for x in want], here)
        if w == "WebVTTWriter":
            return
        cs = reread(I, j, w, doc, want, keep, here)


CHAINS = [("DFXPWriter", "DFXPWriter"), ("SAMIWriter", "SAMIWriter"), ("DFXPWriter", "SAMIWriter", "DFXPWriter"),
          ("SAMIWriter", "DFXPWriter", "SAMIWriter"), ("WebVTTWriter",), ("LegacyDFXPWriter",), ("SinglePositioningDFXPWriter",),
          ("DFXPWriter", "WebVTTWriter"), ("SAMIWriter", "WebVTTWriter")]


STYLES = {"s1": {"italics": True}, "s2": {"bold": True}, "s3": {"color": "red"}, "s4": {"italics": True, "underline": True},
          "s5": {"class": "s1", "color": "blue"}}


def build(I, specs, lay=None):
    cl = []
    for i, sp in enumerate(specs):
        nodes = []
        for n in sp:
            L = None
            if isinstance(n, tuple) and n[0] == "@":       # ("@", layout number, node)
                L, n = lay(n[1]), n[2]
            if n == "b":
                nodes.append(break_node(I, L))
            elif isinstance(n, str):
                nodes.append(text_node(I, n, L))
            else:
                nodes.append(style_node(I, n[0], {k: I.mklist(v) if isinstance(v, list) else v for k, v in n[1].items()}, L))
        cl.append(caption(I, i * 2 * SEC, i * 2 * SEC + SEC, nodes))
    return capset(I, [("en-US", cl)], styles=STYLES)


def lay(I):
    def f(k):
        return None if k is None else layout(I, origin=((10 + 10 * k, "%"), (50 + 10 * k, "%")))
    return f


def run(I, j, specs, ch, what):
    cs = build(I, specs, lay(I))
    want = [model(I, j, cs, c, what) for c in caps(I, cs, "en-US")]
    if None in want:
        return
    chain(I, j, cs, want, ch, what)


# ------------------------------------------------------------------ arrangements
KINDS = {"i": {"italics": True}, "b": {"bold": True}, "u": {"underline": True}, "ib": {"italics": True, "bold": True},
         "ibu": {"italics": True, "underline": True, "bold": True}, "c": {"color": "red"}, "s1": {"class": "s1"},
         "cs1": {"classes": ["s1"], "class": "s1"}, "s3i": {"class": "s3", "italics": True}, "s2": {"class": "s2"},
         "none": {}, "nope": {"class": "nope"}, "off": {"italics": False}, "fam": {"font-family": 'Arial, "X Y"', "italics": True},
         "size": {"font-size": "12px", "underline": True}, "s4": {"classes": ["s4"], "class": "s4"}, "s5": {"class": "s5"},
         "two": {"classes": ["s3", "s1"], "class": "s3"}, "align": {"italics": True, "text-align": "left"}}


def arrangements(n, kinds, texts=("T",)):
    """sequences of n of: text, break, opening and closing of a span; spans are
    closed and never nested"""
    out = []

    def go(seq, open_):
        left = n - len(seq)
        if left == 0:
            if open_ is None:
                out.append(tuple(seq))
            return
        if open_ is not None and left < 1:
            return
        for t in texts:
            go(seq + [t], open_)
        go(seq + ["b"], open_)
        if open_ is None:
            if left >= 2:
                for k in kinds:
                    go(seq + [("o", k)], k)
        else:
            go(seq + [("x", open_)], None)
    go([], None)
    return out


def spec(seq, tag=""):
    out, k = [], 0
    for x in seq:
        if x == "b":
            out.append("b")
        elif isinstance(x, str):
            w = word("w%s%d" % (tag, k), LETTERS_)
            k += 1
            out.append({"T": w, " T": " " + w, "T ": w + " ", " ": " ", "": "", "<": "<" + w + "&"}[x])
        else:
            out.append((x[0] == "o", KINDS[x[1]]))
    return out


def has_text(seq):
    return any(isinstance(x, str) and x != "b" and x.strip() for x in seq)


# ---------------------------------------------------------------------- readers
def balance_only(I, j, rname, doc, what):
    cs = read(I, rname, doc)
    for l in langs(I, cs):
        for k, c in enumerate(caps(I, cs, l)):
            model(I, j, cs, c, "%s caption %d" % (what, k + 1))


def sami_inner(inner):
    return ('<SAMI><HEAD><STYLE TYPE="text/css"><!-- .ENCC {Name: x; lang: en-US;} .it {font-style: italic;} --></STYLE></HEAD><BODY>'
            '<SYNC start="1000"><P class="ENCC">%s</P></SYNC><SYNC start="2000"><P class="ENCC">z</P></SYNC></BODY></SAMI>' % inner)


def dfxp_inner(inner):
    return ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><styling>'
            '<style xml:id="it" tts:fontStyle="italic"/></styling></head><body><div><p begin="1s" end="2s">%s</p>'
            '<p begin="3s" end="4s">z</p></div></body></tt>' % inner)


def reader_doc(I, j, rname, inner, want, what):
    cs = read(I, rname, (sami_inner if rname == "SAMIReader" else dfxp_inner)(inner))
    cl = caps(I, cs, langs(I, cs)[0])
    got = [model(I, j, cs, c, what) for c in cl]
    if want is not None and got and got[0] is not None:
        compare(j, "read-flags", got[0], want, what)


# -------------------------------------------------------------------------- SCC
def tok(st, t, row):
    """sends one token; the row afterwards"""
    if t == "w":
        for c in "ab":
            st.ch(par(ord(c)), c)
    elif t == "_":
        st.space()
    elif t == ".":
        st.punct()
    elif t == "I":
        st.ctl(mid(7))
    elif t == "U":
        st.ctl(mid(7, True))
    elif t == "P":
        st.ctl(mid(0))
    elif t == "C":
        st.ctl(mid(3))
    elif t == "b":
        st.ctl(BS)
    elif t == "r":
        st.ctl(CR)
    elif t in "nit":
        row = min(row + 1, 15)
        st.ctl(pac(row, 4 if t == "t" else 0, t == "i"))
        if t == "t":
            st.ctl(tab(1))
    return row


def scc(I, j, mode, toks, it, double, onward):
    st = Stream(I, double, double)
    what = "SCC %s %s%s" % (mode, "it " if it else "", "".join(toks))
    for k in range(2):
        st.begin("00:00:%02d:00" % (1 + 4 * k))
        row = 11
        if mode == "pop":
            st.ctl(ENM)
            st.ctl(RCL)
        elif mode == "paint":
            st.ctl(RDC)
        else:
            row = 15
            st.ctl(RU[mode])
            st.ctl(CR)
        st.ctl(pac(row, 0, it))
        st.scr.pac(row, 0, it)
        for t in toks:
            row = tok(st, t, row)
        if mode == "pop":
            st.ctl(EOC)
        st.flush()
    st.begin("00:00:12:00").ctl(EDM)
    try:
        cs = read(I, "SCCReader", st.document())
    except PyExc as e:
        names = [c.name for c in e.inst.cls.mro]
        j.true("scc-error", "CaptionReadError" in names, "%s: %s" % (what, names[0]))
        return
    cl = caps(I, cs, "en-US")
    want = [model(I, j, cs, c, "%s caption %d" % (what, k + 1)) for k, c in enumerate(cl)]
    if None in want or not onward:
        return
    times_ = [tuple(lift(numval(I, I.getattr(c, a))).p.cval() for a in ("start", "end")) for c in cl]
    if len(set(times_)) != len(times_):
        return                                   # captions shown together are one cue run
    for w in ("DFXPWriter", "SAMIWriter", "WebVTTWriter"):
        document(I, j, w, I.s(write(I, w, cs)), want, what + " " + w)


# -------------------------------------------------------------------- scenarios
SAMI_INNER = [
    "<i>a</i>b", "<b>a</b> <u>b</u>", "<i>a", "a</i>b", "<i>a<b>b</i>c</b>", "<i><b>a</b></i>", "<i>a<br>b</i>", "<i/>a</i>b", "<i></i>a",
    "<span style=\"font-style:italic\">a</span>b", "<span class=\"it\">a</span>", "<span>a<span style=\"color:red\">b</span>c</span>", "<span style=\"x\">a",
    "<div style=\"font-weight:bold\">a</div>b", "<font color=red><i>a</i></font>", "<span style=\"text-decoration:underline;font-style:italic\">a<br/>b</span>c",
    "<i>a<p>b", "<i>a</b>b</i>", "<i><i>a</i></i>", "<u>a<span>b</u>c</span>", "</span></i>a", "<i>a&amp;<b>b", "<!-- <i> -->a", "<i>a<!-- </i> -->b</i>",
    "<I>a</I>", "<i style=\"x:y\" class=q>a</i>", "<span id=\"ID\">a</span>", "<i> </i>a", "<b><br></b>a", "<q><i>a</q></i>"]
DFXP_INNER = [
    "<span tts:fontStyle=\"italic\">a</span>b", "<span style=\"it\">a</span>b", "<span>a</span>", "<span tts:fontStyle=\"italic\">a<span tts:color=\"red\">b</span>c</span>",
    "<span tts:fontStyle=\"italic\">a<br/>b</span>c", "<span tts:fontWeight=\"bold\"/>a", "<span style=\"nope\">a</span>", "<span style=\"it s2\">a</span>",
    "a<!-- <span> -->b", "<metadata><span>a</span></metadata>b", "<span tts:fontStyle=\"italic\">a", "a</span>b", "<span><i>a</i></span>",
    "<span tts:textDecoration=\"underline overline\">a</span>b", "<span tts:fontStyle=\"normal\">a</span>b", "<span tts:fontStyle=\"italic\"> </span>a",
    "<![CDATA[<span>]]>a", "<span tts:fontStyle=\"italic\"><span tts:fontStyle=\"italic\">a</span></span>", "<span tts:fontStyle=\"italic\">a</p><p begin=\"2s\" end=\"3s\">b</span>"]
IT = frozenset(["italics"])
READ_WANT = {"<i>a</i>b": [("a", IT), ("b", frozenset())], "<b>a</b> <u>b</u>": [("a", frozenset(["bold"])), ("b", frozenset(["underline"]))],
             "<i>a<br>b</i>": [("a", IT), ("b", IT)], "<i></i>a": [("a", frozenset())], "<I>a</I>": [("a", IT)],
             "<span style=\"font-style:italic\">a</span>b": [("a", IT), ("b", frozenset())], "<span class=\"it\">a</span>": [("a", IT)],
             "<div style=\"font-weight:bold\">a</div>b": [("a", frozenset(["bold"])), ("b", frozenset())],
             "<span tts:fontStyle=\"italic\">a</span>b": [("a", IT), ("b", frozenset())], "<span style=\"it\">a</span>b": [("a", IT), ("b", frozenset())],
             "<span tts:fontStyle=\"italic\">a<br/>b</span>c": [("a", IT), ("b", IT), ("c", frozenset())], "<span tts:fontStyle=\"italic\"> </span>a": [("a", frozenset())],
             "<span tts:textDecoration=\"underline overline\">a</span>b": [("a", frozenset(["underline"])), ("b", frozenset())],
             "<span tts:fontStyle=\"normal\">a</span>b": [("a", frozenset()), ("b", frozenset())],
             "<font color=red><i>a</i></font>": [("a", IT)], "<i> </i>a": [("a", frozenset())]}


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def batch(name, seqs, chains=CHAINS, size=8, layouts=None):
        seqs = [s for s in seqs if has_text(s)]
        for i in range(0, len(seqs), size):
            sp = [place(spec(s, "abcdefghijklmnop"[k]), layouts) for k, s in enumerate(seqs[i:i + size])]
            for ch in chains:
                nm = ">".join(w.replace("Writer", "") for w in ch)
                out.append(Scenario("%s/%d/%s" % (name, i // size, nm), lambda I, j, a=(sp, ch, name): run(I, j, *a), 120))

    def place(sp, layouts):
        if layouts is None:
            return sp
        # every maximal piece outside spans, and every span, on a layout of the list
        res, k, depth = [], 0, 0
        for n in sp:
            if isinstance(n, tuple) and n[0]:
                k += depth == 0
                depth += 1
            res.append(("@", layouts[k % len(layouts)], n))
            if isinstance(n, tuple) and not n[0]:
                depth -= 1
                k += depth == 0
        return res
    for n in (3, 4, 5) + ((6,) if thorough else ()):
        batch("seq%d" % n, arrangements(n, ["i"]))
    batch("kinds3", arrangements(3, list(KINDS)))
    batch("kinds4", arrangements(4, ["b", "u", "ib", "c", "cs1", "none", "s3i", "ibu"]))
    batch("spaces", [s for n in (3, 4) for s in arrangements(n, ["i"], ("T", " T", "T ", " ")) if any(x in s for x in (" T", "T ", " "))])
    batch("texts", [s for n in (3, 4) for s in arrangements(n, ["i", "ibu"], ("<", ""))])
    pairs = [(("o", a), "T", ("x", a)) + mid_ + (("o", b), "T", ("x", b)) for a in KINDS for b in KINDS for mid_ in ((), ("b",), ("T",))]
    batch("pairs", pairs if thorough else [p for i, p in enumerate(pairs) if i % 5 == 0 or p[0][1] in "ibu" and p[-1][1] in "ibu"])
    six = arrangements(6, ["i"])
    batch("seq6", six if thorough else six[::7])
    mixed = [s for s in arrangements(7, ["i", "b"]) if s.count("T") >= 2 and len({x[1] for x in s if not isinstance(x, str)}) == 2]
    batch("mixed7", mixed[::4] if thorough else mixed[::60])
    for ls in ([0], [0, 1], [0, None], [None, 0], [0, 1, 2]):
        two = [s for n in (3, 4, 5) for s in arrangements(n, ["i"])] + pairs[:12]
        batch("layout%s" % "".join(map(str, ls)), two if thorough else two[::4], layouts=ls)
    for r, docs in (("SAMIReader", SAMI_INNER), ("DFXPReader", DFXP_INNER)):
        for d in docs:
            out.append(Scenario("read/%s/%s" % (r, d), lambda I, j, a=(r, d, READ_WANT.get(d), d): reader_doc(I, j, *a), 60))
    alpha = "wI_P.niUbt"
    for n in (1, 2, 3, 4):
        for toks in itertools.product(alpha, repeat=n):
            key = sum((i + 1) * ord(c) for i, c in enumerate(toks))
            if n == 4 and (not thorough or key % 11) or n == 3 and not thorough and key % 5:
                continue
            for mode in ("pop", "paint", "2", "3") if thorough or n < 3 else (["pop", "paint", "2"][key % 3],):
                t = list(toks) + ["w"]
                out.append(Scenario("scc/%s/%s" % (mode, "".join(toks)),
                                    lambda I, j, a=(mode, t, bool(key % 2), bool(key % 3), True): scc(I, j, *a), 60))
    return out
