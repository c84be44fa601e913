"""C07: DFXP output is well-formed XML and internally consistent."""
import itertools

from ..lib import *
from .. import refs as R
from .. import strs as S
from .c03 import CORE, SNIPPETS
from .c11 import arrangements, spec as span_spec, KINDS

PROP = "C07"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of the three DFXP writers on caption sets whose texts,
style values, style names, class references and language codes are templates of
symbolic words around every ordered pair and triple of XML metacharacters and
every printable ASCII character (also at the first position of a name), whose
style tables refer to each other in every small graph and share names with
regions, whose nodes take every arrangement of text, breaks and (also nested)
spans, whose layouts sit at every level in every combination, under the writer
options, and on the sets that the readers return for documents with the same
features.  The abstract output is parsed by a strict XML 1.0 parser: root and
namespaces, one div per language with that language, one p with begin and end
per caption (per run of concurrent captions), every style and region reference
resolving to exactly one definition, unique ids, every region referenced."""
ASSUMPTIONS = ["metacharacters are enumerated in pairs and triples; symbolic words stand for letters",
               "up to three languages, six nodes in a caption, four styles in a table"]
MINIMUM = 200
SEC = 10 ** 6
WRITERS = ["DFXPWriter", "SinglePositioningDFXPWriter", "LegacyDFXPWriter"]
MERGES = {"SinglePositioningDFXPWriter", "LegacyDFXPWriter"}


def make(I, w, opts):
    if w == "LegacyDFXPWriter":
        return I.call(ext(I, w), [], {})
    kw = dict(opts or {})
    if w == "SinglePositioningDFXPWriter" and "default_positioning" in kw:
        kw["default_positioning"] = kw["default_positioning"](I)
    return I.call(ext(I, w), [], kw)


def runs(times_):
    """concurrent captions, one after the other, are one run"""
    out = []
    for t in times_:
        if not out or out[-1] != t:
            out.append(t)
    return out


def audit(I, j, w, doc, want, what, force=""):
    """want: [(language, [(start, end) of each caption])]"""
    try:
        d = R.dfxp(doc)
    except R.Bad as e:
        return j.fail("well-formed", "%s: %s" % (what, e))
    j.true("well-formed", True, what)
    if force:
        want = [x for x in want if x[0] == force]
    got = [l for l, _, _ in d.divs]
    if not j.true("divs", got == [l for l, _ in want], "%s: the divs are of %s, the languages are %s" % (
            what, [S.show(str(l)) for l in got], [S.show(l) for l, _ in want])):
        return
    for (l, ps, el), (_, ts) in zip(d.divs, want):
        n = len(runs(ts)) if w in MERGES else len(ts)
        j.true("paragraphs", len(ps) == n, "%s: %d paragraphs in the div of %s, must be %d" % (what, len(ps), S.show(l), n))
        for p in ps:
            j.true("begin-end", bool(p.start) and bool(p.end), "%s: a paragraph has begin %r and end %r" % (what, p.start, p.end))
    if len(set(d.ids)) != len(d.ids):
        j.fail("unique-ids", "%s: ids are %s" % (what, [S.show(x) for x in d.ids]))
    else:
        j.true("unique-ids", True, what)
    sid = [i for i, _, _ in d.styles]
    rid = [i for i, _, _ in d.regions]
    for ref, e in d.stylerefs:
        j.true("style-reference", sid.count(ref) == 1, "%s: style=%r of %s has %d definitions" % (
            what, S.show(ref), e.tag.split("}")[-1], sid.count(ref)))
    for ref, e in d.regionrefs:
        j.true("region-reference", rid.count(ref) == 1, "%s: region=%r of %s has %d definitions" % (
            what, S.show(ref), e.tag.split("}")[-1], rid.count(ref)))
    refs = {r for r, _ in d.regionrefs}
    for i in rid:
        j.true("region-used", i in refs, "%s: nothing refers to region %r" % (what, S.show(str(i))))
    return d


def times_of(I, cs):
    out = []
    for l in langs(I, cs):
        ts = []
        for c in caps(I, cs, l):
            ts.append(tuple(numval(I, I.getattr(c, a)).p.cval() for a in ("start", "end")))
        out.append((I.s(l), ts))
    return out


def write_all(I, j, cs, what, opts=None, force="", ws=WRITERS):
    want = times_of(I, cs)
    for w in ws:
        wr = make(I, w, opts)
        doc = I.s(I.callm(wr, "write", cs, **({"force": force} if force else {})))
        if doc is None:
            j.fail("well-formed", "%s: the output is not text" % w)
            continue
        audit(I, j, w, doc, want, "%s %s" % (w, what), force)


def content(I, d):
    return {k: I.mklist(v) if isinstance(v, list) else v for k, v in d.items()}


def nodes(I, sp, lays=None):
    out = []
    for n in sp:
        L = None
        if isinstance(n, tuple) and n[0] == "@":
            L, n = lays[n[1]], n[2]
        if n == "b":
            out.append(break_node(I, L))
        elif isinstance(n, str):
            out.append(text_node(I, n, L))
        else:
            out.append(style_node(I, n[0], content(I, n[1]), L))
    return out


def api_set(I, langs_, styles=None):
    """langs_: [(code, [(nodes, style)])]"""
    lm = []
    for l, cl in langs_:
        lm.append((l, [caption(I, k * 2 * SEC, k * 2 * SEC + SEC, nodes(I, ns), content(I, st or {})) for k, (ns, st) in enumerate(cl)]))
    return capset(I, lm, styles={k: content(I, v) for k, v in (styles or {}).items()})


def sets(I, j, specs, opts=None, force=""):
    for what, langs_, styles in specs:
        write_all(I, j, api_set(I, langs_, styles), what, opts, force)


# -------------------------------------------------------------------- strings
def spaced(parts, pre="w"):
    out = word(pre + "0")
    for i, p in enumerate(parts):
        out += p + word("%s%d" % (pre, i % 7 + 1))
    return out


ASCII = "".join(chr(i) for i in range(32, 127))
OTHER = "\u00e9\u00d7\u00f7\u00b7\u2014\u201c\u8a9e\u0301\u203f\ufffd\u00a0\u200b\u0410\u0660\U0001f600\u00aa\u0e01\u2160\u3007"
NAMES = ["", " ", "a b", " a", "a ", "1a", "-a", ".a", "a:b", "a.b", "a-b", "a_b", "_a", "a&b", "a<b", "a>b", 'a"b', "a'b", "\"'", "&amp;", "&quot;",
         "a\tb", "a\nb", "_x0020_", "a_x0020_b", "_x_", "__x20_", "x20", "\u00e9", "\u8a9e", "a\u00b7", "\u0301a", "bottom", "r0", "r1", "default", "p", "style",
         "#a", "a,b", "a;b", "%s", "{}", "a/b", "\\", "a=b", "]]>", "-->", "<!--", "A", "a"]


def names_styles(I, j, names, kind):
    """style tables and references with the given names"""
    table = {n: {"color": "red"} for n in names}
    caps_ = []
    for n in names:
        if kind == "class":
            c = {"class": n}
        elif kind == "classes":
            c = {"classes": [n, "other"], "class": n}
        else:
            c = {"classes": ["missing"] + list(names), "class": n}
        caps_.append(([(True, c), word("w"), (False, c), "b", word("v")], {"class": n} if kind != "classes" else c))
    write_all(I, j, api_set(I, [("en", caps_)], dict(table, other={"class": names[0], "italics": True})), "with styles %s" % [n for n in names])
    # references without definitions
    write_all(I, j, api_set(I, [("en", caps_)], {"zz": {"color": "red"}}), "with references to undefined %s" % [n for n in names])
    write_all(I, j, api_set(I, [("en", caps_)], {n: {} for n in names}), "with empty styles %s" % [n for n in names])


KEYS = ["color", "font-family", "font-size", "text-align", "display-align"]


def values(I, j, vals):
    for v in vals:
        st = {k: v for k in KEYS}
        ns = [(True, dict(st)), word("w"), (False, dict(st)), word("x"), (True, {"color": v, "class": "c"}), word("y"), (False, {"color": v, "class": "c"})]
        cs = api_set(I, [("en", [(ns, st), (ns, {"color": v, "class": "c"})])], {"c": dict(st), "d": {"font-family": v}})
        write_all(I, j, cs, "with style values %r" % S.show(v))


def languages(I, j, codes):
    cs = api_set(I, [(c, [([word("w")], None)]) for c in codes])
    write_all(I, j, cs, "of languages %s" % [S.show(c) for c in codes])
    for c in codes:
        if c:
            write_all(I, j, cs, "of languages %s, force=%s" % ([S.show(c) for c in codes], S.show(c)), None, c)


def texts(I, j, ts):
    cs = api_set(I, [("en", [([t], None) for t in ts] + [([t, "b", u, (True, {"italics": True}), t, (False, {"italics": True}), u], None)
                                                         for t, u in zip(ts, ts[1:] + ts[:1])])])
    write_all(I, j, cs, "with texts %s" % [S.show(t)[:12] for t in ts][:3])


# --------------------------------------------------------------------- graphs
def graph(I, j, edges_, names, attrs):
    table = {}
    for i, n in enumerate(names):
        st = {"color": "red"} if attrs >> i & 1 else {}
        if edges_[i] is not None:
            st["class"] = edges_[i]
            if i % 2:
                st["classes"] = [edges_[i]]
        table[n] = st
    caps_ = [([(True, {"class": n}), word("w"), (False, {"class": n})], {"class": n}) for n in names]
    write_all(I, j, api_set(I, [("en", caps_)], table), "with styles %s" % table)


# --------------------------------------------------------------------- layouts
LAYS = {"A": dict(origin=((10, "%"), (20, "%"))), "B": dict(origin=((10, "%"), (20, "%")), extent=((30, "%"), (40, "%"))),
        "C": dict(align=("left", "top")), "D": dict(align=("start", "bottom")), "E": {}, "F": dict(pad={"before": (5, "%")}),
        "G": dict(raw="line:1"), "H": dict(origin=((95, "%"), (97, "%"))), "P": dict(origin=((100, "px"), (50, "px")), extent=((200, "px"), (30, "px"))), "K": dict(origin=((4, "c"), (5, "c"))),
        None: None}


def lay(I, n):
    if n is None:
        return None
    d = LAYS[n]
    return layout(I, **d)


def positioned(I, j, combos, opts, ws=WRITERS, force="", styles=None):
    for combo in combos:
        G, L1, L2, C1, N1, N2, S1 = combo
        lys = {k: lay(I, k) for k in LAYS}

        def cap_(k, C_, n1, n2, s1):
            sp = [("@", n1, word("w")), ("@", s1, (True, {"italics": True, "text-align": "left"})), ("@", n2, word("v")), ("@", n2, "b"),
                  ("@", s1, (False, {"italics": True, "text-align": "left"})), ("@", n1, word("u"))]
            return caption(I, k * 2 * SEC, k * 2 * SEC + SEC, nodes(I, sp, lys), {}, lys[C_])
        cs = capset(I, [("en", [cap_(0, C1, N1, N2, S1), cap_(1, None, N2, N1, None)]), ("fr", [cap_(0, None, None, S1, N1)])],
                    styles=styles or {}, layout=lys[G], lang_layout={"en": lys[L1], "fr": lys[L2]})
        if opts and opts.get("_legacy") is False:
            pass
        write_all(I, j, cs, "with layouts %s, options %s" % ("".join(str(x or "-") for x in combo), {k: v for k, v in (opts or {}).items() if k != "default_positioning"}),
                  opts, force, ws)


# ------------------------------------------------------------------ concurrency
# start and end: the first four share one of them with another
SPANS = [(0, 2), (0, 3), (1, 3), (3, 4), (5, 6)]


def concurrent(I, j, pat):
    """pat: indices of times; equal neighbours are concurrent"""
    lm = []
    for l, ps in (("en", pat), ("fr", pat[::-1])):
        lm.append((l, [caption(I, SPANS[k][0] * SEC, SPANS[k][1] * SEC, nodes(I, [word("w%d" % n)])) for n, k in enumerate(ps)]))
    write_all(I, j, capset(I, lm), "with captions at %s" % (pat,))


# --------------------------------------------------------------------- readers
def from_reader(I, j, rname, doc, what, opts=None):
    cs = read(I, rname, doc)
    write_all(I, j, cs, "of %s %s" % (rname, what), opts)


def reader_docs():
    M = ["a & b", "x < y > z", "\"q\" 'r'", "]]>", "--", "&lt;"]
    e = lambda s: s.replace("&", "&amp;").replace("<", "&lt;")
    out = []
    out.append(("SRTReader", "metachars", "".join("%d\n00:00:%02d,000 --> 00:00:%02d,000\n%s\n%s\n\n" % (i + 1, 2 * i, 2 * i + 1, m, M[i - 1]) for i, m in enumerate(M))))
    out.append(("MicroDVDReader", "metachars", "".join("{%d}{%d}%s|%s\n" % (100 * i, 100 * i + 50, m, M[i - 1]) for i, m in enumerate(M))))
    sets_ = ["", " align:left", " position:10%", " line:0 size:20%", " align:end line:-1", " vertical:rl", " region:x \"&<"]
    out.append(("WebVTTReader", "settings", "WEBVTT\n\n" + "".join("00:%02d.000 --> 00:%02d.000%s\n%s\n<c.a&b>%s</c>\n\n" % (2 * i, 2 * i + 1, s, e(m), e(m))
                                                                        for i, (s, m) in enumerate(zip(sets_, M + ["x"])))))
    st = ['.ENCC {lang: en-US; margin-left: 10%; text-align: left;}', '.FRCC {lang: fr; color: red;}', '#s1 {font-family: "Ari al", \'x\'; font-style: italic}', '.q {color: #00ff00}',
          'P {margin: 2pt; color: blue;}']
    ps = ['<P class="ENCC">%s</P>', '<P class="FRCC" style="color:red;text-align:right">%s<br><i>x</i></P>', '<P class="ENCC" id="s1"><span class="q">%s</span></P>',
          '<P class="FRCC"><span style="font-family:&quot;A&quot;">%s<b>y<i>z</i></b></span></P>', '<P class="ENCC"><i>%s', '<P lang="x&y">%s</P>', '<P class=\'a"b\' lang=fr><span class="a&b c">%s</span></P>']
    for k in range(3):
        body = "".join('<SYNC start="%d">%s</SYNC>\n' % (1000 * i, ps[(i + k) % len(ps)] % e(m)) for i, m in enumerate(M + M))
        out.append(("SAMIReader", "markup%d" % k, '<SAMI><HEAD><STYLE TYPE="text/css"><!--\n%s\n--></STYLE></HEAD><BODY>%s</BODY></SAMI>' % ("\n".join(st[:5 - k]), body)))
    head = ('<head><styling><style xml:id="s1" tts:color="a&quot;b"/><style xml:id="s2" style="s1" tts:fontFamily="\'x\' &amp; &quot;y&quot;"/><style id="r0" tts:fontStyle="italic"/>'
            '<style xml:id="bottom" style="s3 s1" tts:textAlign="left"/><style xml:id="s3" style="s2 nope"/><style xml:id="e"/></styling><layout><region xml:id="r0x" tts:origin="10% 10%"/>'
            '<region xml:id="reg" tts:textAlign="left"><style tts:extent="50% 20%"/></region><region xml:id="unused" tts:origin="1% 1%"/></layout></head>')
    ps = ['<p begin="%(b)s" end="%(e)s" region="reg" style="s1">%(m)s</p>', '<p begin="%(b)s" end="%(e)s" style="s1 s2"><span style="s3" tts:color="&quot;&lt;">%(m)s</span></p>',
          '<p begin="%(b)s" end="%(e)s" style="bottom nope"><span region="r0x">%(m)s<br/><span style="r0">x</span></span></p>',
          '<p begin="%(b)s" end="%(e)s" tts:textAlign="right"><span tts:textAlign="left" tts:fontStyle="italic" region="reg">%(m)s</span>y</p>',
          '<p begin="%(b)s" end="%(e)s" region="missing" style=" ">%(m)s</p>', '<p begin="%(b)s" end="%(e)s" style="s1  e"><span>%(m)s</span></p>']
    for k in range(3):
        body = ""
        for lang_, rg in (("en", ""), ("fr&amp;", ' region="r0x"'), ('&quot;', ' region="reg" style="s1"')):
            body += '<div xml:lang="%s"%s>%s</div>' % (lang_, rg, "".join(ps[(i + k) % len(ps)] % dict(b="%ds" % (2 * i), e="%ds" % (2 * i + 1), m=e(m)) for i, m in enumerate(M)))
        out.append(("DFXPReader", "markup%d" % k, '<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en">%s<body>%s</body></tt>' % (head, body)))
    scc = "Scenarist_SCC V1.0\n\n"
    for i, (p, t) in enumerate([("9470", "c1c2"), ("91d0", "2629"), ("9458", "913ec180"), ("13ce", "613c 913e"), ("9470 97a1", "c180 91ae c2 94d0 c1"), ("1340", "c180 1370 c2ba")]):
        scc += "00:00:%02d:00\t94ae 9420 %s %s 942f\n\n" % (4 * i + 1, p, t)
    scc += "00:00:40:00\t942c\n\n"
    out.append(("SCCReader", "pop-on", scc))
    return out


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, f, *a, **k):
        out.append(Scenario(name, lambda I, j: f(I, j, *a, **k), 120))

    def cut(l, n):
        return [l[i:i + n] for i in range(0, len(l), n)]
    # texts
    for c in CORE:
        add("text/%02x" % ord(c), texts, [spaced([c + a + b for a in CORE for b in CORE]), c, word("z") + c, c + word("z")])
    add("text/ascii", texts, [spaced(list(ASCII)), spaced([a + b for a in "&<>\"';]-!" for b in ASCII])])
    for i, sn in enumerate(cut(SNIPPETS, 8)):
        add("text/snippets%d" % i, texts, list(sn) + ["", " "])
    add("text/other", texts, [spaced(list(OTHER)), OTHER])
    # style values
    vs = [spaced([a + b for a in CORE for b in CORE])] + [c for c in CORE] + [c + word("z") for c in CORE] + [word("z") + c for c in CORE] + list(SNIPPETS) + [
        "", " ", 'a"b\'c', "'", '"', "&quot;", "\"'&<", word("z"), "1c", "red", "a\tb", "a\nb", OTHER, ASCII]
    for i, v in enumerate(cut(vs, 6)):
        add("value/%d" % i, values, v)
    # names
    nm = NAMES + [c for c in ASCII] + [c for c in OTHER] + [c + "a" for c in ASCII] + ["a" + c for c in ASCII] + ["a" + c for c in OTHER]
    for i, ns in enumerate(cut(nm, 7)):
        for kind in ("class", "classes", "many"):
            add("name/%s/%d" % (kind, i), names_styles, ns, kind)
    for ns in (["a b", "a_b", "a_x0020_b"], ["a", "a ", " a", "A"], ["", "_x_", "_"], ["1", "_1", "_x0031_"], ["bottom", "r0", "r1", "r2"], ["p", "default", "bottom"],
               ["_x005F_x", "_x", "__x"], ["a:b", "a_x003A_b", "a_x3A_b"]):
        for kind in ("class", "classes", "many"):
            add("clash/%s/%s" % (kind, ",".join(S.show(n) for n in ns)), names_styles, ns, kind)
    # languages
    for i, ls in enumerate(cut([c for c in NAMES if c and c.isprintable()] + [c for c in "&<>\"'"] + ["".join(a + b for a in CORE for b in CORE), "en-US", "x-klingon"], 3)):
        add("lang/%d" % i, languages, list(dict.fromkeys(ls)))
    add("lang/any", languages, [word("l")])
    # style tables
    names = ["b", "a", "c"]
    for ed in itertools.product([None, "a", "b", "c", "d"], repeat=3):
        for at in range(8) if thorough else (0, 5, 7):
            add("graph/%s/%d" % ("".join(e or "-" for e in ed), at), graph, ed, names, at)
    # spans, also nested
    kinds = ["i", "b", "c", "s1", "fam", "none", "align"]
    seqs = [s for n in (2, 3, 4) for s in arrangements(n, kinds if n < 4 else ["i", "c", "fam"], ("T", "<"))]
    if thorough:
        seqs += arrangements(5, ["i", "c"], ("T", "<"))
    for i, ch in enumerate(cut(seqs, 10)):
        add("spans/%d" % i, sets, [("spans", [("en", [(span_spec(s), {"class": "s1"}) for s in ch])], {"s1": {"italics": True}, "c": {"color": "red"}})])
    nest = []
    o = lambda k: (True, KINDS[k])
    x = lambda k: (False, KINDS[k])
    for a in kinds:
        for b in kinds:
            nest += [[o(a), word("a"), o(b), word("b"), x(b), word("c"), x(a), word("d")], [o(a), o(b), word("b"), x(b), x(a)],
                     [o(a), o(b), x(b), "b", word("c"), x(a), word("d")], [o(a), word("a"), o(b), word("b"), x(b), o(a), word("c"), x(a), x(a)]]
    for i, ch in enumerate(cut(nest, 10)):
        add("nested/%d" % i, sets, [("nested spans", [("en", [(s, None) for s in ch])], {"s1": {"italics": True}})])
    # layouts and options
    keys = [None, "A", "B", "C", "D", "E", "F", "G", "H"]
    combos = []
    for k in range(7):
        for v in keys[1:]:
            c = [None] * 7
            c[k] = v
            combos.append(tuple(c))
    for a, b in itertools.combinations(range(7), 2):
        for v, w in (("A", "B"), ("A", "A"), ("D", "A"), ("E", "C"), ("G", "A")):
            c = [None] * 7
            c[a], c[b] = v, w
            combos.append(tuple(c))
    for i in range(60 if not thorough else 400):
        combos.append(tuple(keys[(i * (3 + 2 * k) + i // 7 + k) % len(keys)] for k in range(7)))
    optsets = [("plain", None), ("inline", {"write_inline_positioning": True}), ("nofit", {"fit_to_screen": False}), ("norel", {"relativize": False}),
               ("size", {"video_width": 640, "video_height": 360}), ("all", {"write_inline_positioning": True, "relativize": False, "fit_to_screen": False})]
    for nm_, o_ in optsets:
        for i, ch in enumerate(cut(combos if nm_ in ("plain", "inline") or thorough else combos[::3], 6)):
            add("layout/%s/%d" % (nm_, i), positioned, ch, o_, WRITERS if nm_ == "plain" else WRITERS[:2])
    px = [("P", None, None, "P", "A", None, None), (None, "P", None, None, None, "P", None), (None, "K", None, "P", "K", "P", "A"), ("K", "K", "P", None, "P", None, "K")]
    for nm_, o_ in (("size", {"video_width": 640, "video_height": 360}), ("norel", {"relativize": False, "fit_to_screen": False}),
                    ("inline-size", {"video_width": 640, "video_height": 360, "write_inline_positioning": True}), ("inline-norel", {"relativize": False, "fit_to_screen": False, "write_inline_positioning": True})):
        add("layout-px/" + nm_, positioned, px, o_, WRITERS[:1])
    for f in ("en", "fr"):
        for i, ch in enumerate(cut(combos[::4], 8)):
            add("force/%s/%d" % (f, i), positioned, ch, None, WRITERS, f)
    for v in keys[1:]:
        add("single/%s" % v, positioned, combos[:20:3], {"default_positioning": lambda I, v=v: lay(I, v)}, ["SinglePositioningDFXPWriter"])
    for st in ({"bottom": {"color": "red"}}, {"r0": {"color": "red"}, "r1": {"class": "r0"}}, {"bottom": {"color": "x"}, "r0": {"color": "red"}, "r2": {"italics": True}}, {"bottom": {}}, {"default": {"color": "a"}}, {"p": {"color": "red"}}):
        add("layout-names/%s" % ",".join(st), positioned, combos[::5], None, WRITERS, "", st)
        add("layout-names-inline/%s" % ",".join(st), positioned, combos[::7], {"write_inline_positioning": True}, WRITERS[:2], "", st)
    # concurrent captions
    for n in (1, 2, 3, 4):
        for pat in itertools.product(range(3 if n < 4 else 2), repeat=n):
            add("concurrent/%s" % "".join(map(str, pat)), concurrent, list(pat))
    for pat in ((0, 0, 3, 3, 4), (0, 3, 3, 4, 4, 4), (4, 4, 0, 0), (0, 1, 2, 1, 0), (1, 1, 2, 2, 3, 3)):
        add("concurrent/%s" % "".join(map(str, pat)), concurrent, list(pat))
    # empty sets
    add("empty/none", sets, [("no languages", [], {}), ("no captions", [("en", [])], {}), ("one empty", [("en", []), ("fr", [([word("w")], None)])], {}),
                             ("no captions, styles", [("en", []), ("fr", [])], {"bottom": {"color": "red"}}), ("no nodes", [("en", [(["b"], None), ([""], None)])], {})])
    add("empty/force", sets, [("one empty", [("en", []), ("fr", [([word("w")], None)])], {})], None, "en")
    for rn, nm_, doc in reader_docs():
        for on, o_ in optsets[:1] + optsets[1:2] + optsets[4:]:
            add("reader/%s/%s/%s" % (rn, nm_, on), from_reader, rn, doc, nm_, o_)
    return out
