"""C12: positioning survives DFXP round trips and maps faithfully to WebVTT."""
import itertools
import zlib

from ..lib import *
from .. import refs as R
from .c13 import check_len, settings

PROP = "C12"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of DFXPWriter followed by DFXPReader, and of
WebVTTWriter (and WebVTTReader followed by WebVTTWriter), on caption sets whose
layouts are attached at language, caption, text-node and style-node level in
every combination of none/A/B(/C), for pairs (A, B) that differ in exactly one
component (swapped coordinates, one padding side, one alignment axis, the DFXP
default region, ...), every alignment pair, every set of present parts, every
set of padding sides, and with one component at a time symbolic.  Every visible
text piece (symbolic word) must come back with the layout that the fallback
node -> caption -> language -> default gives it, parts absent taking start /
after; with fit-to-screen on, the fitted layout.  For WebVTT the cues are read
by a reference grammar: one cue per maximal run of text with equal layout, with
the caption's times, its align/position/line/size being the linear forms of
edge plus padding; raw cue settings (templates with symbolic text) must be
written back verbatim."""
ASSUMPTIONS = ["lengths are percentages with at most two decimals",
               "text inside a style node with a layout has that layout itself (or one of its own)",
               "WebVTT arithmetic is checked for layouts with an origin"]
MINIMUM = 1500

DEF = ("start", "bottom")
SIDES = ["before", "after", "start", "end"]


class Lay:
    """layout specification: components are percentages (numbers or Poly)"""

    def __init__(self, o=None, e=None, p=None, a=None):
        self.o, self.e, self.p, self.a = o, e, p, a

    def build(self, I):
        def q(v):
            if isinstance(v, Poly):
                return (Num(v, "float"), "%")
            return (Num(C(F(str(v))), "float"), "%")
        return layout(I, origin=tuple(map(q, self.o)) if self.o else None,
                      extent=tuple(map(q, self.e)) if self.e else None,
                      pad={k: q(v) for k, v in self.p.items()} if self.p else None,
                      align=self.a)

    def key(self):
        return repr((self.o, self.e, self.full() if self.p else None, self.a))

    def full(self):
        return [self.p.get(s, 0) for s in SIDES]

    def fit(self):
        if not self.o:
            return self
        e = []
        for i, top in ((0, 90), (1, 95)):
            o = P_(self.o[i])
            if not self.e:
                e.append(C(top) - o)
            else:
                x = P_(self.e[i])
                d = C(top) - o - x
                assert d.is_const() or isinstance(self.e[i], Poly)
                e.append(x if not d.is_const() or d.cval() >= 0 else C(top) - o)
        return Lay(self.o, tuple(e), self.p, self.a)


def P_(v):
    return v if isinstance(v, Poly) else C(F(str(v)))


def eff(*ls):
    for l in ls:
        if l is not None:
            return l
    return None


def check_layout(I, j, got, want, what):
    """got: Layout instance or None; want: Lay or None"""
    want = want or Lay()
    g = lambda n: None if got is None else I.getattr(got, n)
    for nm, w, at in (("origin", want.o, ("x", "y")), ("extent", want.e, ("horizontal", "vertical")),
                      ("padding", want.full() if want.p else None, SIDES)):
        v = g(nm)
        if w is None:
            j.true("layout-absent", v is None, "%s has %s where its layout has none" % (what, nm))
            continue
        if not j.true("layout-present", v is not None, "%s lost its %s" % (what, nm)):
            continue
        for a, x in zip(at, w):
            s = I.getattr(v, a)
            j.true("layout-unit", I.truth(I.eq(I.getattr(s, "unit"), unit(I, "%"))), "%s %s.%s unit" % (what, nm, a))
            j.numeq("layout-value", I.getattr(s, "value"), P_(x), "%s: %s.%s" % (what, nm, a))
    al = g("alignment")
    h = (want.a and want.a[0]) or DEF[0]
    v = (want.a and want.a[1]) or DEF[1]
    if al is None:
        return j.true("layout-align", (h, v) == DEF, "%s lost its alignment" % what)
    H, V = geo(I, "HorizontalAlignmentEnum"), geo(I, "VerticalAlignmentEnum")
    gh, gv = I.getattr(al, "horizontal"), I.getattr(al, "vertical")
    j.true("layout-align", I.truth(I.eq(gh, I.getattr(H, h.upper()))), "%s: horizontal alignment is %s, must be %s" % (
        what, I.desc(gh) if hasattr(I, "desc") else gh, h))
    j.true("layout-align", I.truth(I.eq(gv, I.getattr(V, v.upper()))), "%s: vertical alignment is %s, must be %s" % (
        what, gv, v))


# document spec: [(lang, lang layout, [(caption layout, [node...])])]
# node: ("t", text, layout) | ("b", layout) | ("s", layout, [nodes])
def nodes_of(I, spec, texts, inherited=None):
    out = []
    for n in spec:
        if n[0] == "t":
            out.append(text_node(I, n[1], n[2].build(I) if n[2] else None))
            texts.append((n[1], n[2] or inherited))
        elif n[0] == "b":
            out.append(break_node(I, n[1].build(I) if n[1] else None))
        else:
            l = n[1].build(I) if n[1] else None
            out.append(style_node(I, True, {"italics": True}, l))
            out += nodes_of(I, n[2], texts, n[1] or inherited)
            out.append(style_node(I, False, {"italics": True}, n[1].build(I) if n[1] else None))
    return out


def build(I, doc):
    """(caption set, {lang: [[(text, effective Lay)] per caption]})"""
    lm, ll, exp = [], {}, {}
    for lang, L, cl in doc:
        out = []
        exp[lang] = []
        for i, (c, ns) in enumerate(cl):
            texts = []
            nn = nodes_of(I, ns, texts)
            out.append(caption(I, i * 2000000, i * 2000000 + 1000000, nn, layout=c.build(I) if c else None))
            exp[lang].append([(t, eff(n, c, L)) for t, n in texts])
        lm.append((lang, out))
        if L:
            ll[lang] = L.build(I)
    return capset(I, lm, lang_layout=ll), exp


def t_dfxp(I, j, doc, wopts, wname="DFXPWriter", pos=None):
    cs, exp = build(I, doc() if callable(doc) else doc)
    fit = wopts.get("fit_to_screen", True)
    if pos is None:
        w = writer(I, wname, **wopts)
    else:
        w = I.call(ext(I, wname), [pos.build(I)], dict(wopts))
    s = I.callm(w, "write", cs)
    rd = read(I, "DFXPReader", s)
    for lang, cl in exp.items():
        got = caps(I, rd, lang)
        if not j.true("captions", len(got) == len(cl), "%d captions read, %d written" % (len(got), len(cl))):
            continue
        ll = I.callm(rd, "get_layout_info", lang)
        for k, (g, texts) in enumerate(zip(got, cl)):
            cl_ = I.getattr(g, "layout_info")
            found = {}
            for n in I.iterate(I.getattr(g, "nodes")):
                if node_type(I, n) != "TEXT":
                    continue
                txt = I.s(I.getattr(n, "content"))
                l = I.getattr(n, "layout_info")
                for c in txt:
                    if S.is_atom(c):
                        found[c] = l if l is not None and I.truth(l) else \
                            cl_ if cl_ is not None and I.truth(cl_) else ll
            for t, w_ in texts:
                if pos is not None:
                    w_ = pos
                if w_ is not None and fit:
                    w_ = w_.fit()
                if t not in found:
                    j.fail("text", "text %s of caption %d is lost" % (S.show(t), k + 1))
                else:
                    check_layout(I, j, found[t], w_, "%s caption %d text %s" % (lang, k + 1, S.show(t)))


# ------------------------------------------------------------------- WebVTT
def t_vtt(I, j, doc, wopts, lang=None):
    d = doc() if callable(doc) else doc
    cs, exp = build(I, d)
    fit = wopts.get("fit_to_screen", True)
    a = [lang] if lang else []
    s = I.s(I.callm(writer(I, "WebVTTWriter", **wopts), "write", cs, *a))
    try:
        cues = R.vtt(s)
    except R.Bad as e:
        return j.fail("document-grammar", str(e))
    lang = lang or d[0][0]
    want = []
    for i, texts in enumerate(exp[lang]):
        grp = []
        for t, l in texts:
            k = l.key() if l else None
            if grp and grp[-1][0] == k:
                grp[-1][2].append(t)
            else:
                grp.append((k, l, [t]))
        want += [(i, l, ts) for _, l, ts in grp]
    if not j.true("cues", len(cues) == len(want), "%d cues written for %d groups of equally laid out nodes" % (
            len(cues), len(want))):
        return
    for n, (c, (i, l, ts)) in enumerate(zip(cues, want)):
        got = "".join(x for x in "".join(c.text()) if S.is_atom(x))
        j.true("cue-text", got == "".join(ts), "cue %d holds %s, must hold %s" % (
            n + 1, S.show(got), S.show("".join(ts))))
        stamp = lambda u: "00:%02d.%03d" % (u // 1000000, u // 1000 % 1000)
        j.true("cue-times", (c.start, c.end) == (stamp(i * 2000000), stamp(i * 2000000 + 1000000)),
               "cue %d has times %s --> %s" % (n + 1, c.start, c.end))
        try:
            st = settings(c.settings)
        except R.Bad as e:
            j.fail("settings", str(e))
            continue
        check_settings(j, st, l.fit() if l is not None and fit else l, "cue %d" % (n + 1))


def check_settings(j, st, l, what):
    if l is None:
        j.true("no-settings", not st, "%s has settings %r without a layout" % (what, st))
        return
    h = (l.a and l.a[0]) or "start"
    if h == "center":
        j.true("align", "align" not in st or st["align"] == "center", "%s has align:%s" % (what, st.get("align")))
    else:
        j.true("align", st.get("align") == h, "%s has align:%s, must be %s" % (what, st.get("align"), h))
    p = dict(zip(SIDES, l.full())) if l.p else dict.fromkeys(SIDES, 0)
    want = {}
    if l.o:
        want = {"position": P_(l.o[0]) + P_(p["start"]), "line": P_(l.o[1]) + P_(p["before"])}
    if l.e:
        want["size"] = P_(l.e[0]) - P_(p["start"]) - P_(p["end"])
    for k in ("position", "line", "size"):
        if k not in want:
            j.true("absent", k not in st, "%s has %s without a source" % (what, k))
        elif k not in st:
            j.fail("written", "%s has no %s" % (what, k))
        else:
            check_len(j, k, st[k], want[k], "%s %s" % (what, k), F(1, 10 ** 6))


# --------------------------------------------------------------- raw settings
def raw_settings():
    w = lambda n: word(n)
    d = lambda n: digs(n, 2)[0]
    return {
        "line": "line:" + d("a") + "%", "neg": "line:-1", "align": "align:" + w("x"),
        "region": "region:" + w("r"), "vertical": "vertical:rl", "pos": "position:" + d("p") + "%,line-left",
        "two": "align:start position:" + d("p") + "%", "many": "line:" + d("a") + "." + d("b") + "% align:end size:" + d("c") + "% position:10%",
        "case": "Align:Middle", "unknown": w("k") + ":" + w("v"), "word": w("k"), "px": "line:" + d("a") + "px",
        "arrowish": "a>b", "colon": "a::b", "spaces": "align:start  line:0%", "tab": "align:start\tline:0%",
        "any": S.text("q") + ":1",
    }


def t_raw(I, j, kind, sep, tail, wopts):
    st = raw_settings()[kind]
    w1, w2, w3 = word("w1"), word("w2"), word("w3")
    doc = ("WEBVTT\n\n00:01.000 --> 00:02.000%s%s%s\n%s\n%s\n\n00:03.000 --> 00:04.000\n%s\n\n"
           "00:05.000 --> 00:06.000 line:7%%\n%s\n") % (sep, st, tail, w1, w2, w3, w1)
    cs = read(I, "WebVTTReader", doc)
    for turn in (1, 2):
        s = I.s(write(I, "WebVTTWriter", cs, wopts))
        try:
            cues = R.vtt(s)
        except R.Bad as e:
            return j.fail("document-grammar", str(e))
        if not j.true("cues", len(cues) == 3, "%d cues" % len(cues)):
            return
        for k, w in enumerate((st, "", "line:7%")):
            j.true("verbatim", cues[k].settings == w, "settings %r are written as %r (pass %d)" % (
                S.show(w), S.show(cues[k].settings), turn))
        cs = read(I, "WebVTTReader", s)


# ----------------------------------------------------------------- scenarios
A1 = ("left", "top")
PAIRS = {
    "coords": (Lay((10, 20), None, None, A1), Lay((20, 10), None, None, A1)),
    "extent": (Lay((10, 20), (30, 40), None, A1), Lay((10, 20), (40, 30), None, A1)),
    "no-extent": (Lay((10, 20), (80, 75), None, A1), Lay((10, 20), None, None, A1)),
    "pad-side": (Lay((10, 20), None, {"before": 3}, A1), Lay((10, 20), None, {"after": 3}, A1)),
    "pad-lr": (Lay((10, 20), (50, 50), {"start": 3}, A1), Lay((10, 20), (50, 50), {"end": 3}, A1)),
    "pad-none": (Lay((10, 20), (50, 50), {"start": 0}, A1), Lay((10, 20), (50, 50), None, A1)),
    "halign": (Lay((10, 20), None, None, ("left", "bottom")), Lay((10, 20), None, None, ("right", "bottom"))),
    "valign": (Lay((10, 20), None, None, ("left", "top")), Lay((10, 20), None, None, ("left", "center"))),
    "default": (Lay(a=DEF), Lay((10, 20), None, None, DEF)),
    "part-align": (Lay(a=("end", None)), Lay(a=(None, "top"))),
    "align-origin": (Lay(a=("center", "top")), Lay((1, 2))),
    "decimals": (Lay((10.01, 20.1), None, None, A1), Lay((10.1, 20.01), None, None, A1)),
    "only-extent": (Lay(e=(50, 40)), Lay(e=(40, 50))),
    "only-pad": (Lay(p={"before": 5}), Lay(p={"start": 5})),
    "zero": (Lay((0, 0), None, None, A1), Lay((0, 0), (0, 0), None, A1)),
}
THIRD = Lay((45, 55), (12, 13), {"end": 1.5}, ("end", "center"))


def one(L, level):
    w = word("w0")
    if level == "lang":
        return [("en", L, [(None, [("t", w, None)])])]
    if level == "caption":
        return [("en", None, [(L, [("t", w, None)])])]
    if level == "node":
        return [("en", None, [(None, [("t", w, L)])])]
    if level == "style":
        return [("en", None, [(None, [("s", L, [("t", w, L)])])])]
    if level == "all":
        return [("en", L, [(L, [("t", w, L), ("b", L), ("t", word("w1"), L)])])]
    if level == "middle":
        return [("en", None, [(None, [("t", w, None), ("b", None), ("t", word("w1"), L), ("b", None),
                                      ("t", word("w2"), None)])])]


LV = ["lang", "caption", "node", "style", "all", "middle"]
OPTS = {"plain": {"fit_to_screen": False}, "fit": {}, "norel": {"relativize": False, "fit_to_screen": False},
        "norel-fit": {"relativize": False}, "dims": {"video_width": 640, "video_height": 360}}


def grid(name, spec, symcomp):
    """spec with one component replaced by a symbolic two-decimal number"""
    def f():
        n = sym("n", 0, 3000, True).p.scale(F(1, 100))
        o, e, p = list(spec.o), list(spec.e), dict(spec.p)
        part, i = symcomp
        if part == "o":
            o[i] = n
        elif part == "e":
            e[i] = n
        else:
            p[SIDES[i]] = n
        return Lay(tuple(o), tuple(e), p, spec.a)
    return f


def arrangements(A, B, third=None):
    """node lists over two or three nodes"""
    w = [word("w%d" % i) for i in range(3)]
    ch = [None, A, B]
    for x, y in itertools.product(ch, ch):
        yield [("t", w[0], x), ("b", x), ("t", w[1], y)]
        yield [("t", w[0], x), ("t", w[1], y)]
    for x, y, z in itertools.product(ch, ch, ch):
        yield [("t", w[0], x), ("b", None), ("t", w[1], y), ("b", None), ("t", w[2], z)]
    for x in (A, B):
        for y in ch:
            yield [("t", w[0], y), ("s", x, [("t", w[1], x)]), ("t", w[2], y)]
            yield [("t", w[0], y), ("b", y), ("s", x, [("t", w[1], x), ("b", x), ("t", w[2], x)])]
            yield [("s", x, [("t", w[1], x)]), ("s", y, [("t", w[0], y)]), ("t", w[2], None)]


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn, *a, **k):
        """thin: in the quick tier keep one in `thin` (spread by a stable hash)"""
        if not thorough and zlib.crc32(name.encode()) % k.get("thin", 1):
            return
        out.append(Scenario(name, fn, k.get("budget", 600), a))
    # single layouts: alignments, parts, paddings
    singles = {}
    for h in (None, "left", "center", "right", "start", "end"):
        for v in (None, "top", "center", "bottom"):
            if h or v:
                singles["align-%s-%s" % (h, v)] = Lay((10, 20), None, None, (h, v))
                singles["only-align-%s-%s" % (h, v)] = Lay(a=(h, v))
    for m in itertools.product((0, 1), repeat=4):
        if any(m):
            singles["parts-%d%d%d%d" % m] = Lay((11.5, 22.25) if m[0] else None, (33, 44.4) if m[1] else None,
                                               {"before": 1, "after": 2, "start": 3, "end": 4} if m[2] else None,
                                               ("right", "center") if m[3] else None)
            singles["pad-%d%d%d%d" % m] = Lay((10, 20), (60, 50), {s: 2.5 + i for i, s in enumerate(SIDES) if m[i]}, A1)
    for n, L in singles.items():
        for lv in LV:
            for on, o in OPTS.items():
                if on != "plain" and lv not in ("caption", "lang", "node") and not thorough:
                    continue
                add("dfxp/%s/%s/%s" % (n, lv, on), t_dfxp, one(L, lv), o, thin=3)
                add("vtt/%s/%s/%s" % (n, lv, on), t_vtt, one(L, lv), o, thin=3)
        add("single/%s" % n, t_dfxp, one(None, "caption"), {"fit_to_screen": False}, "SinglePositioningDFXPWriter", L)
        add("single-over/%s" % n, t_dfxp, one(THIRD, "all"), {}, "SinglePositioningDFXPWriter", L)
    full = Lay((11, 22), (33, 44), {"before": 1, "after": 2, "start": 3, "end": 4}, ("left", "top"))
    for part, k in (("o", 2), ("e", 2), ("p", 4)):
        for i in range(k):
            f = grid("g", full, (part, i))
            for lv in ("lang", "caption", "node", "style"):
                add("dfxp/sym-%s%d/%s" % (part, i, lv), t_dfxp, (lambda f=f, lv=lv: one(f(), lv)), {"fit_to_screen": False})
                add("vtt/sym-%s%d/%s" % (part, i, lv), t_vtt, (lambda f=f, lv=lv: one(f(), lv)), {"fit_to_screen": False})
    # pairs of layouts at several levels
    for pn, (A, B) in PAIRS.items():
        k = 0
        for L, c in itertools.product((None, A, B), (None, A, B)):
            for ns in arrangements(A, B):
                k += 1
                doc = [("en", L, [(c, ns)])]
                add("dfxp/%s/%d" % (pn, k), t_dfxp, doc, OPTS["plain"], thin=12)
                add("vtt/%s/%d" % (pn, k), t_vtt, doc, OPTS["plain" if k % 2 else "fit"], thin=12)
        # several captions and languages
        w = [word("w%d" % i) for i in range(6)]
        for x, y, z in itertools.product((None, A, B), repeat=3):
            doc = [("en", x, [(y, [("t", w[0], None)]), (z, [("t", w[1], None)]), (None, [("t", w[2], None)])]),
                   ("fr", z, [(x, [("t", w[3], None)]), (None, [("t", w[4], y)]), (None, [("t", w[5], None)])])]
            k += 1
            add("dfxp/%s/multi%d" % (pn, k), t_dfxp, doc, OPTS["plain"], thin=2)
            if pn != "decimals" or thorough:
                add("dfxp/%s/multi%d-fit" % (pn, k), t_dfxp, doc, OPTS["fit"], thin=4)
            for lang in (None, "en", "fr"):
                add("vtt/%s/multi%d/%s" % (pn, k, lang), t_vtt, doc, OPTS["plain"], lang, thin=6)
    # three layouts in one caption
    A, B = PAIRS["pad-lr"]
    w = [word("w%d" % i) for i in range(3)]
    for ls in itertools.product((None, A, B, THIRD), repeat=3):
        for c in (None, THIRD):
            doc = [("en", None, [(c, [("t", w[0], ls[0]), ("t", w[1], ls[1]), ("t", w[2], ls[2])])])]
            n = "-".join("%d" % [None, A, B, THIRD].index(l) for l in ls)
            add("dfxp/three/%s/%d" % (n, c is None), t_dfxp, doc, OPTS["plain"], thin=2)
            add("vtt/three/%s/%d" % (n, c is None), t_vtt, doc, OPTS["plain"], thin=2)
    for kind in raw_settings():
        for sep in (" ", "\t", "   "):
            for tail in ("", " ", "\t "):
                for on in ("fit", "norel"):
                    add("raw/%s/%r/%r/%s" % (kind, sep, tail, on), t_raw, kind, sep, tail, OPTS[on], thin=2)
    return out
