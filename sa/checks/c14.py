"""C14: each language's captions stay under their language, in document order."""
import itertools

from ..lib import *
from .. import refs as R
from .. import strs as S

PROP = "C14"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of the DFXP and SAMI readers on documents whose
paragraphs are dealt to languages in every pattern (class and lang attributes,
language families sharing a prefix, repeated, nested and unlabelled divs,
document and configured default languages), and of the SAMI, DFXP and WebVTT
writers on sets of 1-4 languages whose cue times take every relative order on a
grid and, for small sets, are symbolic.  The written document is read by an
independent parser: SYNC starts non-decreasing, every paragraph in the block of
its start time and under its language, divs in language order, only the selected
language; then the reader has to return the same per-language lists."""
ASSUMPTIONS = ["grid times up to 7 instants, up to three cues in a language; symbolic times for up to three cues in all",
               "language codes hold letters, digits and hyphens and are no SAMI element names"]
MINIMUM = 100
SEC = 10 ** 6


def listing(I, cs):
    """{language: [(start, [lines])]} in order"""
    out = []
    for l in langs(I, cs):
        out.append((I.s(l), [(I.getattr(c, "start"), norm_lines(visible(I, c))) for c in caps(I, cs, l)]))
    return out


def same_listing(I, j, rule, got, want, what):
    if not j.true(rule + "-order", [l for l, _ in got] == [l for l, _ in want],
                  "%s: languages are %s, must be %s" % (what, [S.show(l) for l, _ in got], [S.show(l) for l, _ in want])):
        return False
    ok = True
    for (l, g), (_, w) in zip(got, want):
        if not j.true(rule, [t for _, t in g] == [t for _, t in w], "%s: language %s has cues %s, must have %s" % (
                what, S.show(l), [[S.show(x) for x in t] for _, t in g], [[S.show(x) for x in t] for _, t in w])):
            ok = False
            continue
        for (a, t), (b, _) in zip(g, w):
            ok = j.numeq(rule + "-start", a, b, "%s: start of %s cue %s" % (what, S.show(l), [S.show(x) for x in t])) and ok
    return ok


def times_poly(t):
    return t.p if isinstance(t, Num) else C(t)


# ------------------------------------------------------------------- SAMI out
def sami_doc(I, j, doc, want, what):
    """want: [(lang, [(start us, end us, lines)])]"""
    try:
        d = R.sami(doc)
    except R.Bad as e:
        return j.fail("document", "%s: %s" % (what, e))
    prev = None
    ms = []
    for st, ps in d.syncs:
        f = R.intfield(st or "")
        if f is None:
            return j.fail("sync-start", "%s: SYNC start %r" % (what, S.show(str(st))))
        ms.append(f[0])
        if prev is not None:
            j.ge("sync-order", f[0] - prev, "%s: start of a SYNC minus that of the one before" % what)
        prev = f[0]
    names = [l for l, _ in want]
    got = {l: [] for l in names}
    for m, (st, ps) in zip(ms, d.syncs):
        for p in ps:
            l = R.sami_lang(d, p.kw["cls"])
            if not j.true("paragraph-language", l in got, "%s: paragraph of class %r is of language %r, the languages are %s" % (
                    what, p.kw["cls"], l, names)):
                return
            t = R.norm(p.lines)
            if t:
                got[l].append((m, t))
    for l, cues in want:
        if not j.true("paragraphs", [t for _, t in got[l]] == [t for _, _, t in cues], "%s: paragraphs of %s are %s, must be %s" % (
                what, l, [t for _, t in got[l]], [t for _, _, t in cues])):
            continue
        for (m, t), (a, _, _) in zip(got[l], cues):
            j.numeq("block", Num(m, "int"), pfloor(times_poly(a).scale(F(1, 1000)), I.path.facts),
                    "%s: the SYNC of the %s paragraph %s" % (what, l, t))
    return d


def reread(I, j, doc, want, what, rname="SAMIReader", trunc=1000):
    cs = I.callm(reader(I, rname), "read", doc)
    w = [(l, [(Num(pfloor(times_poly(a).scale(F(1, trunc)), I.path.facts).scale(trunc), "int"), t) for a, _, t in cues])
         for l, cues in want if cues]
    got = listing(I, cs)
    if rname == "SAMIReader":
        # order of first appearance in the file
        first = []
        for l in R_order(doc):
            if l not in first:
                first.append(l)
        j.true("reread-order", [l for l, _ in got] == first, "%s: read back, languages are %s, they appear in order %s" % (
            what, [l for l, _ in got], first))
        got.sort()
        w.sort(key=lambda t: t[0])
    same_listing(I, j, "reread", got, w, what + ", read back")


def R_order(doc):
    d = R.sami(doc)
    return [R.sami_lang(d, p.kw["cls"]) for _, ps in d.syncs for p in ps]


def mk(I, want, styles=None, classes=None):
    lm = []
    for l, cues in want:
        lm.append((l, [caption(I, a, b, lines_to_nodes(I, t), {"class": classes[l]} if classes and l in classes else None)
                       for a, b, t in cues]))
    return capset(I, lm, styles=styles)


def sami_sets(I, j, wants, again=True, styles=None, classes=None):
    for want in wants:
        what = "; ".join("%s %s" % (l, " ".join("%s-%s" % (a // SEC, b // SEC) if isinstance(a, int) else "t" for a, b, _ in c)) for l, c in want)
        cs = mk(I, want, styles, classes)
        doc = I.s(write(I, "SAMIWriter", cs))
        sami_doc(I, j, doc, want, what)
        if again and any(c for _, c in want):
            reread(I, j, doc, want, what)


def sami_symbolic(I, j, shape, codes, zero):
    want, k = [], 0
    for l, n in zip(codes, shape):
        ts = times(n, pre="l%d" % k)
        constrain(I, ts, True, minlen=0 if zero else 1000)
        want.append((l, [(a, b, [word("w%d%d" % (k, i))]) for i, (a, b) in enumerate(ts)]))
        k += 1
    cs = mk(I, want)
    doc = I.s(write(I, "SAMIWriter", cs))
    sami_doc(I, j, doc, want, "symbolic times")


def sami_again(I, j, want):
    cs = mk(I, want)
    doc = I.s(write(I, "SAMIWriter", cs))
    cs2 = read(I, "SAMIReader", doc)
    doc2 = I.s(write(I, "SAMIWriter", cs2))
    d = R.sami(doc2)
    order = []
    for l in R_order(doc):
        if l not in order:
            order.append(l)
    table = dict(want)
    sami_doc(I, j, doc2, [(l, table[l]) for l in order if l in table and table[l]], "second generation")


# -------------------------------------------------------------------- SAMI in
def sami_read(I, j, head, body, want):
    """body: [(ms, [(attrs, text)])]; want {lang: [...]} in order"""
    doc = "<SAMI><HEAD><STYLE TYPE=\"text/css\"><!--\nP {margin: 1pt;}\n" + "\n".join(
        ".%s {Name: x; lang: %s; SAMIType: CC;}" % t for t in head) + "\n--></STYLE></HEAD><BODY>"
    for ms, ps in body:
        doc += "<SYNC start=\"%s\">" % ms + "".join("<P %s>%s</P>" % (a, t) for a, t in ps) + "</SYNC>\n"
    doc += "</BODY></SAMI>"
    got = listing(I, read(I, "SAMIReader", doc))
    same_listing(I, j, "sami-read", got, want, "SAMI %s" % [(m, [a for a, _ in ps]) for m, ps in body])


def sami_regional(I, j):
    doc = ('<SAMI><HEAD></HEAD><BODY><SYNC start="1000"><P lang="pt-BR">a</P><P lang="pt-PT">b</P></SYNC>'
           '<SYNC start="2000"><P lang="pt-PT">c</P></SYNC></BODY></SAMI>')
    got = [[norm_lines(t) for _, t in c] for _, c in listing(I, read(I, "SAMIReader", doc))]
    j.true("regional-variants", got == [[["a"]], [["b"], ["c"]]], "paragraphs of lang pt-BR and pt-PT are listed as %s" % got)


# ------------------------------------------------------------------------ DFXP
def dfxp_read(I, j, ttlang, divs, default="und", nest=None):
    """divs: [(lang or None, [texts])]; nest: divs are put into an outer one"""
    body, want, k = "", [], 0

    def put(lang, cues):
        for l, c in want:
            if l == lang:
                c.extend(cues)
                return
        want.append((lang, list(cues)))
    for lang, n in divs:
        ps, cues = "", []
        for i in range(n):
            w = word("w%d" % k)
            ps += "<p begin=\"%ds\" end=\"%ds\">%s</p>" % (k, k + 1, w)
            cues.append((k * SEC, [w]))
            k += 1
        body += "<div%s>%s</div>" % (' xml:lang="%s"' % lang if lang is not None else "", ps)
        put(lang if lang is not None else ttlang if ttlang is not None else default, cues)
    doc = '<tt xmlns="http://www.w3.org/ns/ttml"%s><body>%s</body></tt>' % (
        ' xml:lang="%s"' % ttlang if ttlang is not None else "", body)
    got = listing(I, read(I, "DFXPReader", doc))
    same_listing(I, j, "dfxp-read", [g for g in got if g[1]], [w for w in want if w[1]], "DFXP divs %s in tt %s" % (divs, ttlang))


def dfxp_nested(I, j, outer, inner, before, after):
    def p(k):
        return "<p begin=\"%ds\" end=\"%ds\">%s</p>" % (k, k + 1, word("w%d" % k))

    def c(k):
        return (k * SEC, [word("w%d" % k)])
    doc = '<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="en"><body><div xml:lang="%s">%s<div xml:lang="%s">%s</div>%s</div></body></tt>' % (
        outer, p(0) if before else "", inner, p(1), p(2) if after else "")
    got = listing(I, read(I, "DFXPReader", doc))
    if outer == inner:
        want = [(outer, [c(0)] * before + [c(1)] + [c(2)] * after)]
        got = [(l, sorted(cs, key=lambda t: lift(t[0]).p.cval())) for l, cs in got]
    else:
        want = [(outer, [c(0)] * before + [c(2)] * after), (inner, [c(1)])]
    same_listing(I, j, "dfxp-nested", [g for g in got if g[1]], [w for w in want if w[1]], "div %s inside div %s" % (inner, outer))


def with_default(I, j, f, value):
    """f analysed in a package imported with PYCAPTION_DEFAULT_LANG set"""
    saved = {k: v for k, v in I.modules.items() if k.split(".")[0] == "pycaption"}
    dig_ = dict(I.digests)
    for k in saved:
        del I.modules[k]
    I.dict_set(I.environ, "PYCAPTION_DEFAULT_LANG", value)
    try:
        f()
    finally:
        for k in [k for k in I.modules if k.split(".")[0] == "pycaption"]:
            del I.modules[k]
        I.modules.update(saved)
        I.digests.update(dig_)


def default_lang(I, j, value):
    def f():
        dfxp_read(I, j, None, [(None, 2)], value)
        dfxp_read(I, j, None, [("fr", 1), (None, 1)], value)
        dfxp_read(I, j, None, [(None, 1), (value, 1), ("fr", 1)], value)
        dfxp_read(I, j, "de", [(None, 1), ("fr", 1)], value)
        sami_read(I, j, [("FRCC", "fr")], [(1000, [("", "a"), ('class="FRCC"', "b")]), (2000, [('class="zz"', "c")])],
                  [(value, [(SEC, ["a"]), (2 * SEC, ["c"])]), ("fr", [(SEC, ["b"])])] if value != "fr" else
                  [("fr", [(SEC, ["a"]), (SEC, ["b"]), (2 * SEC, ["c"])])])
        c = read(I, "MicroDVDReader", "{25}{50}a\n")
        j.true("default-language", [I.s(l) for l in langs(I, c)] == [value], "MicroDVD languages %s" % langs(I, c))
    with_default(I, j, f, value)


def dfxp_write(I, j, want, kw, sel, wname="DFXPWriter"):
    cs = mk(I, want)
    w = I.call(ext(I, wname), [], {})
    doc = I.s(I.callm(w, "write", cs, **kw))
    try:
        d = R.dfxp(doc)
    except R.Bad as e:
        return j.fail("document", str(e))
    got = [(l, [(p.start, R.norm(p.lines)) for p in ps]) for l, ps, _ in d.divs]
    exp = [w_ for w_ in want if w_[0] in sel]
    what = "%s %s of %s" % (wname, kw, [l for l, _ in want])
    if not j.true("div-order", [l for l, _ in got] == [l for l, _ in exp], "%s: divs are %s, must be %s" % (
            what, [l for l, _ in got], [l for l, _ in exp])):
        return
    for (l, ps), (_, cues) in zip(got, exp):
        j.true("div-cues", [t for _, t in ps] == [t for _, _, t in cues], "%s: div %s holds %s, must hold %s" % (
            what, l, [t for _, t in ps], [t for _, _, t in cues]))
    if any(c for _, c in exp):
        back = listing(I, read(I, "DFXPReader", doc))
        same_listing(I, j, "reread", [b for b in back if b[1]], [(l, [(a, t) for a, _, t in c]) for l, c in exp if c], what + ", read back")


def vtt_write(I, j, want, lang):
    cs = mk(I, want)
    doc = I.s(I.callm(writer(I, "WebVTTWriter"), "write", cs, **({"lang": lang} if lang is not None else {})))
    exp = dict(want).get(lang if lang is not None else want[0][0], [])
    try:
        got = [R.norm(c.lines) for c in R.vtt(doc)]
    except R.Bad as e:
        return j.fail("document", str(e))
    j.true("vtt-lang", got == [t for _, _, t in exp], "WebVTT lang=%s of %s holds %s" % (lang, [l for l, _ in want], got))


DOCS = {"SRTReader": "1\n00:00:01,000 --> 00:00:02,000\na\n", "WebVTTReader": "WEBVTT\n\n00:01.000 --> 00:02.000\na\n",
        "MicroDVDReader": "{25}{50}a\n", "SCCReader": "Scenarist_SCC V1.0\n\n00:00:01:00\t9420 94d0 c1c2 942f\n\n00:00:03:00\t942c\n"}


def read_lang(I, j, rname, lang, pos):
    r = reader(I, rname)
    cs = I.callm(r, "read", DOCS[rname], lang) if pos else I.callm(r, "read", DOCS[rname], lang=lang)
    j.true("reader-lang", [I.s(l) for l in langs(I, cs)] == [lang], "%s(lang=%s) gives %s" % (rname, S.show(lang), langs(I, cs)))
    j.true("reader-lang", len(caps(I, cs, lang)) == 1, "%s(lang=%s): no captions under it" % (rname, S.show(lang)))


# ------------------------------------------------------------------- scenarios
def grids(points, n):
    """all lists of n sorted, non-overlapping cues on the grid"""
    out = []
    for c in itertools.combinations_with_replacement(range(1, points + 1), 2 * n):
        if all(c[2 * i] < c[2 * i + 1] for i in range(n)):
            out.append([(c[2 * i], c[2 * i + 1]) for i in range(n)])
    return out


def cues(tag, iv):
    return [(a * SEC, b * SEC, ["%s%d" % (tag, i)]) for i, (a, b) in enumerate(iv)]


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def batch(name, wants, size=12, **kw):
        wants = list(wants)
        for i in range(0, len(wants), size):
            out.append(Scenario("%s/%d" % (name, i // size), lambda I, j, p=wants[i:i + size]: sami_sets(I, j, p, **kw), 60))
    P = 5 if not thorough else 6
    one = {n: grids(P, n) for n in (0, 1, 2)}
    two = [[("en-US", cues("a", x)), ("fr", cues("b", y))] for n in (0, 1, 2) for m in (0, 1, 2) for x in one[n] for y in one[m] if n + m]
    batch("sami-grid", two)
    g3 = grids(4, 1) + grids(4, 2) + [[]]
    three = [[("en-US", cues("a", x)), ("fr", cues("b", y)), ("de", cues("c", z))]
             for x in g3 for y in g3 for z in g3 if any((x, y, z))]
    batch("sami-three", three if thorough else three[::3])
    long_ = [[(1, 2), (3, 4), (5, 6)], [(1, 3), (3, 5), (5, 7)], [(2, 3), (4, 6)], [(1, 7)], [(6, 7)], [(1, 2), (2, 3), (6, 7)], [], [(4, 5)]]
    batch("sami-long", ([("de", cues("a", x)), ("en-US", cues("b", y)), ("fr", cues("c", z)), ("es", cues("d", u))]
                        for x in long_ for y in long_ for z in long_[:4] for u in (long_[1], long_[3], []) if any((x, y, z, u))))
    # coinciding milliseconds, zero-length cues
    fine = [(("en-US", [(1000000, 2000400, ["a0"]), (2000900, 3000000, ["a1"])]), ("fr", [(1000999, 2000500, ["b0"]), (2000500, 2999999, ["b1"])])),
            (("en-US", [(0, 0, ["a0"]), (0, 5000, ["a1"])]), ("fr", [(0, 4000, ["b0"]), (5000, 5000, ["b1"]), (6000, 7000, ["b2"])])),
            (("en-US", [(5000, 5000, ["a0"]), (7000, 9000, ["a1"])]), ("fr", [(5000, 6000, ["b0"]), (7000, 7500, ["b1"])]))]
    # instants on both sides of powers of ten
    for u in (1, 10, 100, 1000):
        k = u * 1000
        fine += [(("en-US", [(1 * k, 2 * k, ["a0"]), (9 * k, 12 * k, ["a1"]), (12 * k, 13 * k, ["a2"])]),
                  ("fr", [(10 * k, 11 * k, ["b0"]), (11 * k, 13 * k, ["b1"])])),
                 (("en-US", [(11 * k, 12 * k, ["a0"]), (100 * k, 101 * k, ["a1"])]),
                  ("fr", [(2 * k, 9 * k, ["b0"]), (20 * k, 99 * k, ["b1"]), (102 * k, 110 * k, ["b2"])]))]
    batch("sami-fine", [list(x) for x in fine])
    codesets = [["en", "en-US"], ["en-US", "en"], ["pt-BR", "pt-PT"], ["zh", "zh-Hans", "zh-Hant"], ["e", "en", "eng"], ["x-klingon", "tlh"],
                ["de", "en-US", "fr", "es"], ["fr-CA", "fr", "fr-FR"], ["und", "en"], ["en", "und"], ["sr-Latn-RS", "sr"]]
    for cs in codesets:
        for iv in ([[(1, 2)], [(1, 2)]], [[(1, 2), (3, 4)], [(2, 3), (5, 6)]], [[(3, 4)], [(1, 2), (3, 4)]]):
            want = [(l, cues("abcd"[k], iv[min(k, 1)])) for k, l in enumerate(cs)]
            batch("sami-codes/%s/%d" % (",".join(cs), len(iv[0]) + len(iv[1])), [want])
            out.append(Scenario("sami-again/%s/%d" % (",".join(cs), len(iv[0]) + len(iv[1])), lambda I, j, w=want: sami_again(I, j, w), 60))
            for w in ("DFXPWriter", "LegacyDFXPWriter", "SinglePositioningDFXPWriter"):
                for kw, sel in [({}, cs)] + [({"force": l}, [l]) for l in cs]:
                    out.append(Scenario("dfxp-write/%s/%s/%s/%d" % (w, ",".join(cs), kw.get("force", "-"), len(iv[0]) + len(iv[1])),
                                        lambda I, j, a=(want, kw, sel, w): dfxp_write(I, j, *a), 60))
            for l in [None] + cs + ["nn", cs[0][:1]]:
                out.append(Scenario("vtt-lang/%s/%s/%d" % (",".join(cs), l, len(iv[0]) + len(iv[1])), lambda I, j, a=(want, l): vtt_write(I, j, *a), 60))
    # captions with a class of their own
    st = {"encc": {"lang": "en-US", "color": "red"}, "frcc": {"lang": "fr"}, "plain": {"color": "blue"}}
    base2 = [[("en-US", cues("a", x)), ("fr", cues("b", y))] for x in ([(1, 2)], [(1, 2), (4, 5)]) for y in ([(1, 2)], [(2, 3)])]
    for nm, cl in (("own", {"en-US": "encc", "fr": "frcc"}), ("first", {"en-US": "encc"}), ("swapped", {"en-US": "frcc", "fr": "encc"}),
                   ("same", {"en-US": "encc", "fr": "encc"}), ("plain", {"en-US": "plain", "fr": "plain"}), ("unknown", {"fr": "nope"})):
        batch("sami-class/" + nm, base2, styles=st, classes=cl)
    # symbolic times
    for shape in ((1, 1), (2, 1), (1, 2), (1, 1, 1), (3,), (0, 2), (2, 0)):
        for zero in (False, True):
            if sum(shape) > 2 and not thorough and zero:
                continue
            out.append(Scenario("sami-symbolic/%s/%s" % (",".join(map(str, shape)), "zero" if zero else "long"),
                                lambda I, j, a=(shape, ["en-US", "fr", "de"], zero): sami_symbolic(I, j, *a), 400))
    # SAMI documents
    head = [("ENCC", "en-US"), ("FRCC", "fr"), ("ENGB", "en-GB")]
    spec = {"E": ('class="ENCC"', "en-US"), "F": ('class="FRCC"', "fr"), "G": ('class="ENGB"', "en-GB"), "d": ('lang="de"', "de"), "e": ('lang="en"', "en"),
            "b": ('lang="pt-BR"', "pt"), "q": ('lang="en-US"', "en"), "x": ('class="nope"', "und"), "u": ("", "und"),
            "c": ('class="encc"', "en-US"), "l": ('lang="fr" class="ENCC"', "fr"), "m": ('class="FRCC" lang="en-US"', "fr")}

    def sdoc(groups):
        body, want, k = [], [], 0
        for gi, g in enumerate(groups):
            ps = []
            for ch in g:
                a, l = spec[ch]
                t = "t%d" % k
                k += 1
                ps.append((a, t))
                for wl, c in want:
                    if wl == l:
                        c.append(((gi + 1) * SEC, [t]))
                        break
                else:
                    want.append((l, [((gi + 1) * SEC, [t])]))
            body.append(((gi + 1) * 1000, ps))
        return body, want
    pats = [(a + b, c + d) for a in "EFGd" for b in "EFGe" for c in "FG" for d in "EFe"] + [("E", "F", "G"), ("G", "E"), ("e", "E"), ("E", "e"), ("b", "q"), ("bq", "qb"), ("bqE", "Eqb"), ("q", "E"), ("qE", "eEG"), ("q", "e"),
        ("x", "E"), ("u", "F", "x"), ("c", "E"), ("l", "m"), ("lF", "mE"), ("EFGd", "dGFE"), ("d", "e", "F", "E"), ("q", "b", "q")]
    for p in pats:
        body, want = sdoc(p)
        out.append(Scenario("sami-read/" + ",".join(p), lambda I, j, a=(head, body, want): sami_read(I, j, *a), 60))
    # class names that look like languages or like one another
    heads = [[("fr", "de"), ("b", "fr")], [("fr", "en-US"), ("en", "fr")], [("EN", "en-US"), ("ENUS", "en-US")], [("A", "fr"), ("AA", "de")],
             [("und", "fr"), ("x", "und")], [("en-US", "en"), ("en", "en-US")], [("p1", "de"), ("p", "fr")], [("lang", "de"), ("sync1", "fr")],
             [("A", "fr"), ("A", "de")], [("frcc", "fr"), ("FRCC2", "fr"), ("c3", "de")]]
    for hd in heads:
        table = {c.lower(): l for c, l in hd}
        for order in itertools.permutations([c for c, _ in hd] + ["zz"], 3) if len(hd) < 3 else itertools.permutations([c for c, _ in hd], 3):
            for up in (False, True):
                body, want, k = [], [], 0
                for g in (order[:2], order[1:]):
                    ps = []
                    for c in g:
                        l, t = table.get(c.lower(), "und"), "t%d" % k
                        ps.append(('class="%s"' % (c.upper() if up else c), t))
                        for wl, cl in want:
                            if wl == l:
                                cl.append((len(body) * SEC, [t]))
                                break
                        else:
                            want.append((l, [(len(body) * SEC, [t])]))
                        k += 1
                    body.append((len(body) * 1000, ps))
                out.append(Scenario("sami-names/%s/%s/%s" % (",".join("=".join(h) for h in hd), ",".join(order), up),
                                    lambda I, j, a=(hd, body, want): sami_read(I, j, *a), 60))
    out.append(Scenario("sami-read/regional", lambda I, j: sami_regional(I, j), 60))
    # DFXP documents
    labels = [None, "en", "fr", "en-US"]
    for n in (1, 2, 3):
        for combo in itertools.product(labels, repeat=n):
            for tt in (None, "en", "de") if n < 3 else ("en",):
                out.append(Scenario("dfxp-read/%s/%s" % (tt, ",".join(map(str, combo))),
                                    lambda I, j, a=(tt, [(l, 1 + i % 2) for i, l in enumerate(combo)]): dfxp_read(I, j, *a), 60))
    for combo in itertools.product([None, "fr"], [0, 1, 2], [None, "fr", "de"], [0, 1]):
        out.append(Scenario("dfxp-empty/%s" % (combo,), lambda I, j, a=("en", [combo[:2], combo[2:], ("es", 1)]): dfxp_read(I, j, *a), 60))
    for o in ("en", "fr"):
        for i in ("fr", "de", "en"):
            for b in (0, 1):
                for a in (0, 1):
                    out.append(Scenario("dfxp-nested/%s/%s/%d%d" % (o, i, b, a), lambda I, j, x=(o, i, b, a): dfxp_nested(I, j, *x), 60))
    for v in ("xx", "en-GB", "fr", "zz" + word("dl", frozenset("abcdefghijklmnopqrstuvwxyz"))):
        out.append(Scenario("default/%s" % S.show(v), lambda I, j, v=v: default_lang(I, j, v), 60))
    out.append(Scenario("default/unset", lambda I, j: dfxp_read(I, j, None, [(None, 2)], "und"), 60))
    for r in DOCS:
        for l in ("fr", "pt-BR", "und", word("lg", frozenset("abcdefghijklmnopqrstuvwxyz-"))):
            for pos in (False, True):
                out.append(Scenario("reader-lang/%s/%s/%s" % (r, S.show(l), pos), lambda I, j, a=(r, l, pos): read_lang(I, j, *a), 60))
    return out
