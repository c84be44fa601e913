"""C20: format detection is total, consistent and recognises pycaption's own output."""
import itertools

from ..lib import *

PROP = "C20"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of pycaption.detect_format and of every reader's detect
on documents built from the tokens the sniffers look at (digits, line ends of
every kind, braces, arrows, markers in every case, symbolic words of open
length), exhaustively up to a number of tokens, on all truncations and on
insertions into documents of all formats; no exception may escape and the result
has to be the first accepting reader in the documented order.  Output of each
writer for symbolic captions is detected and read."""
ASSUMPTIONS = ["symbolic words hold lower case letters only (no marker)", "caption sets have visible text"]
MINIMUM = 100
ORDER = ("DFXPReader", "MicroDVDReader", "WebVTTReader", "SAMIReader", "SRTReader", "SCCReader")
LOWER = frozenset("abcdefghijklmnopqrstuvwxyz")


def detect(I, j, docs):
    f = api(I, "detect_format")
    for doc in docs:
        show = S.show(doc)[:60]
        acc = []
        for r in ORDER:
            out = []
            e = raised(I, lambda: out.append(I.truth(I.callm(reader(I, r), "detect", doc))))
            if not j.true("detect-total", e is None, "%s.detect(%r) raises %s" % (r, show, e and e[0])):
                continue
            if out[0]:
                acc.append(r)
        out = []
        e = raised(I, lambda: out.append(I.call(f, [doc])))
        if doc == "":
            j.true("empty-rejected", e is not None and "CaptionReadNoCaptions" in e, "the empty string: %s" % (e and e[0] or "is accepted"))
            continue
        if not j.true("total", e is None, "detect_format(%r) raises %s" % (show, e and e[0])):
            continue
        want = api(I, acc[0]) if acc else None
        j.true("first-accepting", out[0] is want, "detect_format(%r) is %s, the first accepting reader is %s" % (
            show, getattr(out[0], "name", out[0]), acc[0] if acc else None))


def written(I, j, wname, rname, build, opts, kw):
    cl = [caption(I, s, e, build(I, k)) for k, (s, e) in enumerate(((10 ** 6, 2 * 10 ** 6), (3 * 10 ** 6, 4 * 10 ** 6), (0, 1))[:2])]
    cs = capset(I, [("en-US", cl)] + ([("de", [caption(I, 10 ** 6, 2 * 10 ** 6, build(I, 5))])] if kw.get("two") else []))
    doc = I.s(write(I, wname, cs, opts) if wname not in ("LegacyDFXPWriter", "SinglePositioningDFXPWriter") else
              I.callm(I.call(ext(I, wname), [], opts), "write", cs))
    e, out = None, []
    e = raised(I, lambda: out.append(I.call(api(I, "detect_format"), [doc])))
    if not j.true("output-detected", e is None, "detection of the output of %s raises %s" % (wname, e and e[0])):
        return
    if not j.true("output-detected", out[0] is api(I, rname), "output of %s is detected as %s" % (
            wname, getattr(out[0], "name", out[0]))):
        return
    got = []
    e = raised(I, lambda: got.append(I.callm(I.call(out[0], []), "read", doc)))
    if not j.true("output-read", e is None, "%s does not read the output of %s: %s" % (rname, wname, e and e[0])):
        return
    ls = langs(I, got[0])
    j.true("output-read", bool(ls) and len(caps(I, got[0], ls[0])) > 0, "the output of %s reads as an empty set" % wname)


SAMPLES = {
    "srt": "1\n00:00:01,000 --> 00:00:02,000\nabc\n\n2\n00:00:03,000 --> 00:00:04,000\ndef\n",
    "vtt": "WEBVTT\n\n00:01.000 --> 00:02.000\nabc\n",
    "mdvd": "{25}{50}abc\n{75}{100}def\n",
    "sami": "<SAMI><HEAD><STYLE TYPE=\"text/css\"><!-- .en {lang: en;} --></STYLE></HEAD><BODY><SYNC start=\"1\"><P class=\"en\">a</P></SYNC></BODY></SAMI>",
    "dfxp": "<tt xml:lang=\"en\" xmlns=\"http://www.w3.org/ns/ttml\"><body><div><p begin=\"0s\" end=\"1s\">a</p></div></body></tt>",
    "scc": "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 9420 9470 6162 942f\n",
}


def scenarios(tier):
    thorough = tier == "thorough"
    out = []
    W1 = word("w", LOWER)
    tok = ["1", "\n", " ", "{1}", "{", "}", "-->", "WEBVTT", "<sami", "<SAMI", "</tt>", "</TT>", "Scenarist_SCC V1.0", "\r", "a",
           "\u00b2", "\u0663", "\x0b", "\u2028", "\ufeff"]
    core = ["1", "\n", "{1}", "-->", "\r", "Scenarist_SCC V1.0", " ", "\u00b2"]

    def add(name, docs):
        docs = list(docs)
        for i in range(0, len(docs), 400):
            part = docs[i:i + 400]
            out.append(Scenario("%s/%d" % (name, i // 400), lambda I, j, part=part: detect(I, j, part), 60))
    add("tokens0", [""])
    for n in (1, 2, 3):
        add("tokens%d" % n, ("".join(t) for t in itertools.product(tok, repeat=n)))
    for n in (4, 5) + ((6,) if thorough else ()):
        add("core%d" % n, ("".join(t) for t in itertools.product(core if n < 5 else core[:5], repeat=n)))
    if thorough:
        add("tokens4", ("".join(t) for t in itertools.product(tok, repeat=4)))
    # with words of any length
    for a in ("",) + tuple(tok):
        for b in ("",) + tuple(tok):
            doc = a + W1 + b
            out.append(Scenario("word/%r" % ((a, b),), lambda I, j, doc=doc: detect(I, j, [doc]), 60))
    for a in ("1\n", "12\n", "\n", "{1}{2}", "1\n-->", "1\r\n", "1 \n"):
        for b in ("\n", "-->", "\n-->", "WEBVTT", ""):
            doc = a + W1 + b
            out.append(Scenario("word2/%r" % ((a, b),), lambda I, j, doc=doc: detect(I, j, [doc]), 60))
    for k, s in sorted(SAMPLES.items()):
        add("truncated/" + k, (s[:i] for i in range(1, len(s) + 1)))
        add("tail/" + k, (s[i:] for i in range(len(s))))
        add("lines/" + k, (e + s.replace("\n", e) for e in ("\r", "\r\n", "\x0b", "\u2028", "\n\n")))
        add("case/" + k, (s.lower(), s.upper(), s.swapcase(), "\ufeff" + s, " " + s))
        for m in ("WEBVTT", "<sami", "</tt>", "1\n-->", "{1}{1}", "Scenarist_SCC V1.0\n"):
            add("insert/%s/%s" % (k, m.strip()), (s[:i] + m + s[i:] for i in range(0, len(s), 3 if not thorough else 1)))
        for k2, s2 in sorted(SAMPLES.items()):
            add("concat/%s-%s" % (k, k2), (s + s2, s + "\n" + s2))
    # markers at any distance from the edges of the document
    for k in (100, 1000, 4096, 10 ** 4, 65536, 10 ** 5) + ((10 ** 6,) if thorough else ()):
        fill = ("lorem ipsum dolor\n" * (k // 18 + 1))[:k]
        for m in ("WEBVTT", "<sami", "</tt>", "1\n-->", "{1}{1}", "Scenarist_SCC V1.0\n"):
            add("far/%d/%s" % (k, m.strip()), (fill + m, fill + m + fill, m + fill, m + fill.replace("\n", " "), "\n" * k + m, " " * k + m))
        add("far/%d/samples" % k, ([s.replace("abc", fill) for s in SAMPLES.values()] + [s.replace("\n", "\n" + fill, 1) for s in SAMPLES.values()]))
        add("far/%d/digits" % k, ("1" * k + "\n-->", "1" * k + "\n" + "a" * k + "-->", "1\n" + " " * k + "-->", "{" + "1" * k + "}{2}", "{1}{" + "1" * k + "}"))
    # output of the writers
    def texts(I, k):
        return {
            "word": [text_node(I, word("w%d" % k, LOWER))],
            "two": [text_node(I, word("w%d" % k, LOWER) + " " + word("v%d" % k, LOWER))],
            "lines": [text_node(I, word("w%d" % k, LOWER)), break_node(I), text_node(I, word("v%d" % k, LOWER))],
            "marks": [text_node(I, word("w%d" % k, LOWER) + " < & > \" ' ; / - 12:30 {y} " + word("v%d" % k, LOWER))],
            "digits": [text_node(I, "1")],
            "digit-lines": [text_node(I, "2"), break_node(I), text_node(I, "3")],
            "braces": [text_node(I, "{1} " + word("w%d" % k, LOWER))],
            "styled": [style_node(I, True, {"italics": True}), text_node(I, word("w%d" % k, LOWER)), style_node(I, False, {"italics": True})],
            "apos": [text_node(I, "'" + word("w%d" % k, LOWER) + "'")],
            "amp": [text_node(I, "a &amp; b &lt;tt&gt; c")],
            "long": [text_node(I, "lorem ipsum " * 12000 + word("w%d" % k, LOWER))],
            "tagged": [text_node(I, "<b> " + word("w%d" % k, LOWER))],
        }
    names = ("word", "two", "lines", "marks", "digits", "digit-lines", "braces", "styled", "apos", "amp", "tagged", "long")
    for w, r, os_ in (("SRTWriter", "SRTReader", [{}]), ("WebVTTWriter", "WebVTTReader", [{}]),
                      ("DFXPWriter", "DFXPReader", [{}, {"write_inline_positioning": True}]), ("SAMIWriter", "SAMIReader", [{}]),
                      ("MicroDVDWriter", "MicroDVDReader", [{}]), ("SCCWriter", "SCCReader", [{}]),
                      ("LegacyDFXPWriter", "DFXPReader", [{}])):
        for o in os_:
            for nm in names:
                def build(I, k, nm=nm, w=w):
                    if w == "SCCWriter":
                        # fixed-width text
                        return {"lines": [text_node(I, "abc"), break_node(I), text_node(I, "def")],
                                "styled": [style_node(I, True, {"italics": True}), text_node(I, "abc"), style_node(I, False, {"italics": True})]
                                }.get(nm, [text_node(I, "12 (abc) '%s'" % "xyz"[k % 3])])
                    return texts(I, k)[nm]
                for two in (False, True):
                    out.append(Scenario("written/%s/%s/%s%s" % (w, nm, "two" if two else "one", "/inline" if o else ""),
                                        lambda I, j, w=w, r=r, b=build, o=o, two=two: written(I, j, w, r, b, o, dict(two=two)), 100))
    return out
