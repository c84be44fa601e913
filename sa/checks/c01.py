"""C01: reading preserves every cue's start and end instant."""
from ..lib import *

PROP = "C01"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of every text reader (SRT, WebVTT, DFXP, SAMI,
MicroDVD) over documents whose time stamps are templates of symbolic digits:
each lexical form of the grammar (hour widths 1-4, absent hours, fraction
lengths 0-12, frame fields, offset metrics h/m/s/ms/f, begin+dur, sync
milliseconds, frame numbers with default and declared rates, time shift) is one
template, and its digits stand for all values.  The start and end of every
returned caption are symbolic terms which must equal, as canonical linear forms
over the digits (modulo the branch facts of the path), the instant an
independent exact-arithmetic reading of the grammar assigns to the template;
the number and order of captions must match the non-empty cues.  Captions
obtained by truncating an inexact float are refuted through a valuation of the
digits for which the float expression lands below the exact instant."""
ASSUMPTIONS = ["documents have 1-4 cues with 1-2 lines; cue texts are symbolic words",
               "BeautifulSoup and html.parser behave on symbolic pieces as on any other non-markup character"]
MINIMUM = 100


def expect(I, j, cs, exp, lang=None, texts=None):
    cl = caps(I, cs, lang)
    if not j.true("one-caption-per-cue", len(cl) == len(exp),
                  "%d captions returned for %d non-empty cues" % (len(cl), len(exp))):
        return
    for i, (c, (s, e)) in enumerate(zip(cl, exp)):
        j.numeq("start-instant", I.getattr(c, "start"), pfloor(s), "start of cue %d" % (i + 1))
        j.numeq("end-instant", I.getattr(c, "end"), pfloor(e), "end of cue %d" % (i + 1))
        for nm in ("start", "end"):
            v = numval(I, I.getattr(c, nm))
            if v is not None:
                j.true("integer-instant", v.p.is_int() , "%s of cue %d is not an integer: %s" % (nm, i + 1, v.p))
    if texts:
        for i, (c, t) in enumerate(zip(cl, texts)):
            got = norm_lines(visible(I, c))
            j.true("document-order", len(got) >= 1 and got[0] == t,
                   "caption %d carries %r, expected %r" % (i + 1, [S.show(x) for x in got], S.show(t)))


# ------------------------------------------------------------------------ SRT
def srt(I, j, stamps, sep="\n", tail="\n", gaps=None, lang=None, numbers=None, empties=()):
    doc, exp, texts = "", [], []
    for i, (hd, fr) in enumerate(stamps):
        a, av = clock("a%d" % i, hd, fr, ",")
        b, bv = clock("b%d" % i, hd, fr, ",")
        if i:
            doc += gaps[i - 1] if gaps else "\n"
        t = word("w%d" % i)
        doc += str(numbers[i] if numbers else i + 1) + "\n" + a + " --> " + b + "\n"
        if i in empties:
            continue
        doc += t + "\n" + (word("x%d" % i) + "\n" if i % 2 else "")
        exp.append((av, bv))
        texts.append(t)
    doc = doc.rstrip("\n") + tail
    doc = doc.replace("\n", sep)
    cs = read(I, "SRTReader", doc, **({"lang": lang} if lang else {}))
    if lang:
        j.true("lang-option", [I.s(x) for x in langs(I, cs)] == [lang], "language is not the requested one")
    expect(I, j, cs, exp, texts=texts)


# --------------------------------------------------------------------- WebVTT
def vtt(I, j, stamps, opts=None, sep="\n", header="WEBVTT\n\n", settings="", ids=False, shift=None,
        sorted_=False, notes=False, empties=()):
    doc, exp, texts = header, [], []
    for i, hd in enumerate(stamps):
        a, av = clock("a%d" % i, hd, 3)
        b, bv = clock("b%d" % i, hd, 3)
        if sorted_:
            I.add_fact(bv - av)
            if exp:
                I.add_fact(av - exp[-1][0])
        if notes and i == 1:
            doc += "NOTE " + word("note") + "\n\n"
        if ids:
            doc += word("id%d" % i) + "\n"
        t = word("w%d" % i)
        doc += a + " --> " + b + settings + "\n"
        if i in empties:
            doc += "\n"
            continue
        doc += t + "\n" + (word("x%d" % i) + "\n" if i % 2 else "") + "\n"
        exp.append((av, bv))
        texts.append(t)
    if shift is not None:
        exp = [(s + shift.p.scale(1000), e + shift.p.scale(1000)) for s, e in exp]
    cs = read(I, "WebVTTReader", doc.replace("\n", sep), opts)
    expect(I, j, cs, exp, texts=texts)


def vtt_shift(I, j, strict=False):
    sh = sym("shift", -3600000, 3600000)
    o = {"time_shift_milliseconds": sh}
    if strict:
        o["ignore_timing_errors"] = False
    # the previous-cue check compares against 0 for the first cue
    vtt(I, j, [2, 2], o, shift=sh, sorted_=strict)


# ----------------------------------------------------------------------- DFXP
TT = '<tt xml:lang="en" xmlns="http://www.w3.org/ns/ttml"><head></head><body><div>%s</div></body></tt>'


def dfxp_stamp(form, pre):
    """(text, exact microseconds) of one TTML time expression"""
    k = form[0]
    if k == "clock":
        return clock(pre, form[1], form[2])
    if k == "frames":
        s, v = clock(pre, form[1], 0)
        f, fv = digs(pre + "F", 2, 2)
        return s + ":" + f, v + fv.scale(F(10 ** 6, 30))
    metric, nint, nfrac = form
    s, v = digs(pre + "n", nint)
    v = v.scale(10 ** nfrac)
    if nfrac:
        f, fv = digs(pre + "q", nfrac)
        s += "." + f
        v = v + fv
    unit = {"h": 3600 * 10 ** 6, "m": 60 * 10 ** 6, "s": 10 ** 6, "ms": 1000, "f": F(10 ** 6, 30)}[metric]
    return s + metric, v.scale(F(unit) / 10 ** nfrac)


def dfxp(I, j, f1, f2, how="end", wrap=TT, blank=False):
    body, exp, texts = "", [], []
    for i in range(2):
        a, av = dfxp_stamp(f1, "a%d" % i)
        b, bv = dfxp_stamp(f2, "b%d" % i)
        t = word("w%d" % i)
        body += '<p begin="%s" %s="%s">%s</p>\n' % (a, how, b, t + ("<br/>" + word("x") if i else ""))
        exp.append((av, av + bv if how == "dur" else bv))
        texts.append(t)
        if blank:
            body += '<p begin="%s" end="%s"> </p>\n<p begin="%s" end="%s"/>' % (a, b, a, b)
    cs = read(I, "DFXPReader", wrap % body)
    expect(I, j, cs, exp, texts=texts)


# ----------------------------------------------------------------------- SAMI
SAMI = """<SAMI><HEAD><STYLE TYPE="text/css"><!--
P { text-align: center; }
.ENCC { Name: English; lang: en-US; SAMI_Type: CC; }
--></STYLE></HEAD><BODY>
%s</BODY></SAMI>"""


def sami(I, j, plan, nd=6, tail4=True, same=False):
    """plan: string of T (text), B (blank), N (blank via empty p)"""
    doc, syncs = "", []
    prev = None
    for i, k in enumerate(plan):
        s, v = digs("s%d" % i, nd)
        if prev is not None:
            I.add_fact(v - prev - C(1))
        prev = v
        t = {"T": word("w%d" % i), "B": "&nbsp;", "N": ""}[k]
        doc += "<SYNC start=%s><P class=ENCC>%s</P></SYNC>\n" % ('"%s"' % s, t)
        syncs.append((k, v.scale(1000)))
    cs = read(I, "SAMIReader", SAMI % doc)
    exp, texts = [], []
    for i, (k, v) in enumerate(syncs):
        if k == "T":
            e = syncs[i + 1][1] if i + 1 < len(syncs) else v + C(4000000)
            exp.append((v, e))
            texts.append(word("w%d" % i))
    expect(I, j, cs, exp, texts=texts)


def sami_unclosed(I, j):
    a, av = digs("s0", 5)
    b, bv = digs("s1", 5)
    c, cv = digs("s2", 5)
    I.add_fact(bv - av - C(1))
    I.add_fact(cv - bv - C(1))
    doc = ("<SYNC Start=%s><P Class=ENCC>%s<SYNC Start=%s><P Class=ENCC>&nbsp;\n<SYNC Start=%s><P Class=ENCC>%s<br>%s\n"
           % (a, word("w0"), b, c, word("w1"), word("x1")))
    cs = read(I, "SAMIReader", SAMI % doc)
    expect(I, j, cs, [(av.scale(1000), bv.scale(1000)), (cv.scale(1000), cv.scale(1000) + C(4000000))],
           texts=[word("w0"), word("w1")])


def sami_two_paragraphs(I, j, last):
    """two paragraphs of one language in a sync share its interval"""
    a, av = digs("s0", 5)
    b, bv = digs("s1", 5)
    I.add_fact(bv - av - C(1))
    doc = "<SYNC start=%s><P class=ENCC>%s</P><P class=ENCC>%s</P></SYNC>\n" % (a, word("w0"), word("w1"))
    if not last:
        doc += "<SYNC start=%s><P class=ENCC>&nbsp;</P></SYNC>\n" % b
    cs = read(I, "SAMIReader", SAMI % doc)
    e = av.scale(1000) + C(4000000) if last else bv.scale(1000)
    expect(I, j, cs, [(av.scale(1000), e)] * 2, texts=[word("w0"), word("w1")])


SAMI2 = SAMI.replace("-->", ".FRCC { Name: French; lang: fr-FR; SAMI_Type: CC; }\n-->")


def sami_langs(I, j):
    st = [digs("s%d" % i, 5) for i in range(4)]
    for i in range(3):
        I.add_fact(st[i + 1][1] - st[i][1] - C(1))
    d = "<SYNC start=%s><P class=ENCC>%s</P><P class=FRCC>%s</P></SYNC>\n" % (st[0][0], word("w0"), word("v0"))
    d += "<SYNC start=%s><P class=FRCC>%s</P></SYNC>\n" % (st[1][0], word("v1"))
    d += "<SYNC start=%s><P class=ENCC>%s</P></SYNC>\n" % (st[2][0], word("w1"))
    d += "<SYNC start=%s><P class=ENCC>&nbsp;</P><P class=FRCC>%s</P></SYNC>\n" % (st[3][0], word("v2"))
    cs = read(I, "SAMIReader", SAMI2 % d)
    t = [v.scale(1000) for _, v in st]
    expect(I, j, cs, [(t[0], t[2]), (t[2], t[3])], "en-US", [word("w0"), word("w1")])
    expect(I, j, cs, [(t[0], t[1]), (t[1], t[3]), (t[3], t[3] + C(4000000))], "fr-FR",
           [word("v0"), word("v1"), word("v2")])


# ------------------------------------------------------------------- MicroDVD
def microdvd(I, j, nd, header=None, lang=None):
    doc, exp, texts = "", [], []
    fps = F(25)
    fpsp = None
    if header is not None:
        if header == "sym":
            h, v = digs("r", 2)
            h = h + "." + digs("rf", 3)[0]
            v = v + digs("rf", 3)[1].scale(F(1, 1000))
            I.add_fact(v - C(1))
            doc += "{0}{0}" + h + "\n"
            fpsp = v
        else:
            doc += "{0}{0}" + header + "\n"
            fps = F(header)
    for i in range(2):
        a, av = digs("a%d" % i, nd)
        b, bv = digs("b%d" % i, nd)
        I.add_fact(bv - C(1))
        t = word("w%d" % i)
        doc += "{%s}{%s}%s\n" % (a, b, t + ("|" + word("x") if i else ""))
        if fpsp is not None:
            exp.append((av.scale(10 ** 6).div(fpsp), bv.scale(10 ** 6).div(fpsp)))
        else:
            exp.append((av.scale(F(10 ** 6) / fps), bv.scale(F(10 ** 6) / fps)))
        texts.append(t)
    cs = read(I, "MicroDVDReader", doc)
    expect(I, j, cs, exp, texts=texts)


def microdvd_text(I, j, cues, header=""):
    """cues whose text or frames look like a declaration of the frame rate"""
    fps = F(header or 25)
    doc = "{0}{0}%s\n" % header if header else ""
    doc += "".join("{%d}{%d}%s\n" % c for c in cues)
    cs = read(I, "MicroDVDReader", doc)
    expect(I, j, cs, [tuple(C(F(x * 10 ** 6) / fps) for x in c[:2]) for c in cues], texts=[c[2] for c in cues])


def scenarios(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(Scenario(name, lambda I, j: fn(I, j, *a, **k)))
    for h in (1, 2, 3, 4):
        for fr in (3, 0):
            add("srt/h%d/f%d" % (h, fr), srt, [(h, fr)] * 2)
    add("srt/four-cues", srt, [(2, 3)] * 4, gaps=["\n", "\n\n", "\n \n"])
    add("srt/crlf", srt, [(2, 3), (2, 0)], sep="\r\n")
    add("srt/no-final-newline", srt, [(2, 3)] * 2, tail="")
    for k in (2, 3, 4):
        add("srt/trailing-blanks%d" % k, srt, [(2, 3)] * 2, tail="\n" * k)
    add("srt/lang", srt, [(2, 3)], lang="fr")
    add("srt/numbering", srt, [(2, 3)] * 3, numbers=[7, 7, 1])
    add("srt/empty-first", srt, [(2, 3)] * 3, empties=(0,))
    add("srt/empty-middle", srt, [(2, 3)] * 3, empties=(1,))
    add("srt/empty-last", srt, [(2, 3)] * 3, empties=(2,))
    add("srt/empty-middle-double-blank", srt, [(2, 3)] * 3, empties=(1,), gaps=["\n", "\n\n", "\n"])
    for h in (0, 1, 2, 3, 4):
        add("vtt/h%d" % h, vtt, [h, h])
    add("vtt/mixed", vtt, [0, 2, 3], ids=True, notes=True)
    add("vtt/crlf", vtt, [2, 0], sep="\r\n")
    add("vtt/settings", vtt, [2, 0], settings=" align:start position:10%")
    add("vtt/header-text", vtt, [2, 2], header="WEBVTT - " + "title" + "\n\n")
    add("vtt/strict", vtt, [2, 2], {"ignore_timing_errors": False}, sorted_=True)
    add("vtt/shift", vtt_shift)
    add("vtt/empty-cue", vtt, [2, 2, 2], empties=(1,))
    for h in (1, 2, 3, 4):
        for fr in (0, 1, 2, 3):
            add("dfxp/clock/h%d/f%d" % (h, fr), dfxp, ("clock", h, fr), ("clock", h, fr))
    for fr in (4, 5, 6, 7, 9, 12):
        add("dfxp/clock/h2/f%d" % fr, dfxp, ("clock", 2, fr), ("clock", 2, fr))
    for h in (2, 3):
        add("dfxp/frames/h%d" % h, dfxp, ("frames", h), ("frames", h))
    for m in ("h", "m", "s", "ms", "f"):
        for ni, nf in ((1, 0), (2, 0), (3, 0), (4, 0), (2, 1), (3, 2), (3, 3), (2, 6), (1, 8)):
            if m in ("h",) and ni > 3:
                continue
            add("dfxp/offset/%s/%d.%d" % (m, ni, nf), dfxp, (m, ni, nf), (m, ni, nf))
    add("dfxp/dur/clock", dfxp, ("clock", 2, 3), ("clock", 2, 3), "dur")
    add("dfxp/dur/offset", dfxp, ("s", 3, 3), ("s", 2, 2), "dur")
    add("dfxp/dur/frames", dfxp, ("clock", 2, 3), ("frames", 2), "dur")
    add("dfxp/dur/ms", dfxp, ("clock", 2, 0), ("ms", 5, 0), "dur")
    add("dfxp/mixed", dfxp, ("frames", 2), ("s", 3, 3))
    add("dfxp/blank-p", dfxp, ("clock", 2, 3), ("clock", 2, 3), blank=True)
    for p in ("T", "TB", "TT", "TBT", "TTT", "TTB", "TBTT", "BT", "TNT", "TBBT"):
        add("sami/" + p, sami, p)
    for n in (1, 4, 8, 10):
        add("sami/digits%d" % n, sami, "TT", n)
    add("sami/unclosed", sami_unclosed)
    add("sami/two-p/last", sami_two_paragraphs, True)
    add("sami/two-p", sami_two_paragraphs, False)
    add("sami/langs", sami_langs)
    for n in (1, 3, 5, 7):
        add("microdvd/n%d" % n, microdvd, n)
    for h in ("", "25", "23.976"):
        nm = "microdvd/text%s/" % h
        add(nm + "number", microdvd_text, [(25, 50, "12"), (75, 80, "23.976"), (100, 125, "b")], h)
        add(nm + "instant-number", microdvd_text, [(25, 50, "a"), (75, 75, "100"), (100, 125, "b")], h)
        add(nm + "instant", microdvd_text, [(1, 1, "a"), (75, 75, "x"), (100, 125, "b")], h)
        add(nm + "first-frame", microdvd_text, [(0, 1, "30"), (1, 10, "29.97"), (10, 125, "b")], h)
    for h in ("25", "24", "23.976", "29.97", "30", "30.0", "50", "59.94", "12.5", "60"):
        add("microdvd/fps" + h, microdvd, 6, h)
    return out
