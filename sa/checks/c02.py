"""C02: writing preserves every cue's start and end instant."""
from ..lib import *
from .. import refs as R

PROP = "C02"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of every text writer on caption sets whose start and
end instants are symbolic (any 0 <= start <= end < 24 h, integer or fractional
microseconds; ordered, overlapping and coinciding cues are separate branches of
the analysis).  The abstract output is read by an independent reference grammar
of the format; per cue, the value of the written stamp (hours, minutes,
seconds, milliseconds recombined, or frames) must equal floor(t/1000) resp.
floor(25 t/10^6) as a linear form with floors, every field must be an integer
within its range and width, and cues must be in order, one per caption (after
the permitted merges)."""
ASSUMPTIONS = ["caption sets have 1-3 captions per language, 1-2 languages, plain words as text",
               "instants are below 24 hours"]
MINIMUM = 100

WRITERS = ["SRTWriter", "WebVTTWriter", "DFXPWriter", "LegacyDFXPWriter",
           "SinglePositioningDFXPWriter", "SAMIWriter", "MicroDVDWriter"]


def make_writer(I, w):
    if w == "SinglePositioningDFXPWriter":
        L = geo(I, "Layout")
        return I.call(ext(I, w), [I.call(L, [], {})], {})
    return I.call(ext(I, w), [], {})


def build(I, n, kind, mode, nlang=1, two=False, zero=False):
    """mode: ordered | any | same (consecutive captions may coincide)"""
    lm = []
    all_ = []
    for l in range(nlang):
        ts = times(n, kind=kind, pre="l%d" % l)
        for a, b in ts:
            I.add_fact(b.p - a.p)
        if mode == "ordered":
            for i in range(1, n):
                I.add_fact(ts[i][0].p - ts[i - 1][1].p)
        elif mode == "same":
            ts = [ts[0]] * n
        elif mode == "same01":
            ts = [ts[0]] * 2 + ts[2:]
        elif mode == "same12":
            ts = [ts[0]] + [ts[1]] * 2 + ts[3:]
        elif mode == "sorted":
            for i in range(1, n):
                I.add_fact(ts[i][0].p - ts[i - 1][0].p)
        elif mode == "samestart":
            ts = [(ts[0][0], b) for _, b in ts]
            for a, b in ts:
                I.add_fact(b.p - a.p)
        elif mode == "sameend":
            ts = [(a, ts[0][1]) for a, _ in ts]
            for a, b in ts:
                I.add_fact(b.p - a.p)
        cl = []
        for i, (a, b) in enumerate(ts):
            t = [word("w%d%d" % (l, i))]
            if two and i % 2:
                t.append(word("x%d%d" % (l, i)))
            cl.append((a, b, t))
        all_.append((["en-US", "fr"][l], cl))
        lm.append((["en-US", "fr"][l], [caption(I, a, b, lines_to_nodes(I, t)) for a, b, t in cl]))
    return capset(I, lm), all_


def groups(I, cl):
    """maximal runs of consecutive captions with identical times"""
    out = []
    for a, b, t in cl:
        if out and I.truth(I.eq(a, out[-1][0])) and I.truth(I.eq(b, out[-1][1])):
            out[-1] = (a, b, out[-1][2] + t)
        else:
            out.append((a, b, list(t)))
    return out


def same_text(j, rule, cue_lines, texts, what):
    got = R.norm(cue_lines)
    j.true(rule, got == texts, "%s carries %r, expected %r" % (
        what, [S.show(x) for x in got], [S.show(x) for x in texts]))


def carries(lines, texts):
    got = R.norm(lines)
    return [x for x in got if x in texts] == texts


def run(I, j, w, n, kind, mode, nlang=1, two=True):
    cs, exp = build(I, n, kind, mode, nlang, two)
    if w == "WebVTTWriter":
        exp = exp[:1]
    wr = make_writer(I, w)
    out = I.callm(wr, "write", cs)
    s = I.s(out)
    if s is None:
        return j.fail("writes-text", "writer returns %s" % j.desc(out))
    try:
        CHECK[w](I, j, s, exp, w)
    except R.Bad as e:
        j.fail("document-grammar", str(e))


def cmp_cues(I, j, cues, cl, sep, hours="2", merge=False):
    """exact sequence, or (merge permitted) the sequence with runs joined"""
    if merge and len(cues) != len(cl):
        cl = groups(I, cl)
    if not j.true("one-cue-per-caption", len(cues) == len(cl),
                  "%d cues written for %d captions" % (len(cues), len(cl))):
        return
    for i, (c, (a, b, t)) in enumerate(zip(cues, cl)):
        R.check_stamp(j, "start", c.start or "", sep, numval(I, a).p, "start of cue %d" % (i + 1), hours)
        R.check_stamp(j, "end", c.end or "", sep, numval(I, b).p, "end of cue %d" % (i + 1), hours)
        same_text(j, "cue-order", c.lines, t, "cue %d" % (i + 1))


def k_srt(I, j, s, exp, w):
    cues, marks = R.srt(s)
    flat = []
    k = 0
    for (lang, cl) in exp:
        n = len(cl)
        end = marks[0] if marks and len(exp) > 1 and lang == exp[0][0] else len(cues)
        cmp_cues(I, j, cues[k:end], cl, ",", merge=True)
        for i, c in enumerate(cues[k:end]):
            j.true("cue-number", c.kw["number"].is_const() and c.kw["number"].cval() == i + 1,
                   "cue %d is numbered %s" % (i + 1, c.kw["number"]))
        k = end


def k_vtt(I, j, s, exp, w):
    cmp_cues(I, j, R.vtt(s), exp[0][1], ".", hours="opt")


def k_dfxp(I, j, s, exp, w):
    d = R.dfxp(s)
    if not j.true("one-div-per-language", [x[0] for x in d.divs] == [l for l, _ in exp],
                  "divs %r for languages %r" % ([x[0] for x in d.divs], [l for l, _ in exp])):
        return
    for (lang, ps, _), (_, cl) in zip(d.divs, exp):
        cmp_cues(I, j, ps, cl, ".", merge=w != "DFXPWriter")


def k_sami(I, j, s, exp, w):
    d = R.sami(s)
    for lang, cl in exp:
        ent = []
        for st, ps in d.syncs:
            for p in ps:
                if R.sami_lang(d, p.kw["cls"]) == lang:
                    ent.append((st, R.norm(p.lines)))
        texts = [t for _, _, t in cl]
        flat = [x for t in texts for x in t]
        cue_ent = [e for e in ent if e[1]]
        if not j.true("one-cue-per-caption", [x for e in cue_ent for x in e[1]] == flat,
                      "paragraphs of %s carry %r" % (lang, [[S.show(x) for x in e[1]] for e in cue_ent])):
            continue
        if len(cue_ent) != len(cl):
            j.fail("one-cue-per-caption", "%d cues for %d captions" % (len(cue_ent), len(cl)))
            continue
        for i, ((st, _), (a, b, t)) in enumerate(zip(cue_ent, cl)):
            ms(I, j, "start", st, numval(I, a).p, "sync of cue %d (%s)" % (i + 1, lang))
        blanks = [intf(j, st) for st, t in ent if not t]
        want = []
        for i in range(len(cl) - 1):
            e, nx = pfloor(numval(I, cl[i][1]).p.scale(F(1, 1000))), pfloor(numval(I, cl[i + 1][0]).p.scale(F(1, 1000)))
            if not I.truth(I.eq(Num(e), Num(nx))):
                want.append((i, e))
        # ends that coincide need a single blank; match each wanted end
        # with some blank and each blank with some wanted end
        for i, e in want:
            ok = any(b is not None and peq(I, b, e) for b in blanks)
            j.true("end", ok, "no blank sync at end %s of cue %d (%s), blanks %s" % (e, i + 1, lang, blanks))
        for b in blanks:
            if b is None:
                continue
            ok = any(peq(I, b, e) for _, e in want)
            j.true("spurious-blank", ok, "blank sync at %s which ends no cue (%s)" % (b, lang))


def peq(I, a, b):
    return I.truth(I.eq(Num(a), Num(b)))


def intf(j, s):
    r = R.intfield(s or "")
    if r is None:
        j.fail("integer-field", "sync start %r is not an integer" % S.show(s or ""))
        return None
    return r[0]


def ms(I, j, rule, s, us, what):
    v = intf(j, s)
    if v is not None:
        j.numeq(rule, Num(v), pfloor(us.scale(F(1, 1000))), what)


def k_mdvd(I, j, s, exp, w):
    cues = R.mdvd(s)
    cl = [c for _, x in exp for c in x]
    if not j.true("one-cue-per-caption", len(cues) == len(cl), "%d cues for %d captions" % (len(cues), len(cl))):
        return
    for i, (c, (a, b, t)) in enumerate(zip(cues, cl)):
        j.numeq("start", Num(c.start), pfloor(numval(I, a).p.scale(F(1, 40000))), "start frame of cue %d" % (i + 1))
        j.numeq("end", Num(c.end), pfloor(numval(I, b).p.scale(F(1, 40000))), "end frame of cue %d" % (i + 1))
        same_text(j, "cue-order", c.lines, t, "cue %d" % (i + 1))


CHECK = {"SRTWriter": k_srt, "WebVTTWriter": k_vtt, "DFXPWriter": k_dfxp, "LegacyDFXPWriter": k_dfxp,
         "SinglePositioningDFXPWriter": k_dfxp, "SAMIWriter": k_sami, "MicroDVDWriter": k_mdvd}


def formatters(I, j, kind, end):
    t = sym("t", 0, DAY - 1, kind == "int", kind)
    c = caption(I, t if not end else 0, t if end else DAY, [text_node(I, word("w"))])
    for sep in (None, ",", "."):
        r = I.callm(c, "format_end" if end else "format_start", *([sep] if sep else []))
        R.check_stamp(j, "format", I.s(r) or "", sep or ".", t.p, "formatted time")


def scenarios(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(Scenario(name, lambda I, j: fn(I, j, *a, **k), 600))
    for kind in ("int", "float"):
        for e in (False, True):
            add("format/%s/%s" % (kind, "end" if e else "start"), formatters, kind, e)
        for w in WRITERS:
            b = w.replace("Writer", "")
            for mode in ("ordered", "any", "same"):
                add("%s/%s/2/%s" % (b, kind, mode), run, w, 2, kind, mode)
            add("%s/%s/1" % (b, kind), run, w, 1, kind, "ordered")
            for mode in ("ordered", "same", "same01", "same12", "samestart", "sameend"):
                if kind == "float" and mode not in ("ordered", "same01"):
                    continue
                add("%s/%s/3/%s" % (b, kind, mode), run, w, 3, kind, mode)
            add("%s/%s/langs" % (b, kind), run, w, 2 if w != "SAMIWriter" or tier == "thorough" else 1, kind, "ordered", 2)
    return out
