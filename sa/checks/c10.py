"""C10: reading is a deterministic, isolated function of document and options."""
from ..lib import *
from ..snap import capset_dump, same, isolated, edit_everything
from .. import strs as S
from ..core import concrete

PROP = "C10"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of read() over operation histories: one analysed path is
one process (state of modules, classes, default arguments and reader objects is
kept along the path).  The snapshot of a first read of each document (symbolic
words) is compared with those of later reads of the same document by the same
reader object and by fresh ones, after reads of every other document (including
rejected ones) with other options, writes with every writer, and after editing
every earlier result in every way the API allows; and with a read under another
string-hash seed (hash values are unknowns named after the seed, sets of strings
are iterated the other way round).  An alias analysis of the abstract heap shows
that no editable object is reachable from two results or created at import
time."""
ASSUMPTIONS = ["one process history per scenario, up to about a dozen operations",
               "geometry objects are values (never edited in place)",
               "under another hash seed a set of strings comes out in reverse insertion order; other permutations are not distinguished"]
MINIMUM = 100

SAMI_HEAD = """<SAMI><HEAD><STYLE TYPE="text/css"><!--
P { font-family: Arial; margin-left: 5%%; text-align: center; }
%s
--></STYLE></HEAD><BODY>%s</BODY></SAMI>"""


def sami(langs_, body):
    return SAMI_HEAD % ("\n".join(".%s {Name: x; lang: %s;}" % (c, l) for c, l in langs_), body)


def docs(fmt):
    w, v = word("w"), word("v")
    if fmt == "SRTReader":
        return {
            "one": "1\n00:00:01,000 --> 00:00:02,000\n" + w + "\n",
            "two": "1\n00:00:01,000 --> 00:00:02,500\n" + w + "\nb <i>x</i>\n\n2\n00:00:03,000 --> 00:00:04,000\n" + v + "\n",
            "crlf": "7\r\n00:10:01,999 --> 00:10:02,000\r\n" + w + " " + v + "\r\n",
            "empty-cue": "1\n00:00:01,000 --> 00:00:02,000\n\n2\n00:00:03,000 --> 00:00:04,000\na\n",
        }, {"bad-time": "1\n00:00:01 --> x\na\n", "none": "\n"}
    if fmt == "WebVTTReader":
        return {
            "one": "WEBVTT\n\n00:01.000 --> 00:02.000\n" + w + "\n",
            "settings": "WEBVTT\n\nSTYLE\n::cue {}\n\nid1\n00:01.000 --> 00:02.000 align:left position:10%\n<v " + w + ">" + v + "\n<i>b</i>\n\n"
                        "00:03.000 --> 00:04.000 line:0 size:50%\n<b>" + v + "</b>\n",
            "tags": "WEBVTT\n\n00:00:01.000 --> 01:00:02.000\n<c.x>" + w + "</c> &amp; " + v + "\n\nNOTE x\n\n00:00:05.000 --> 01:00:06.000\nz\n",
        }, {"bad": "WEBVTT\n\n00:05.000 --> 00:02.000\na\n", "late": "WEBVTT\n\n59:01.000 --> 59:02.000 align:left\na\n\n00:00.000 --> 00:09.000\nb\n",
            "hours": "WEBVTT\n\n20:00:01.000 --> 20:00:02.000 line:0\na\n",
            "open": "WEBVTT\n\n00:59:01.000 --> 00:59:02.000 align:end\na\n<i>b",
            "none": "WEBVTT\n"}
    if fmt == "MicroDVDReader":
        return {
            "one": "{25}{50}" + w + "\n",
            "fps": "{0}{0}30000/1001\n{25}{50}" + w + "|" + v + "\n{75}{100}b\n",
            "tags": "{25}{50}{y:i}" + w + "|{y:b}" + v + "\n{60}{70}c\n",
        }, {"bad": "{x}{y}a\n", "none": "\n", "late": "{0}{0}50\n{25}{50}a\nb\n", "slow": "{0}{0}12.5\n{25}{50}a\n"}
    if fmt == "DFXPReader":
        head = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><styling>'
                '<style xml:id="s1" tts:color="red" tts:fontStyle="italic"/><style xml:id="s2" style="s1" tts:textAlign="center"/></styling>'
                '<layout><region xml:id="r1" tts:origin="10%% 20%%" tts:extent="50%% 30%%"/>'
                '<region xml:id="r2" tts:textAlign="end" tts:displayAlign="before" tts:padding="1%% 2%% 3%% 4%%"/></layout></head><body>%s</body></tt>')
        return {
            "plain": '<tt xml:lang="en"><body><div><p begin="00:00:01.000" end="00:00:02.000">' + w + '</p></div></body></tt>',
            "regions": head % ('<div><p begin="1s" end="2s" region="r1">' + w + '<br/>' + v + '</p><p begin="3s" dur="2s" region="r2" style="s1">'
                               + v + '</p></div>'),
            "spans": head % ('<div region="r1" style="s2"><p begin="1s" end="2s"><span style="s1">' + w + '</span> <span tts:fontWeight="bold" region="r2">'
                             + v + '</span></p></div>'),
            "langs": head % ('<div xml:lang="fr"><p begin="1s" end="2s">' + w + '</p></div><div xml:lang="de"><p begin="1s" end="2s">' + v
                             + '</p></div><div><p begin="1s" end="2s">x</p></div>'),
            "inline": head % ('<div><p begin="1s" end="2s" tts:origin="5px 6px" tts:extent="7c 8c">' + w + '</p></div>'),
        }, {"bad": head % '<div><p begin="xx" end="2s">a</p></div>', "none": head % "<div/>",
            "late": head % '<div region="r1"><p begin="1s" end="2s" style="s2"><span style="s1">a</span></p><p begin="3s" end="?">b</p></div>'}
    if fmt == "SAMIReader":
        two = [("ENCC", "en-US"), ("FRCC", "fr")]
        return {
            "one": sami([("ENCC", "en-US")], "<SYNC start=\"1000\"><P class=\"ENCC\">" + w + "<br/>" + v + "</P></SYNC><SYNC start=\"2000\"><P class=\"ENCC\">&nbsp;</P></SYNC>"),
            "two": sami(two, "<SYNC start=\"1000\"><P class=\"ENCC\">" + w + "</P><P class=\"FRCC\"><i>" + v + "</i></P></SYNC>"
                             "<SYNC start=\"2000\"><P class=\"FRCC\" style=\"text-align:right; margin-top: 3%;\">" + w + "</P></SYNC>"),
            "four": sami([("A", "de"), ("B", "en-US"), ("C", "fr"), ("D", "es")],
                         "<SYNC start=\"1000\"><P class=\"C\">" + w + "</P><P class=\"A\">" + v + "</P></SYNC>"
                         "<SYNC start=\"2000\"><P class=\"D\">" + w + "</P><P class=\"B\"><span style=\"font-style:italic;color:red\">x</span></P></SYNC>"),
            "attr": sami([], "<SYNC start=\"1000\"><P lang=\"pl\">" + w + "</P></SYNC><SYNC start=\"2000\"><P lang=\"en\">" + v + "</P></SYNC>"),
        }, {"bad": sami(two, "<SYNC start=\"x\"><P class=\"ENCC\">a</P></SYNC>"), "none": sami(two, ""),
            "late": sami(two, "<SYNC start=\"1000\"><P class=\"ENCC\" style=\"text-align:right\"><i>a</i></P><P class=\"FRCC\">b</P></SYNC><SYNC start=\"z\"><P class=\"ENCC\">c</P></SYNC>")}
    if fmt == "SCCReader":
        H = "Scenarist_SCC V1.0\n\n"
        return {
            "pop": H + "00:00:01:00\t94ae 94ae 9420 9420 94d0 94d0 c1c2 c380 942f 942f\n\n00:00:03:00\t942c 942c\n",
            "pop-two": H + "00:00:01;00\t9420 9452 97a1 c1c2 91ae c4c5 942f\n00:00:03;00\t94ae 9420 9470 4c4f 942f\n00:00:05;00\t942c\n",
            "roll": H + "00:00:01:00\t9425 9425 94ad 94ad 9470 9470 c1c2\n00:00:03:00\t9425 94ad 9470 c4c5\n00:00:05:00\t942c\n",
            "paint": H + "00:00:01:00\t9429 9429 94d0 94d0 c1c2\n00:00:02:00\t94ad\n00:00:03:00\t942c 942c\n",
            "unended": H + "00:00:01:00\t9420 94d0 c1c2 942f\n",
            "unplaced": H + "00:00:01:00\t9420 c1c2 942f\n00:00:03:00\t942c\n",
            "special": H + "00:00:01:00\t9420 94d0 91b0 c180 92a1 9132 91ae c2c3 942f\n00:00:03:00\t942c\n",
        }, {"long": H + "00:00:01:00\t9420 94d0 " + "c1c2 " * 17 + "942f\n00:00:03:00\t942c\n", "bad-time": H + "00:00:0x:00\t9420 94d0 c1c2 942f\n",
            "none": H, "pending": H + "00:00:01:00\t9420 94d0 91ae c1c2 9452\n", "doubled": H + "00:00:01:00\t9420 94d0 c1c2 942f\n00:00:03:00\t9420",
            "mixed": H + "00:00:01:00\t9425 94ad 9470 91ae c1c2\n00:00:02:00\t9429 9452 c4c5\n00:00:03:00\t9420 94d0 c1c2\n"}


OPTS = {
    "SRTReader": [{}, {"lang": "fr"}],
    "WebVTTReader": [{}, {"lang": "de"}],
    "MicroDVDReader": [{}, {"lang": "fr"}],
    "DFXPReader": [{}],
    "SAMIReader": [{}],
    "SCCReader": [{}, {"simulate_roll_up": True}, {"lang": "fr", "offset": 5}],
}
CTOR = {"WebVTTReader": [{}, {"ignore_timing_errors": False}, {"time_shift_milliseconds": 1500}],
        "DFXPReader": [{}, {"read_invalid_positioning": True}]}
WRITERS = ("SRTWriter", "WebVTTWriter", "DFXPWriter", "SAMIWriter", "MicroDVDWriter", "SCCWriter",
           "LegacyDFXPWriter", "SinglePositioningDFXPWriter")


def mkwriter(I, name, kw=None):
    if name == "SinglePositioningDFXPWriter":
        return I.call(ext(I, name), [layout(I, origin=((10, "%"), (20, "%")))], kw or {})
    return I.call(ext(I, name), [], kw or {})


def attempt(I, f):
    out = []
    e = raised(I, lambda: out.append(f()))
    return (out[0] if out else None), e


def rd(I, r, doc, o):
    """read; (snapshot or the exception, set)"""
    cs, e = attempt(I, lambda: I.callm(r, "read", doc, **o))
    return (("exc", e[0]) if e else capset_dump(I, cs)), cs


def history(I, j, fmt, doc, ctor, o, prior, cross):
    mk = lambda: reader(I, fmt, **ctor)
    base, cs0 = rd(I, mk(), doc, o)
    r = mk()
    for pd, po in prior:
        p, e = attempt(I, lambda: I.callm(r, "read", pd, **po))
        if p is not None:
            attempt(I, lambda: edit_everything(I, p))
    for f2, d2, wn in cross:
        p, e = attempt(I, lambda: I.callm(reader(I, f2), "read", d2))
        if p is not None:
            attempt(I, lambda: I.callm(mkwriter(I, wn), "write", p))
            attempt(I, lambda: edit_everything(I, p))
    j.site = None
    used, cs1 = rd(I, r, doc, o)
    same(I, j, "reader-reuse", base, used, "reading with a reader used before")
    fresh, cs2 = rd(I, mk(), doc, o)
    same(I, j, "history", base, fresh, "reading after other operations")
    if cs0 is None or cs1 is None or cs2 is None:
        return
    same(I, j, "earlier-result", base, capset_dump(I, cs0), "the set read first, after later operations")
    isolated(I, j, [("first", cs0), ("reused", cs1), ("fresh", cs2)])


def edits(I, j, fmt, doc, ctor, o):
    mk = lambda: reader(I, fmt, **ctor)
    r = mk()
    base, cs0 = rd(I, r, doc, o)
    other, cs1 = rd(I, mk(), doc, o)
    edit_everything(I, cs1)
    same(I, j, "edit-isolated", base, capset_dump(I, cs0), "a set, after editing another")
    for w in WRITERS:
        attempt(I, lambda: I.callm(mkwriter(I, w), "write", cs1))
    edit_everything(I, cs0)
    again, cs2 = rd(I, r, doc, o)
    same(I, j, "edit-isolated", base, again, "a later read, after editing earlier sets")
    edit_everything(I, cs2)
    again, cs3 = rd(I, mk(), doc, o)
    same(I, j, "edit-isolated", base, again, "a later read by a fresh reader, after editing earlier sets")


def seeds(I, j, fmt, doc, ctor, o):
    base, cs0 = rd(I, reader(I, fmt, **ctor), doc, o)
    I.hseed = "'"
    other, cs1 = rd(I, reader(I, fmt, **ctor), doc, o)
    I.hseed = ""
    same(I, j, "hash-seed", base, other, "reading under another hash seed")


def scenarios(tier):
    out = []
    sample = {f: concrete(list(docs(f)[0].values())[-1]) for f in OPTS}
    for fmt in OPTS:
        good, bad = docs(fmt)
        alls = list(good.items()) + list(bad.items())
        for ctor in CTOR.get(fmt, [{}]):
            cn = ",".join(ctor) or "-"
            for o in OPTS[fmt]:
                on = ",".join(o) or "-"
                for n, d in good.items():
                    nm = "%s/%s/%s/%s" % (fmt, cn, on, n)
                    out.append(Scenario("edits/" + nm, lambda I, j, a=(fmt, d, ctor, o): edits(I, j, *a), 60))
                    out.append(Scenario("seed/" + nm, lambda I, j, a=(fmt, d, ctor, o): seeds(I, j, *a), 60))
                    out.append(Scenario("history/none/" + nm, lambda I, j, a=(fmt, d, ctor, o): history(I, j, *a, [], []), 60))
                    others = OPTS[fmt] + ([{"offset": 7, "simulate_roll_up": True}] if fmt == "SCCReader" else [])
                    for pn, pd in alls:
                        for i, po in enumerate(others):
                            out.append(Scenario("history/%s-%d/%s" % (pn, i, nm),
                                                lambda I, j, a=(fmt, d, ctor, o, [(pd, po)], []): history(I, j, *a), 60))
                    seq = [(pd, po) for pn, pd in alls for po in others[:1]]
                    out.append(Scenario("history/all/" + nm, lambda I, j, a=(fmt, d, ctor, o, seq, []): history(I, j, *a), 60))
                    cross = [(f2, sample[f2], w) for f2, w in zip(list(OPTS) * 2, WRITERS)]
                    out.append(Scenario("history/cross/" + nm, lambda I, j, a=(fmt, d, ctor, o, [], cross): history(I, j, *a), 60))
                for n, d in bad.items():
                    nm = "%s/%s/%s/%s" % (fmt, cn, on, n)
                    out.append(Scenario("history/all/" + nm, lambda I, j, a=(fmt, d, ctor, o, [(x, {}) for _, x in alls], []): history(I, j, *a), 60))
    return out
