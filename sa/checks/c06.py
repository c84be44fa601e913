"""C06: SCC captions appear and disappear at the frames of their commands."""
import itertools

from ..lib import *
from .. import witness as W
from ..cea import Stream, groups as cells

PROP = "C06"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of SCCReader.read on pop-on programs (sequences of
loads, End-Of-Caption, Erase-Displayed-Memory and filler words over one to four
lines, single or doubled) whose timecodes consist of symbolic digits and whose
offset is symbolic.  Start and end of every caption are compared as linear forms
with a reference that counts words; inter-line gaps are symbolic inside ranges
that decide whether a gap is closed."""
ASSUMPTIONS = ["lines do not overlap: a line begins after the last word of the line before it",
               "gaps of exactly five frames and durations within a microsecond of 0.05 s are not asserted",
               "floating point is treated as exact arithmetic, equality up to one microsecond"]
MINIMUM = 150
FR = F(10 ** 6, 30)


class Line:
    """one SCC line: symbolic timecode, program, rate"""

    def __init__(self, k, sep, frames="1", hour=None):
        pre = "t%d" % k
        self.sep = sep
        if hour is None:
            h, hv = digs(pre + "h", 2, 2)
            m, mv = digs(pre + "m", 2, 5)
        else:
            # in the middle of an hour of its own
            h, hv = "%02d" % hour, C(hour)
            d, mv = dig(pre + "m")
            m, mv = "3" + d, mv + C(30)
        s, sv = digs(pre + "s", 2, 5)
        if len(frames) == 2 and frames.isdigit():
            f, fv = frames, C(int(frames))
        elif frames == "all":
            f, fv = digs(pre + "f", 2, 2)
        else:
            d, dv = dig(pre + "f")
            f, fv = frames + d, dv + C(10 * int(frames))
        self.text = "%s:%s:%s%s%s" % (h, m, s, sep, f)
        rate = F(1) if sep == ";" else F(1001, 1000)
        self.frame = FR * rate
        self.us = (hv.scale(3600) + mv.scale(60) + sv).scale(10 ** 6 * rate) + fv.scale(self.frame)

    def at(self, n):
        return self.us + C(self.frame * n)


def program(st, prog, events, lines):
    """prog: '|'-separated lines of tokens"""
    for ln, toks in zip(lines, prog.split("|")):
        st.begin(ln.text)
        for t in toks:
            if t == "L":            # load a caption
                st.enm()
                st.rcl()
                st.pac(14)
                st.letters(2)
            elif t == "M":          # a caption of two separate rows
                st.enm()
                st.rcl()
                st.pac(2)
                st.letters(2)
                st.pac(14)
                st.letters(2)
            elif t == "l":          # resume loading without erasing
                st.rcl()
                st.pac(15)
                st.letters(4)
            elif t == "e":
                st.enm()
            elif t == "r":
                st.rcl()
            elif t == "F":
                st.flush()
                n = len(st.words) - st.words.count("")
                st.eoc()
                events.append(("F", ln, n, len(cells(st.screens[-1]))))
            elif t == "C":
                st.flush()
                events.append(("C", ln, len(st.words) - st.words.count(""), 0))
                st.edm()
            elif t == "n":
                st.flush()
                st.words.append("8080")
            elif t == "N":
                st.flush()
                st.words += ["8080"] * 5
            elif t == "s":
                st.special()
            elif t == "x":
                st.ext()
            elif t == "t":
                st.pac(15, 4, tab_=2)
                st.letters(2)
            elif t == "i":
                st.mid(7)
            elif t == "b":
                st.letters(1)
                st.bs()
            elif t == "_":          # blank between words
                st.flush()
                st.words.append("")
            else:
                raise AssertionError(t)
        st.flush()
        ln.words = len(st.words) - st.words.count("")


def run(I, j, prog, double, seps, frames="1", gaps=(), offset=None):
    """gaps: per line boundary (low, high) in frames between the last word of a
    line and the timecode of the next"""
    n = prog.count("|") + 1
    lines, hour = [], 0
    for k in range(n):
        if k and not (k <= len(gaps) and gaps[k - 1][1] is not None):
            hour += 1
        lines.append(Line(k, seps[k % len(seps)], frames, hour if n > 2 else None))
    st = Stream(I, double, True)
    events = []
    program(st, prog, events, lines)
    for k in range(1, n):
        lo, hi = gaps[k - 1] if k <= len(gaps) else (6, None)
        a, b = lines[k - 1], lines[k]
        d = b.us - a.at(a.words)
        I.add_fact(d - C(lo * a.frame))
        if hi is not None:
            I.add_fact(C(hi * a.frame) - d)
    off, args = C(0), {}
    if offset == "sym":
        o = sym("offset", -100, 5000, False, "float")
        args["offset"] = o
        off = o.p.scale(10 ** 6)
    elif offset is not None:
        args["offset"] = lift(offset) if isinstance(offset, float) else offset
        off = C(F(offset) * 10 ** 6)

    def at(e):
        return e[1].at(e[2]) - off
    want, cur = [], None
    for e in events:
        if cur is not None:
            want.append((cur, e))
            cur = None
        if e[0] == "F" and e[3]:
            cur = e
    if cur is not None:
        want.append((cur, None))
    if offset is not None and want[0][1]:
        # the first caption is still shown once the offset has passed
        I.add_fact(at(want[0][1]) - C(60000))
    # closing of short gaps
    ends = []
    for k, (a, b) in enumerate(want):
        if b is None:
            ends.append("4s")
            continue
        end = b
        if k + 1 < len(want) and want[k + 1][0] is not b:
            gap = want[k + 1][0][1].at(want[k + 1][0][2]) - b[1].at(b[2])
            five = C(5 * b[1].frame)
            if prove_ge(I.path.facts, five - gap, True):
                end = want[k + 1][0]
            elif not prove_ge(I.path.facts, gap - five, True):
                raise AssertionError("scenario with an undecided gap: %s" % prog)
        ends.append(end)

    def fl(p):
        return C(0) if I.decide_ge(-p) else p
    short = False
    for (a, b), e in zip(want, ends):
        if e != "4s":
            d = e[1].at(e[2]) - a[1].at(a[2])
            if prove_ge(I.path.facts, C(49999) - d):
                short = True
            elif not prove_ge(I.path.facts, d - C(50001)):
                raise AssertionError("scenario with an undecided duration: %s" % prog)
    text = st.document()
    if short:
        r = raised(I, lambda: read(I, "SCCReader", text, **args))
        j.true("flash-rejected", r is not None and "CaptionReadTimingError" in r,
               "a caption shown for less than 0.05 s: %s" % (r and r[0] or "returned"))
        return
    if not want:
        r = raised(I, lambda: read(I, "SCCReader", text, **args))
        j.true("captions", r is not None and "CaptionReadNoCaptions" in r, "nothing is ever shown: %s" % (r and r[0] or "returned"))
        return
    cs = read(I, "SCCReader", text, **args)
    got = caps(I, cs, "en-US")
    groups = sum(w[0][3] for w in want)
    if not j.true("captions", len(got) == groups, "%d captions returned, %d transmitted" % (len(got), groups)):
        return
    i = 0
    prev = None
    for (a, b), e in zip(want, ends):
        for g in range(a[3]):
            c = got[i]
            i += 1
            s, t = j.num(I.getattr(c, "start")), j.num(I.getattr(c, "end"))
            if s is None or t is None:
                j.fail("times", "caption %d has no times" % i)
                return
            ws = fl(at(a))
            wt = ws + C(4 * 10 ** 6) if e == "4s" else fl(at(e))
            close(j, "start", s.p, ws, "caption %d starts at %%s, its End-Of-Caption is sent at %%s" % i)
            close(j, "end", t.p, wt, "caption %d ends at %%s, must be %%s" % i)
            j.ge("start-end", t.p - s.p, "caption %d end - start" % i)
            if prev is not None:
                j.ge("order", s.p - prev, "caption %d follows the one before" % i)
            prev = s.p


def close(j, rule, a, b, msg):
    msg = msg % (a, b)
    d = a - b
    if prove_ge(j.I.path.facts, C(1) - d) and prove_ge(j.I.path.facts, d + C(1)):
        j.proved(rule, msg)
    else:
        j.refuted(rule, msg, [d], lambda asg: abs(W.ev(d, asg)) > 1)


MODES = (("single", False), ("double", True))


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, prog, modes=MODES, seps=(";", ":"), **kw):
        for mn, m in modes:
            if "|CLF" in prog and not m:
                prog = prog.replace("|CLF", "|CLsF")    # not a gap of exactly five frames
            for sp in seps:
                nm = {";": "df", ":": "ndf"}.get(sp, "mixed")
                out.append(Scenario("%s/%s/%s" % (name, mn, nm), lambda I, j, p=prog, m=m, sp=sp, kw=kw:
                                    run(I, j, p, m, sp if isinstance(sp, tuple) else (sp,), **kw), 200))
    # position of the end-of-caption code in its line
    for k in range(0, 14):
        add("count/%d" % k, "L" + "n" * k + "F|C", frames="all" if k % 3 == 0 else "1")
    for k in (4, 9, 12):
        add("count/long%d" % k, "L" + "N" * k + "F|C", frames="2")
        add("count/mid%d" % k, "nL" + "N" * k + "F|C", frames="1", modes=MODES[:1])
    # every kind of word counts, blanks do not
    for p in ("Ls", "Lx", "Lsx", "Lt", "Li", "Lisx", "Lb", "Lbs", "L_", "L__n_", "eLsxtib", "Lsn", "LsnsF|Ls", "LCs"):
        add("kinds/" + p, p + "F|C", seps=(";:"[len(p) % 2],))
        add("kinds2/" + p, p + "F|" + "L" + p[-1] + "FnC", seps=(":;"[len(p) % 2],), frames="12")
    # more than a hundred frames and words
    for f in ("00", "05", "29"):
        for k in (14, 16, 18, 20, 30):
            add("hundred/%s-%d" % (f, k), "L" + "N" * k + "F|C", frames=f, seps=(";:"[k % 4 // 2],))
    # programs over one to three lines
    one = ["LF", "LnF", "CLF", "LCF", "eLF", "LrF", "MF", "MCF", "CLnF", "LCnF", "LCnnF", "LCnnnF", "LCNF", "LnCNnF"]
    last = ["C", "F", "nC", "rF", "CC", "CF", None, "e", "reC"]
    for a in one:
        for b in last:
            p = a if b is None else a + "|" + b
            add("end/%s" % p, p)
            for c in (one if thorough else one[:8] if b in (None, "C") else one[:1] + one[4:5]):
                q = p + "|" + c
                add("two/%s" % q, q, seps=(";", ":") if thorough else (";",) if len(out) % 3 else (":",),
                    modes=MODES if thorough else MODES[len(out) // 2 % 2:][:1])
                add("two-end/%s" % q, q + "|C", seps=(";", ":") if thorough else (":",) if len(out) % 3 else (";",),
                    modes=MODES if thorough else MODES[len(out) // 2 % 2:][:1])
    # the load, the erase and the display on lines of their own
    for p in ("L|F", "L|F|C", "L|F|L|F", "L|F|L|C|F", "L|F|L|CF|C", "L|F|C|L|F|C", "L|reF", "L|F|l|F", "L|F|LC|F", "L|F|C|CL|F",
              "M|F|M|C|F", "L|rFe|L|rFe|rFe"):
        add("lines/" + p, p)
    # short and long gaps between erase and display
    for lo, hi in ((0, 0.5), (0.5, 3.4), (0, 3.9), (3, 3.95), (5.1, 6), (5.5, None), (7, 9)):
        n = "%s-%s" % (lo, hi)
        for m in MODES:
            # words of the erase line after the erase code itself count
            w = 2 if m[1] else 1
            lo2 = max(0, lo - w + 1) if hi is not None and hi < 4 else lo
            hi2 = None if hi is None else hi - w + 1 if hi < 4 else hi
            if hi2 is not None and hi2 <= lo2:
                continue
            add("gap/%s" % n, "LF|L|C|F|C", modes=(m,), gaps=((6, None), (6, None), (lo2, hi2)))
            add("gap-group/%s" % n, "MF|M|C|F|C", modes=(m,), gaps=((6, None), (6, None), (lo2, hi2)))
            add("gap-third/%s" % n, "LF|L|F|L|C|F", modes=(m,), gaps=((6, None), (6, None), (6, None), (6, None), (lo2, hi2)))
    # captions shown too briefly
    for p in ("LFC", "LFnC", "LFC|LF", "LF|LFC", "LFnC|LF", "LF|C|LFC|LF", "LF|LFC|LF", "LFnn|LFC", "MFC", "LFCnnnnLF", "LFrF"):
        single = MODES[:1]
        add("flash/" + p, p, modes=single)
    for p in ("LFC", "LFC|LF", "LF|LFC"):
        add("flash2/" + p, p, modes=MODES[1:])
    for lo, hi in ((0, 0.2), (0.7, 3), (2, None)):
        add("flash-lines/%s" % lo, "L|F|C", modes=MODES[:1], gaps=((6, None), (lo, hi)))
        add("flash-lines3/%s" % lo, "L|F|L|C|F|C", modes=MODES[:1], gaps=((6, None), (6, None), (6, None), (6, None), (lo, hi)))
    # offsets
    for o in ("sym", 0, 1, 3600, -7, 0.5, 12.25):
        add("offset/%s" % o, "LF|C", offset=o, modes=MODES[:1])
        add("offset4/%s" % o, "L|F", offset=o, modes=MODES[1:])
        add("offset-two/%s" % o, "LF|LCF|C", offset=o, modes=MODES[:1])
    # drop and non-drop lines in one file
    add("mixed/a", "LF|C|LF|C", seps=((";", ":"), (":", ";")))
    add("mixed/b", "L|F|L|F", seps=((";", ":"), (":", ";", ";")))
    if thorough:
        al = ["L", "LF", "F", "C", "MF", "CF", "LCF"]
        for n in (3, 4):
            for t in itertools.product(al, repeat=n):
                if "L" in t[0] and (n == 3 or sum(map(len, t)) % 3 == 0):
                    p = "|".join(t)
                    add("grid/" + p, p, seps=(";",) if len(out) % 2 else (":",), modes=MODES[len(out) // 2 % 2:][:1])
    return out
