"""Reference (independent) parsers of the five text formats, applied to
abstract documents: every piece is an inert private-use character, so a
conformant grammar reads the skeleton exactly and keeps pieces in place."""
import html
import re
from html.parser import HTMLParser

from . import strs as S
from .num import Poly
from fractions import Fraction as F

C = Poly.const


class Bad(Exception):
    """the document is rejected by the reference grammar"""


class Cue:
    def __init__(self, start=None, end=None, lines=None, **kw):
        self.start, self.end, self.lines = start, end, lines or []
        self.kw = kw
        self.__dict__.update(kw)

    def text(self):
        return ["".join(c for c, _ in l) for l in self.lines]


# ------------------------------------------------------------------- numbers
def intfield(s):
    """(value, minwidth, maxwidth) of a decimal field, or None"""
    if not s:
        return None
    v, lo, hi = C(0), 0, 0
    for i, c in enumerate(s):
        if S.is_atom(c):
            a = S.A(c)
            if a.kind == "digit":
                v, lo, hi = v.scale(10) + a.arg, lo + 1, hi + 1
                continue
            if a.kind == "fmt" and (i == 0 or all(x == "0" for x in s[:i])) and i == len(s) - 1:
                if not isinstance(a.arg, Poly) or not a.arg.is_int():
                    return None
                return a.arg, lo + a.minlen, None if a.maxlen is None else hi + a.maxlen
            return None
        if not (c.isdigit() and c.isascii()):
            return None
        v, lo, hi = v.scale(10) + C(int(c)), lo + 1, hi + 1
    return v, lo, hi


def stamp(s, sep, hours="2", fracdigits=3):
    """hh:mm:ss<sep>fff -> (milliseconds, [field obligations]).
    Obligations: (kind, poly, lo, hi) ranges."""
    fs = s.split(":")
    if len(fs) == 2 and hours == "opt":
        fs = [None] + fs
    if len(fs) != 3 or sep not in fs[2]:
        raise Bad("malformed timestamp %r" % S.show(s))
    sec, ms = fs[2].split(sep, 1)
    tot, obs = C(0), []
    for nm, f, k, w, top in (("hour", fs[0], 3600000, 2, None), ("minute", fs[1], 60000, 2, 59),
                             ("second", sec, 1000, 2, 59), ("millisecond", ms, 1, 3, 999)):
        if f is None:
            continue
        r = intfield(f)
        if r is None:
            raise Bad("%s field of timestamp %r is not an integer" % (nm, S.show(s)))
        v, lo, hi = r
        if lo < w or (nm != "hour" and (hi is None or hi > w)):
            raise Bad("%s field of timestamp %r does not have %d digits" % (nm, S.show(s), w))
        obs.append((nm, v, top))
        tot = tot + v.scale(k)
    return tot, obs


def check_stamp(j, rule, s, sep, expected, what, hours="2"):
    """the written stamp denotes floor(expected us / 1000) with proper carries"""
    from .num import pfloor
    try:
        tot, obs = stamp(s, sep, hours)
    except Bad as e:
        j.fail(rule + "-form", "%s: %s" % (what, e))
        return
    j.numeq(rule, _num(tot), pfloor(expected.scale(F(1, 1000))), "%s in milliseconds" % what)
    for nm, v, top in obs:
        if v.is_const():
            j.true(rule + "-carry", 0 <= v.cval() and (top is None or v.cval() <= top),
                   "%s field of %s out of range" % (nm, what))
            continue
        j.ge(rule + "-carry", v, "%s field of %s >= 0" % (nm, what))
        if top is not None:
            j.ge(rule + "-carry", C(top) - v, "%s field of %s <= %d" % (nm, what, top))


def _num(p):
    from .num import Num
    return Num(p)


# ------------------------------------------------------------------- markup
PLAIN0 = frozenset()


def chars(s, st=PLAIN0):
    return [(c, st) for c in s]


def unesc(s, names=None):
    """decode character references of the concrete skeleton once"""
    def rep(m):
        return html.unescape(m.group(0))
    return re.sub(r"&(?:#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);", rep, s)


def splitlines(s):
    return re.split("\r\n|\n|\r", s)


# ----------------------------------------------------------------------- SRT
def srt(s):
    """SRT block grammar; MULTI-LANGUAGE markers separate languages"""
    lines = splitlines(s)
    i, cues, langs = 0, [], []
    n = 0
    while i < len(lines):
        if lines[i].strip() == "":
            i += 1
            continue
        if "-->" not in (lines[i + 1] if i + 1 < len(lines) else ""):
            if lines[i].strip() == "MULTI-LANGUAGE SRT":
                langs.append(len(cues))
                i += 1
                continue
            raise Bad("line %r is neither a cue number nor blank" % S.show(lines[i]))
        num = intfield(lines[i].strip())
        if num is None:
            raise Bad("cue number expected, found %r" % S.show(lines[i]))
        a, _, b = lines[i + 1].partition("-->")
        if "-->" in b:
            raise Bad("malformed timing line %r" % S.show(lines[i + 1]))
        i += 2
        txt = []
        while i < len(lines) and lines[i].strip(" \t") != "":
            txt.append(chars(lines[i]))
            i += 1
        cues.append(Cue(a.strip(), b.strip(), txt, number=num[0]))
    return cues, langs


# -------------------------------------------------------------------- WebVTT
def vtt(s):
    lines = splitlines(s)
    if not lines or not re.match(r"\ufeff?WEBVTT([ \t]|$)", lines[0]):
        raise Bad("no WEBVTT header")
    i = 1
    while i < len(lines) and lines[i] != "":
        if "-->" in lines[i]:
            raise Bad("cue inside the header")
        i += 1
    cues = []
    while i < len(lines):
        if lines[i] == "":
            i += 1
            continue
        block = []
        while i < len(lines) and lines[i] != "":
            if "-->" in lines[i] and any("-->" in b for b in block):
                break
            block.append(lines[i])
            i += 1
        if block[0].startswith(("NOTE", "STYLE", "REGION")) and "-->" not in block[0]:
            continue
        k = 0 if "-->" in block[0] else 1
        if k >= len(block) or "-->" not in block[k]:
            raise Bad("block %r has no timing line" % S.show(block[0]))
        a, _, b = block[k].partition("-->")
        m = re.match(r"[ \t]*([^ \t]+)(.*)$", b)
        if not m:
            raise Bad("malformed timing line %r" % S.show(block[k]))
        ls, balanced = vtt_payload("\n".join(block[k + 1:]))
        cues.append(Cue(a.strip(), m.group(1), ls, settings=m.group(2).strip(),
                        balanced=balanced, payload="\n".join(block[k + 1:])))
    return cues


VTT_TAG = re.compile(r"<(/?)([^\s.>]*)((?:\.[^\s.>]+)*)(?:[ \t\n]+([^>]*))?>")


def vtt_payload(s):
    """WebVTT cue text tokenizer: (lines of (char, styles), balanced)"""
    out, stack, ok = [], [], True
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            m = VTT_TAG.match(s, i)
            if not m:
                k = s.find(">", i)
                i = len(s) if k < 0 else k + 1      # unknown / unterminated tag
                continue
            i = m.end()
            nm = m.group(2)
            if m.group(1):
                if stack and stack[-1] == nm:
                    stack.pop()
                elif nm in ("c", "i", "b", "u", "ruby", "rt", "v", "lang"):
                    ok = False
            elif nm in ("c", "i", "b", "u", "ruby", "rt", "v", "lang"):
                stack.append(nm)
                if nm == "v":
                    pass
            continue
        st = frozenset({"i": "italics", "b": "bold", "u": "underline"}[t] for t in stack if t in "ibu" and t)
        if c == "&":
            m = re.compile(r"&(?:#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);").match(s, i)
            if m:
                out += chars(html.unescape(m.group(0)), st)
                i = m.end()
                continue
        out.append((c, st))
        i += 1
    if stack:
        ok = False
    return split_br(out), ok


def split_br(cs, br="\n"):
    lines, cur = [], []
    for c, st in cs:
        if c == br:
            lines.append(cur)
            cur = []
        else:
            cur.append((c, st))
    lines.append(cur)
    return lines


BR = "\x00"


# ---------------------------------------------------------------------- SAMI
CSSMAP = {("font-style", "italic"): "italics", ("font-weight", "bold"): "bold",
          ("text-decoration", "underline"): "underline"}


def css_flags(style):
    out = set()
    for d in (style or "").split(";"):
        k, _, v = d.partition(":")
        f = CSSMAP.get((k.strip().lower(), v.strip().lower()))
        if f:
            out.add(f)
    return out


class _Sami(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.syncs, self.css, self.instyle = [], "", False
        self.stack, self.p, self.balanced, self.stray = [], None, True, []
        self.classes = {}

    def class_flags(self, cls):
        out = set()
        for c in (cls or "").split():
            for k, v in self.classes.get("." + c, {}).items():
                f = CSSMAP.get((k, v.lower()))
                if f:
                    out.add(f)
        return out

    def handle_starttag(self, tag, attrs):
        at = dict(attrs)
        if tag == "style":
            self.instyle = True
            return
        if tag == "sync":
            self.endp()
            self.syncs.append((at.get("start"), []))
        elif tag == "p":
            self.endp()
            self.p = Cue(kind="p", cls=at.get("class"), attrs=at)
            self.buf = []
            if self.syncs:
                self.syncs[-1][1].append(self.p)
            else:
                self.balanced = False
        elif tag == "br":
            if self.p is not None:
                self.buf.append((BR, PLAIN0))
        elif tag in ("span", "i", "b", "u", "font", "div"):
            fl = {"i": {"italics"}, "b": {"bold"}, "u": {"underline"}}.get(tag) or (
                self.class_flags(at.get("class")) | css_flags(at.get("style")))
            self.stack.append((tag, frozenset(fl), at))

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag in ("span", "i", "b", "u", "font", "div", "p"):
            pass

    def handle_endtag(self, tag):
        if tag == "style":
            self.instyle = False
            self.classes = css_classes(self.css)[1]
        elif tag in ("span", "i", "b", "u", "font", "div"):
            if self.stack and self.stack[-1][0] == tag:
                self.stack.pop()
            else:
                self.balanced = False
        elif tag in ("p", "sync", "body", "sami"):
            self.endp()

    def endp(self):
        if self.p is not None:
            if self.stack:
                self.balanced = False
            self.stack = []
            self.p.lines = split_br(self.buf, BR)
            self.p = None

    def handle_data(self, d):
        if self.instyle:
            self.css += d
        elif self.p is not None:
            st = frozenset().union(*[f for _, f, _ in self.stack]) if self.stack else PLAIN0
            # control characters and newlines are white space
            self.buf += chars(d.replace("\n", " ").replace(BR, "\ufffd"), st)
        elif d.strip():
            self.stray.append(d.strip())


class Sami:
    pass


def css_classes(css):
    """(whether the rules are in a comment, {selector: {property: value}})"""
    out, body = {}, css
    m = re.search(r"<!--(.*?)-->", body, re.S)
    if m:
        body = m.group(1)
    for sel, rules in re.findall(r"([^{}]+)\{([^{}]*)\}", body):
        d = {}
        for x in rules.split(";"):
            k, _, v = x.partition(":")
            if k.strip():
                d[k.strip().lower()] = v.strip()
        out[sel.strip()] = d
    return m is not None, out


def sami(s):
    p = _Sami()
    p.feed(s)
    p.close()
    p.endp()
    r = Sami()
    r.syncs, r.css, r.balanced, r.stray = p.syncs, p.css, p.balanced, p.stray
    r.wrapped, r.classes = css_classes(p.css)
    return r


def sami_lang(r, cls):
    if cls is None:
        return None
    d = r.classes.get("." + cls) or {}
    return d.get("lang")


# ---------------------------------------------------------------------- DFXP
TTNS = "http://www.w3.org/ns/ttml"
TTS = "http://www.w3.org/ns/ttml#styling"
XMLNS = "http://www.w3.org/XML/1998/namespace"
TTATTR = {("fontStyle", "italic"): "italics", ("fontWeight", "bold"): "bold",
          ("textDecoration", "underline"): "underline"}


class Dfxp:
    pass


def dfxp(s):
    from lxml import etree
    try:
        root = etree.fromstring(s.encode("utf-8"))
    except etree.XMLSyntaxError as e:
        raise Bad("not well-formed XML: %s" % e)
    r = Dfxp()
    r.root = root
    if root.tag != "{%s}tt" % TTNS:
        raise Bad("root element is %s" % root.tag)
    head = root.find("{%s}head" % TTNS)
    body = root.find("{%s}body" % TTNS)
    if head is None or body is None:
        raise Bad("head or body missing")
    q = lambda n: "{%s}%s" % (TTNS, n)
    r.styles = [(e.get("{%s}id" % XMLNS), dict(e.attrib), e) for e in head.iter(q("style"))
                if e.getparent().tag == q("styling")]
    r.regions = [(e.get("{%s}id" % XMLNS), dict(e.attrib), e) for e in head.iter(q("region"))]
    r.ids = [e.get("{%s}id" % XMLNS) for e in root.iter() if isinstance(e.tag, str)
             and e.get("{%s}id" % XMLNS) is not None]
    r.stylerefs, r.regionrefs = [], []
    for e in root.iter():
        if not isinstance(e.tag, str):
            continue
        if e.get("style") is not None:
            r.stylerefs += [(x, e) for x in e.get("style").split()]
        if e.get("region") is not None:
            r.regionrefs.append((e.get("region"), e))
    sty = {k: a for k, a, _ in r.styles}

    def flags(e, inherited):
        f = set(inherited)
        src = []

        def referenced(a, depth):
            for ref in (a.get("style") or "").split():
                if ref in sty and depth < 8:
                    referenced(sty[ref], depth + 1)
                    src.append(sty[ref])
        referenced(e.attrib, 0)
        src.append(e.attrib)
        for a in src:
            for (k, v), fl in TTATTR.items():
                x = a.get("{%s}%s" % (TTS, k))
                if x is not None:
                    (f.add if x == v else f.discard)(fl)
        return frozenset(f)

    def walk(e, st, reg, buf):
        reg = e.get("region", reg)
        st = flags(e, st)
        t = etree.QName(e).localname
        if t == "br":
            buf.append((BR, st, reg))
        for c in (e.text or ""):
            buf.append((" " if c == "\n" else c, st, reg))
        for k in e:
            if isinstance(k.tag, str):
                walk(k, st, reg, buf)
            for c in (k.tail or ""):
                buf.append((" " if c == "\n" else c, st, reg))

    r.divs = []
    for d in body:
        if not isinstance(d.tag, str):
            continue
        if d.tag != q("div"):
            raise Bad("unexpected %s in body" % d.tag)
        ps = []
        dl = d.get("{%s}lang" % XMLNS)
        for p in d:
            if not isinstance(p.tag, str):
                continue
            if p.tag != q("p"):
                raise Bad("unexpected %s in div" % p.tag)
            buf = []
            walk(p, flags(d, flags(body, frozenset())), d.get("region", body.get("region")), buf)
            lines, cur, regs, curr = [], [], [], []
            for c, st, reg in buf:
                if c == BR:
                    lines.append(cur)
                    cur = []
                else:
                    cur.append((c, st))
                    if S.is_atom(c):
                        regs.append((c, reg))
            lines.append(cur)
            ps.append(Cue(p.get("begin"), p.get("end"), lines, el=p, regs=regs, region=p.get("region")))
        r.divs.append((dl, ps, d))
    return r


# ------------------------------------------------------------------ MicroDVD
def mdvd(s):
    cues, fps = [], None
    for l in s.split("\n"):
        if l == "":
            continue
        m = re.match(r"\{([^{}]*)\}\{([^{}]*)\}(.*)$", l, re.S)
        if not m:
            raise Bad("line %r is not {frame}{frame}text" % S.show(l))
        a, b = intfield(m.group(1)), intfield(m.group(2))
        if a is None or b is None:
            raise Bad("frame field of %r is not an integer" % S.show(l))
        cues.append(Cue(a[0], b[0], [chars(x) for x in m.group(3).split("|")]))
    return cues


# ------------------------------------------------------------------ comparing
def norm(lines, nbsp=True):
    """trimmed, whitespace-collapsed non-empty lines"""
    out = []
    for l in lines:
        t = "".join(c for c, _ in l) if not isinstance(l, str) else l
        if nbsp:
            t = t.replace("\u200b", "")
        r, sp = "", False
        for c in t:
            if not S.is_atom(c) and (c in " \t\r\n\f\v" or (nbsp and c == "\xa0")):
                sp = True
            else:
                if sp and r:
                    r += " "
                sp = False
                r += c
        if r:
            out.append(r)
    return out


def flagged(lines):
    """[(visible char, style flags)] ignoring white space, in order"""
    return [(c, st) for l in lines for c, st in l if S.is_atom(c) or not (c.isspace() or c == "\xa0")]
