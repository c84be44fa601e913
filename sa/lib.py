"""Abstract inputs and helpers shared by the property checks."""
from fractions import Fraction as F

from . import strs as S
from .core import api, Scenario, J, Anchor
from .interp import Inst, DictData, PyExc, NULL, Fin, Imprecise, Abort
from .num import Num, Poly, Atom, lift, pfloor, prove_eq, prove_ge

C = Poly.const


# ------------------------------------------------------------------ templates
def dig(name, hi=9, lo=0):
    """a symbolic decimal digit lo..hi: (character, value)"""
    a = Atom.get(name, lo, hi, True)
    cs = frozenset("0123456789"[lo:hi + 1])
    return S.satom("[%s]" % name, cs, 1, 1, "digit", Poly.atom(a)), Poly.atom(a)


def digs(name, n, hi=9):
    """n symbolic digits (first at most hi): (text, integer value)"""
    s, v = "", C(0)
    for i in range(n):
        c, p = dig("%s%d" % (name, i), hi if i == 0 else 9)
        s += c
        v = v.scale(10) + p
    return s, v


def word(name, cs=S.PLAIN):
    return S.text(name, cs)


def clock(pre, hours=2, frac=3, sep=".", minutes=True):
    """hh:mm:ss<sep>fff with symbolic digits: (text, exact microseconds)"""
    s, us = "", C(0)
    if hours:
        h, v = digs(pre + "h", hours)
        s += h + ":"
        us = us + v.scale(3600 * 10 ** 6)
    m, v = digs(pre + "m", 2, 5)
    us = us + v.scale(60 * 10 ** 6)
    s += m + ":"
    c, v = digs(pre + "s", 2, 5)
    us = us + v.scale(10 ** 6)
    s += c
    if frac:
        f, v = digs(pre + "f", frac)
        us = us + v.scale(F(10 ** 6, 10 ** frac))
        s += sep + f
    return s, us


def sym(name, lo=None, hi=None, integer=True, kind="int"):
    return Num.sym(name, lo, hi, integer, kind)


DAY = 24 * 3600 * 10 ** 6


def times(n, top=DAY - 1, kind="int", ordered=True, gap=None, pre="t"):
    """n (start, end) pairs of symbolic microseconds, 0 <= s <= e < 24 h;
    ordered: cue i ends before cue i+1 starts.  Facts are added by install()"""
    out = []
    for i in range(n):
        out.append((sym("%ss%d" % (pre, i), 0, top, kind == "int", kind),
                    sym("%se%d" % (pre, i), 0, top, kind == "int", kind)))
    return out


def constrain(I, ts, ordered=True, strict=True, minlen=0):
    for i, (a, b) in enumerate(ts):
        I.add_fact(b.p - a.p - C(minlen))
        if ordered and i:
            I.add_fact(a.p - ts[i - 1][1].p)


# ------------------------------------------------------------------ api access
def reader(I, name, *args, **kw):
    return I.call(api(I, name), list(args), kw)


writer = reader


def read(I, rname, text, opts=None, **kw):
    return I.callm(reader(I, rname, **(opts or {})), "read", text, **kw)


def write(I, wname, cs, opts=None, **kw):
    return I.callm(I.call(ext(I, wname), [], dict(opts or {})), "write", cs, **kw)


LEGACY = "pycaption.dfxp.extras"


def ext(I, name):
    if name in ("LegacyDFXPWriter", "SinglePositioningDFXPWriter"):
        return api(I, name, LEGACY)
    return api(I, name)


def base(I, name):
    return api(I, name, "pycaption.base")


def geo(I, name):
    return api(I, name, "pycaption.geometry")


def langs(I, cs):
    return list(I.iterate(I.callm(cs, "get_languages")))


def caps(I, cs, lang=None):
    if lang is None:
        ls = langs(I, cs)
        if not ls:
            return []
        lang = ls[0]
    return list(I.iterate(I.callm(cs, "get_captions", lang)))


def node_type(I, n):
    t = I.getattr(n, "type_")
    N = base(I, "CaptionNode")
    for nm in ("TEXT", "STYLE", "BREAK"):
        if I.truth(I.eq(t, I.getattr(N, nm))):
            return nm
    return None


def text_node(I, s, layout=None):
    return I.callm(base(I, "CaptionNode"), "create_text", s, *([layout] if layout is not None else []))


def break_node(I, layout=None):
    return I.callm(base(I, "CaptionNode"), "create_break", *([layout] if layout is not None else []))


def style_node(I, start, content, layout=None):
    d = I.mkdict([(k, v) for k, v in content.items()])
    return I.callm(base(I, "CaptionNode"), "create_style", start, d, *([layout] if layout is not None else []))


def caption(I, start, end, nodes, style=None, layout=None):
    kw = {}
    if layout is not None:
        kw["layout_info"] = layout
    st = I.mkdict([(k, v) for k, v in (style or {}).items()])
    return I.call(base(I, "Caption"), [start, end, I.mklist(nodes), st], kw)


def lines_to_nodes(I, lines, layout=None):
    out = []
    for i, l in enumerate(lines):
        if i:
            out.append(break_node(I, layout))
        out.append(text_node(I, l, layout))
    return out


def capset(I, langmap, styles=None, layout=None, lang_layout=None):
    """langmap: list of (lang, [caption])"""
    d = I.mkdict()
    CL = base(I, "CaptionList")
    for lang, cl in langmap:
        lst = I.mklist(cl)
        ll = (lang_layout or {}).get(lang) if isinstance(lang_layout, dict) else lang_layout
        l = I.call(CL, [lst], {"layout_info": ll} if ll is not None else {})
        I.dict_set(d, lang, l)
    kw = {"styles": I.mkdict([(k, I.mkdict(list(v.items())) if isinstance(v, dict) else v)
                              for k, v in (styles or {}).items()])}
    if layout is not None:
        kw["layout_info"] = layout
    return I.call(base(I, "CaptionSet"), [d], kw)


def visible(I, cap):
    """the caption's text as a list of lines (from its nodes)"""
    lines, cur = [], ""
    for n in I.iterate(I.getattr(cap, "nodes")):
        t = node_type(I, n)
        if t == "TEXT":
            c = I.getattr(n, "content")
            s = I.s(c)
            if s is None:
                s = I.s(I.split(c)) if isinstance(c, Fin) else ""
            cur += s
        elif t == "BREAK":
            lines.append(cur)
            cur = ""
    return lines + [cur]


def norm_ws(s):
    """collapse whitespace runs outside pieces and trim"""
    out, sp = "", False
    for c in s:
        if not S.is_atom(c) and c.isspace():
            sp = True
        else:
            if sp and out:
                out += " "
            sp = False
            out += c
    return out


def norm_lines(lines):
    return [x for x in (norm_ws(l) for l in lines) if x]


def numval(I, v):
    if isinstance(v, Fin):
        v = I.split(v)
    if isinstance(v, Inst):
        v = I.unwrap(v)
    if isinstance(v, bool) or not isinstance(v, (int, Num, float, F)):
        return None
    return lift(v)


# ------------------------------------------------------------------ geometry
UNITS = {"px": "PIXEL", "em": "EM", "%": "PERCENT", "c": "CELL", "pt": "PT"}


def unit(I, u):
    return I.getattr(geo(I, "UnitEnum"), UNITS[u])


def size(I, v, u):
    return I.call(geo(I, "Size"), [v, unit(I, u)])


def point(I, x, y):
    return I.call(geo(I, "Point"), [size(I, *x), size(I, *y)])


def stretch(I, w, h):
    return I.call(geo(I, "Stretch"), [size(I, *w), size(I, *h)])


def padding(I, before=None, after=None, start=None, end=None):
    kw = {k: size(I, *v) for k, v in dict(before=before, after=after, start=start, end=end).items() if v}
    return I.call(geo(I, "Padding"), [], kw)


def alignment(I, h=None, v=None):
    H, V = geo(I, "HorizontalAlignmentEnum"), geo(I, "VerticalAlignmentEnum")
    return I.call(geo(I, "Alignment"), [I.getattr(H, h.upper()) if h else None,
                                        I.getattr(V, v.upper()) if v else None])


def layout(I, origin=None, extent=None, pad=None, align=None, raw=None):
    """origin/extent: ((v, unit), (v, unit)); pad: dict; align: (h, v)"""
    kw = {}
    if origin:
        kw["origin"] = point(I, *origin)
    if extent:
        kw["extent"] = stretch(I, *extent)
    if pad:
        kw["padding"] = padding(I, **pad)
    if align:
        kw["alignment"] = alignment(I, *align)
    if raw:
        kw["webvtt_positioning"] = raw
    return I.call(geo(I, "Layout"), [], kw)


def length(s):
    """a written length: (value Poly, unit, fraction digits) or None"""
    i = 0
    val, frac, seen, neg, nd = C(0), None, False, False, 0
    while i < len(s):
        c = s[i]
        if S.is_atom(c):
            a = S.A(c)
            if a.kind not in ("digit", "fmt"):
                return None
            if a.kind == "fmt":
                if seen:
                    return None
                val = a.arg
            elif frac is None:
                val = val.scale(10) + a.arg
            else:
                nd += 1
                val = val + a.arg.scale(F(1, 10 ** nd))
        elif c.isascii() and c.isdigit():
            if frac is None:
                val = val.scale(10) + C(int(c))
            else:
                nd += 1
                val = val + C(F(int(c), 10 ** nd))
        elif c == "." and frac is None and seen:
            frac = True
            i += 1
            continue
        elif c == "-" and not seen and not neg:
            neg = True
            i += 1
            continue
        else:
            break
        seen = True
        i += 1
    if not seen or (frac and not nd):
        return None
    if any(S.is_atom(c) for c in s[i:]):
        return None
    return (val.scale(-1) if neg else val), s[i:], nd


def opaque(s):
    """the text holds a number in a form the analysis cannot take apart"""
    return any(S.is_atom(c) and S.A(c).kind in ("numtext", "floattext") for c in s)


def pct(v, u, horizontal, dim):
    """percentage of dim that (v, u) stands for, as Poly; v Poly"""
    if u == "%":
        return v
    if u == "c":
        return v.scale(F(100, 32 if horizontal else 15))
    k = {"px": F(1), "em": F(16), "pt": F(4, 3)}[u]
    if isinstance(dim, (int, F)):
        return v.scale(k * 100 / dim)
    return None


def raised(I, f, *names):
    """call f; the name of the exception class (with its bases) it raises, or None"""
    try:
        f()
    except PyExc as e:
        return [c.name for c in e.inst.cls.mro]
    return None
