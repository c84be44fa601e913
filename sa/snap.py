"""Observable state of caption sets: snapshots, comparison, sharing."""
from . import strs as S
from .core import strdiff
from .interp import Inst, DictData, Fin, NULL, FuncV, ModV, ClassV, PyExc, Imprecise
from .lib import *
from .num import Num, Poly, lift, prove_eq

GEO = ("origin", "extent", "padding", "alignment", "webvtt_positioning")


def value(I, v):
    """a style / content value as nested plain data"""
    if isinstance(v, Fin):
        v = I.split(v)
    if isinstance(v, bool) or v is None:
        return ("c", v)
    if isinstance(v, (int, float, F, Num)):
        return ("n", lift(v).p)
    s = I.s(v)
    if s is not None:
        return ("s", s)
    if isinstance(v, tuple):
        return ("l",) + tuple(value(I, x) for x in v)
    if isinstance(v, Inst):
        if v.cls.enum is not None:
            return ("c", "%s.%s" % (v.cls.name, v.attrs["name"]))
        if isinstance(v.data, DictData):
            items = [(value(I, k), value(I, x)) for k, x in v.data.d.values()]
            return ("d",) + tuple(sorted(items, key=lambda t: repr(t[0])))
        if isinstance(v.data, list):
            return ("l",) + tuple(value(I, x) for x in v.data)
        if isinstance(v.data, tuple):
            return ("l",) + tuple(value(I, x) for x in v.data)
        if v.cls.name in ("Layout", "Point", "Stretch", "Padding", "Alignment", "Size"):
            return geom(I, v)
        return ("o", v.cls.name)
    return ("o", type(v).__name__)


def attr(I, o, name):
    v = I._getattr(o, name)
    return None if v is NULL else v


def geom(I, v):
    if v is None:
        return ("c", None)
    n = v.cls.name if isinstance(v, Inst) else ""
    for cls, names in (("Layout", GEO), ("Point", ("x", "y")), ("Stretch", ("horizontal", "vertical")),
                       ("Padding", ("before", "after", "start", "end")),
                       ("Alignment", ("horizontal", "vertical")), ("Size", ("value", "unit"))):
        if n == cls:
            return ("g:" + cls,) + tuple((("s", k), geom(I, attr(I, v, k))) for k in names)
    return value(I, v)


def node(I, n):
    return ("node",) + tuple((("s", k), (geom if k == "layout_info" else value)(I, attr(I, n, k)))
                             for k in ("type_", "content", "start", "position", "layout_info"))


def cap(I, c):
    return ("caption", (("s", "start"), value(I, I.getattr(c, "start"))), (("s", "end"), value(I, I.getattr(c, "end"))),
            (("s", "style"), value(I, I.getattr(c, "style"))),
            (("s", "layout"), geom(I, I.getattr(c, "layout_info"))),
            (("s", "nodes"), ("l",) + tuple(node(I, n) for n in I.iterate(I.getattr(c, "nodes")))))


def capset_dump(I, cs):
    out = [(("s", "layout"), geom(I, I.getattr(cs, "layout_info"))),
           (("s", "styles"), ("l",) + tuple(value(I, t) for t in I.iterate(I.callm(cs, "get_styles"))))]
    ls = langs(I, cs)
    out.append((("s", "languages"), ("l",) + tuple(value(I, l) for l in ls)))
    for l in ls:
        out.append((("s", "captions of " + S.show(I.s(l) or "?")),
                    ("l",) + tuple(cap(I, c) for c in I.iterate(I.callm(cs, "get_captions", l)))))
        out.append((("s", "layout of " + S.show(I.s(l) or "?")), geom(I, I.callm(cs, "get_layout_info", l))))
    return ("set",) + tuple(out)


def show(v):
    if isinstance(v, tuple):
        if v and v[0] == "s" and len(v) == 2 and isinstance(v[1], str):
            return repr(S.show(v[1]))
        if v and v[0] == "n":
            return str(v[1])
        if v and v[0] == "c":
            return repr(v[1])
        return "(" + " ".join(show(x) for x in v)[:300] + ")"
    return str(v)


def diff(I, a, b, at=""):
    """None when equal, else (where, text, Poly that is non-zero or None, sure)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and b and a[0] == "s" and b[0] == "s" and len(a) == len(b) == 2 and isinstance(a[1], str):
            x, y = (I.canon(a[1]), I.canon(b[1])) if a[1] != b[1] else ("", "")
            r = strdiff(I, x, y)
            if r is True:
                return None
            return (at, "%s became %s" % (show(a), show(b)), r if isinstance(r, Poly) else None, r is not None)
        if a and b and a[0] == "n" and b[0] == "n":
            d = a[1] - b[1]
            if prove_eq(I.path.facts, d):
                return None
            return (at, "%s became %s" % (a[1], b[1]), d, True)
        if len(a) != len(b):
            return (at, "%s became %s" % (show(a), show(b)), None, True)
        for i, (x, y) in enumerate(zip(a, b)):
            w = at
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and x[0][:1] == ("s",):
                w = at + "/" + S.show(x[0][1])
            elif a[0] == "l" and i:
                w = at + "[%d]" % (i - 1)
            r = diff(I, x, y, w)
            if r is not None:
                return r
        return None
    if a == b:
        return None
    return (at, "%s became %s" % (show(a), show(b)), None, True)


def same(I, j, rule, a, b, what):
    from . import witness as W
    r = diff(I, a, b)
    if r is None:
        j.proved(rule, what)
        return True
    where, text, poly, sure = r
    msg = "%s: %s %s" % (what, where, text)
    if not sure:
        j.undecided(rule, msg)
    elif poly is not None:
        j.refuted(rule, msg, [poly], lambda asg: W.ev(poly, asg) != 0)
    else:
        j.refuted(rule, msg)
    return False


# ------------------------------------------------------------------- sharing
IMMUT = ("Layout", "Point", "Stretch", "Padding", "Alignment", "Size")


def mutables(I, root):
    """{id: (object, access path)} of the mutable objects a user can edit
    through root: captions, nodes, style dictionaries and lists"""
    out, todo, seen = {}, [(root, "")], set()
    while todo:
        o, at = todo.pop()
        if isinstance(o, tuple):
            todo += [(x, at + "[%d]" % i) for i, x in enumerate(o)]
            continue
        if not isinstance(o, Inst) or id(o) in seen or o.cls.enum is not None:
            continue
        if any(c.name in IMMUT for c in o.cls.mro):
            continue
        seen.add(id(o))
        if isinstance(o.data, (list, DictData)) or o.attrs:
            out[id(o)] = (o, at or "set")
        for k, v in o.attrs.items():
            todo.append((v, at + "." + k))
        if isinstance(o.data, DictData):
            for k, v in o.data.d.values():
                todo.append((v, at + "[%s]" % show(value(I, k))))
        elif isinstance(o.data, list):
            todo += [(x, at + "[%d]" % i) for i, x in enumerate(o.data)]
        elif isinstance(o.data, tuple):
            todo.append((o.data, at))
    return out


def persistent(I, o):
    """created while the package was imported (class attribute, module global,
    default argument), so shared by everything in the process"""
    return (o.gen not in (None, -1, I.gen)) or any(x is o for x, _, _ in I.journal)


def isolated(I, j, sets):
    """no object is editable through two of the (label, set) pairs, and none
    is process-wide"""
    ms = [(n, mutables(I, s)) for n, s in sets]
    for n, m in ms:
        bad = [(at, o) for o, at in m.values() if persistent(I, o)]
        if bad:
            at, o = bad[0]
            j.refuted("isolated", "%s%s is a %s created at import time, shared by the whole process" % (n, at, o.cls.name),
                      where=o.loc or None)
        else:
            j.proved("isolated", "%s holds no process-wide object" % n)
    for i, (n, m) in enumerate(ms):
        for n2, m2 in ms[:i]:
            bad = [k for k in m if k in m2]
            if bad:
                o, at = m[bad[0]]
                j.refuted("isolated", "%s%s is the same %s as %s%s" % (n, at, o.cls.name, n2, m2[bad[0]][1]), where=o.loc or None)
            else:
                j.proved("isolated", "%s and %s share no editable object" % (n, n2))


def edit_everything(I, cs):
    """every edit the API allows: styles, captions, nodes, layouts, languages"""
    I.callm(cs, "add_style", "zz", I.mkdict([("color", "zz")]))
    for t in list(I.iterate(I.callm(cs, "get_styles"))):
        r = list(I.iterate(t))[1]
        if isinstance(r, Inst) and isinstance(r.data, DictData):
            I.dict_set(r, "zz", "zz")
    for l in langs(I, cs):
        cl = I.callm(cs, "get_captions", l)
        cps = list(I.iterate(cl))
        for c in cps:
            st = I.getattr(c, "style")
            if isinstance(st, Inst) and isinstance(st.data, DictData):
                I.dict_set(st, "zz", "zz")
            ns = I.getattr(c, "nodes")
            for n in list(I.iterate(ns)):
                ct = I.getattr(n, "content")
                if isinstance(ct, Inst) and isinstance(ct.data, DictData):
                    I.dict_set(ct, "zz", "zz")
                I.setattr(n, "layout_info", None)
                if node_type(I, n) == "TEXT":
                    I.setattr(n, "content", "zz")
            I.callm(ns, "append", text_node(I, "zz"))
            I.setattr(c, "start", 1)
            I.setattr(c, "layout_info", None)
        if cps:
            I.callm(cl, "append", cps[0])
    I.callm(cs, "set_captions", "zz", I.mklist([]))
