"""C18: geometry values compare, hash, parse and print consistently."""
import ast
import itertools

from ..lib import *

PROP = "C18"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of the geometry module.  Equality: for every class,
pairs of values whose magnitudes are symbolic (equal, or constrained to differ
on one side) and whose units, alignments and None-ness are enumerated; == and
!= must decide exactly component equality on every path and the hash terms of
equal values must be equal linear forms; exhaustive over all pairs of layouts
built from none/first/second choices of the four components.  Parsing:
Size.from_string is analysed on all token strings (symbolic digit, point,
signs, exponent, every unit and unit fragment, space, line break, non-ASCII
digit) up to a length bound, accepted exactly when the token string is in the
grammar, with the parsed value equal to the decimal reading as a linear form,
and otherwise left through CaptionReadSyntaxError.  Printing: for a symbolic
real magnitude the printed template is within half a hundredth, has at most two
decimals, and re-parsing then re-printing it reproduces it.  Padding shorthands
are expanded in TTML order.  Purity: the object graph of the receiver (and of
the arguments) is compared before and after every transformation."""
ASSUMPTIONS = ["magnitudes 0..10^6; strings over the token alphabet up to 3 tokens (5 over the core alphabet)",
               "distinct hash atoms are not required to differ (collisions are allowed)"]
MINIMUM = 3000

UN = ["px", "em", "%", "c", "pt"]


def V(name, lo=0, hi=10 ** 6):
    return sym(name, lo, hi, False, "float")


def mksize(I, spec):
    return size(I, spec[0], spec[1])


def judge_pair(I, j, a, b, equal, what):
    e = I.truth(I.eq(a, b))
    j.true("eq", e is equal, "%s: == is %s" % (what, e))
    n = I.truth(I.compare(ast.NotEq(), a, b))
    j.true("ne", n is (not equal), "%s: != is %s" % (what, n))
    if equal:
        ha, hb = I.hash(a), I.hash(b)
        j.numeq("hash", ha, j.num(hb).p, "%s: hashes of equal values" % what)
        d = I.mkdict([(a, 1)])
        j.true("dict-key", I.contains(d, b) is not False, "%s: equal value is not found as a dictionary key" % what)


# ---------------------------------------------------------------- equality
def t_size_eq(I, j, u):
    v = V("v")
    for u2 in UN:
        judge_pair(I, j, size(I, v, u), size(I, v, u2), u == u2, "Size %s/%s same value" % (u, u2))
        w = V("w")
        snap = list(I.path.facts)
        I.add_fact(w.p - v.p - C(F(1, 1000)))
        judge_pair(I, j, size(I, v, u), size(I, w, u2), False, "Size %s/%s different value" % (u, u2))
        judge_pair(I, j, size(I, w, u2), size(I, v, u), False, "Size %s/%s different value" % (u2, u))
        I.path.facts[:] = snap
    judge_pair(I, j, size(I, 3, u), size(I, Num(C(3), "float"), u), True, "Size of int and float")
    judge_pair(I, j, size(I, 0, u), size(I, Num(C(0), "float"), u), True, "zero Size")
    for o in (None, 0, "", v):
        judge_pair(I, j, size(I, v, u), o, False, "Size and %r" % (o,))


def comps(cls):
    return {"Point": 2, "Stretch": 2, "Padding": 4}[cls]


def mk(I, cls, ss):
    if cls == "Padding":
        return padding(I, **dict(zip(["before", "after", "start", "end"], ss)))
    return (point if cls == "Point" else stretch)(I, *ss)


def t_multi_eq(I, j, cls, i, u):
    """component i has unit u; pairs differing in nothing, in its value, in its unit"""
    n = comps(cls)
    base_ = [(V("v%d" % k), UN[(k + 2) % 5]) for k in range(n)]
    base_[i] = (base_[i][0], u)
    a = mk(I, cls, base_)
    judge_pair(I, j, a, mk(I, cls, base_), True, "%s equal" % cls)
    w = V("w")
    I.add_fact(w.p - base_[i][0].p - C(F(1, 1000)))
    o = list(base_)
    o[i] = (w, u)
    judge_pair(I, j, a, mk(I, cls, o), False, "%s component %d value" % (cls, i))
    for u2 in UN:
        if u2 != u:
            o[i] = (base_[i][0], u2)
            judge_pair(I, j, a, mk(I, cls, o), False, "%s component %d unit" % (cls, i))
    for k in range(n):
        if k != i:
            o = list(base_)
            o[i], o[k] = o[k], o[i]
            same = UN.index(u) == UN.index(base_[k][1])
            if not same:
                judge_pair(I, j, a, mk(I, cls, o), False, "%s components %d and %d exchanged" % (cls, i, k))
    judge_pair(I, j, a, None, False, "%s and None" % cls)
    if n == 2:
        other = "Stretch" if cls == "Point" else "Point"
        judge_pair(I, j, a, mk(I, other, base_), False, "%s and %s" % (cls, other))


def t_pad_default(I, j):
    """unspecified paddings are 0%"""
    z = (Num(C(0), "float"), "%")
    names = ["before", "after", "start", "end"]
    for m in itertools.product([0, 1], repeat=4):
        sp = {k: (V("v" + k), "px") for k, b in zip(names, m) if b}
        full = {k: sp.get(k, z) for k in names}
        judge_pair(I, j, padding(I, **sp), padding(I, **full), True, "padding with defaults")


HZ = [None, "left", "center", "right", "start", "end"]
VT = [None, "top", "center", "bottom"]


def t_align_eq(I, j, h, v):
    a = alignment(I, h, v)
    for h2 in HZ:
        for v2 in VT:
            judge_pair(I, j, a, alignment(I, h2, v2), (h, v) == (h2, v2), "Alignment %s/%s %s/%s" % (h, v, h2, v2))
    judge_pair(I, j, a, None, False, "Alignment and None")


def t_layout_eq(I, j, combo):
    """one layout against all 81 (each component absent, first or second choice)"""
    x, y = V("x"), V("y")
    I.add_fact(x.p - C(F(1, 1000)))
    I.add_fact(y.p - x.p - C(F(1, 1000)))
    ch = {
        "origin": [None, ((x, "%"), (y, "%")), ((y, "%"), (x, "%"))],
        "extent": [None, ((x, "%"), (y, "%")), ((x, "%"), (y, "px"))],
        "pad": [None, {"before": (x, "%")}, {"after": (x, "%")}],
        "align": [None, ("left", "top"), ("left", "bottom")],
    }
    ks = list(ch)
    mkl = lambda c, **k: layout(I, **{kk: ch[kk][i] for kk, i in zip(ks, c)}, **k)
    a = mkl(combo)
    for c in itertools.product(range(3), repeat=4):
        judge_pair(I, j, a, mkl(c), c == combo, "Layout %s/%s" % (combo, c))
    judge_pair(I, j, a, None, False, "Layout and None")
    judge_pair(I, j, a, mkl(combo, raw="line:0"), True, "Layout with raw cue settings")


# ------------------------------------------------------------------ parsing
TOK = ["D", "0", ".", "-", "+", "e", "px", "em", "%", "c", "pt", " ", "\n", "\u0663", "p", "E", "PX", ","]
CORE = ["D", ".", "%", "px", "0", " "]


def expected(toks):
    """(value poly builder, unit) or None"""
    t = list(toks)
    if t == ["0"]:
        return C(0), "px"
    i, n, nd, val = 0, 0, 0, C(0)
    digs_ = []
    while i < len(t) and t[i] in ("D", "0"):
        digs_.append((t[i], i, 0))
        i += 1
    if not digs_:
        return None
    if i < len(t) and t[i] == ".":
        i += 1
        k = i
        while i < len(t) and t[i] in ("D", "0"):
            digs_.append((t[i], i, i - k + 1))
            i += 1
        if i == k:
            return None
    if i == len(t) - 1 and t[i] in UN:
        return digs_, t[i]
    return None


def t_parse(I, j, seqs):
    cls = geo(I, "Size")
    for toks in seqs:
        s, vals = "", {}
        for k, t in enumerate(toks):
            if t == "D":
                c, p = dig("d%d" % k, 9, 1)
                s += c
                vals[k] = p
            else:
                s += t
                if t == "0":
                    vals[k] = C(0)
        want = expected(toks)
        txt = "".join(toks)
        got = []
        try:
            names = raised(I, lambda: got.append(I.callm(cls, "from_string", s)))
        except Imprecise as e:
            j.undecided("parse", "%r: %s" % (txt, e))
            continue
        if want is None:
            if not j.true("reject", names is not None and "CaptionReadSyntaxError" in names,
                          "size %r is %s" % (txt, "accepted" if names is None else "rejected with %s" % names[0])):
                pass
            continue
        if not j.true("accept", names is None, "size %r is rejected (%s)" % (txt, names and names[0])):
            continue
        if isinstance(want[0], Poly):
            v = want[0]
        else:
            v = C(0)
            for t, k, nd in want[0]:
                if nd == 0:
                    v = v.scale(10) + vals[k]
                else:
                    v = v + vals[k].scale(F(1, 10 ** nd))
        j.numeq("parsed-value", I.getattr(got[0], "value"), v, "value of %r" % txt)
        j.true("parsed-unit", I.truth(I.eq(I.getattr(got[0], "unit"), unit(I, want[1]))), "unit of %r" % txt)


# ----------------------------------------------------------------- printing
def t_print(I, j, u, hi):
    from .c13 import check_len
    v = V("v", 0, hi)
    a = size(I, v, u)
    for m in ("__str__", "to_xml_attribute"):
        s = I.s(I.callm(a, m))
        r = length(s)
        if r is None and opaque(s):
            return j.undecided("print-form", "%s prints %r" % (m, S.show(s)))
        if r is None or r[1] != u:
            return j.fail("print-form", "%s prints %r" % (m, S.show(s)))
        p, _, nd = r
        j.true("print-decimals", nd <= 2, "%r has more than two decimals" % S.show(s))
        j.ge("print-rounds", p - v.p + C(F(5, 1000)), "printed at least value - 0.005")
        j.ge("print-rounds", v.p - p + C(F(5, 1000)), "printed at most value + 0.005")
        b = I.callm(geo(I, "Size"), "from_string", s)
        j.numeq("reparse-value", I.getattr(b, "value"), p, "re-parsed value")
        j.true("reparse-unit", I.truth(I.eq(I.getattr(b, "unit"), unit(I, u))), "re-parsed unit")
        s2 = I.s(I.callm(b, m))
        r2 = length(s2)
        if r2 is None or r2[1] != u:
            return j.fail("reprint-form", "re-printing gives %r" % S.show(s2))
        j.numeq("reprint", Num(r2[0], "float"), p, "re-printed value")
        # no trailing zero decimals are needed for equality of text: same number of decimals
        j.true("reprint-decimals", r2[2] == nd, "re-printing %r gives %r" % (S.show(s), S.show(s2)))


def t_print_exact(I, j, u):
    """values with at most two decimals survive printing exactly"""
    n = sym("n", 0, 10 ** 6, True)
    for k in (1, 10, 100):
        a = size(I, Num(n.p.scale(F(1, k)), "float"), u)
        b = I.callm(geo(I, "Size"), "from_string", I.s(I.callm(a, "to_xml_attribute")))
        j.numeq("exact", I.getattr(b, "value"), n.p.scale(F(1, k)), "round trip of n/%d" % k)
        judge_pair(I, j, a, b, True, "size and its re-parsed print")


def t_pair_xml(I, j, cls, u1, u2):
    x, vx = digs("x", 2)
    y, vy = digs("y", 3)
    o = I.callm(geo(I, cls), "from_xml_attribute", x + u1 + " " + y + u2)
    at = ["x", "y"] if cls == "Point" else ["horizontal", "vertical"]
    for a, v, u in zip(at, (vx, vy), (u1, u2)):
        z = I.getattr(o, a)
        j.numeq("component", I.getattr(z, "value"), v, "%s.%s" % (cls, a))
        j.true("component-unit", I.truth(I.eq(I.getattr(z, "unit"), unit(I, u))), "%s.%s" % (cls, a))
    b = I.callm(geo(I, cls), "from_xml_attribute", I.s(I.callm(o, "to_xml_attribute")))
    judge_pair(I, j, o, b, True, "%s and its re-parsed print" % cls)


ORDER = {1: (0, 0, 0, 0), 2: (0, 0, 1, 1), 3: (0, 2, 1, 1), 4: (0, 2, 3, 1)}   # before after start end


def t_pad_xml(I, j, n, rot):
    toks, vals, us = [], [], []
    for i in range(n):
        c, v = digs("p%d" % i, 2)
        u = UN[(i + rot) % 5]
        toks.append(c + u)
        vals.append(v)
        us.append(u)
    o = I.callm(geo(I, "Padding"), "from_xml_attribute", " ".join(toks))
    for a, k in zip(["before", "after", "start", "end"], ORDER[n]):
        z = I.getattr(o, a)
        j.numeq("padding-order", I.getattr(z, "value"), vals[k], "padding of %d sizes: %s" % (n, a))
        j.true("padding-order-unit", I.truth(I.eq(I.getattr(z, "unit"), unit(I, us[k]))),
               "padding of %d sizes: unit of %s" % (n, a))
    s = I.s(I.callm(o, "to_xml_attribute"))
    b = I.callm(geo(I, "Padding"), "from_xml_attribute", s)
    judge_pair(I, j, o, b, True, "Padding and its re-parsed print")
    ts = s.split(" ")
    if j.true("padding-print-arity", len(ts) == 4, "padding prints %r" % S.show(s)):
        for t, k, nm in zip(ts, [ORDER[n][0], ORDER[n][3], ORDER[n][1], ORDER[n][2]],
                            ["before", "end", "after", "start"]):
            r = length(t)
            j.true("padding-print-form", r is not None and r[1] == us[k], "%s printed as %r" % (nm, S.show(t)))
            if r:
                j.numeq("padding-print", Num(r[0], "float"), vals[k], "printed " + nm)


def t_pad_bad(I, j):
    for s in ("1px 2px 3px 4px 5px", "1px  2px", "x", "1px 2", "-1px", "1px -2px"):
        got = []
        names = raised(I, lambda: got.append(I.callm(geo(I, "Padding"), "from_xml_attribute", s)))
        j.true("padding-reject", names is not None, "padding %r is accepted" % s)


ALMAP_H = {"left": "left", "start": "start", "center": "center", "right": "right", "end": "end"}
ALMAP_V = {"before": "top", "center": "center", "after": "bottom"}


def t_align_names(I, j):
    A = geo(I, "Alignment")
    for h in [None] + list(ALMAP_H):
        for v in [None] + list(ALMAP_V):
            r = I.callm(A, "from_horizontal_and_vertical_align", h, v)
            if h is None and v is None:
                j.true("align-none", r is None, "alignment out of nothing")
                continue
            judge_pair(I, j, r, alignment(I, ALMAP_H.get(h), ALMAP_V.get(v)), True, "alignment %s %s" % (h, v))


# ------------------------------------------------------------------- purity
def snap(I, v, seen=None):
    seen = {} if seen is None else seen
    if isinstance(v, Inst):
        if id(v) in seen:
            return ("ref", seen[id(v)])
        seen[id(v)] = len(seen)
        return (v.cls.name, tuple(sorted((k, snap(I, x, seen)) for k, x in v.attrs.items())))
    if isinstance(v, Num):
        return ("num", v.p.key())
    return repr(v) if not isinstance(v, (int, float, str, type(None))) else (type(v).__name__, str(v))


def ident(I, v, seen=None):
    """identity of every reachable component"""
    seen = set() if seen is None else seen
    if isinstance(v, Inst) and id(v) not in seen:
        seen.add(id(v))
        return (id(v), tuple(sorted((k, ident(I, x, seen)) for k, x in v.attrs.items() if isinstance(x, Inst))))
    return ()


def t_pure(I, j, what, us):
    u = lambda i: us[i % len(us)]
    o = ((V("o0", 0, 50), u(0)), (V("o1", 0, 50), u(1)))
    e = ((V("e0", 0, 500), u(2)), (V("e1", 0, 500), u(3)))
    pd = {k: (V("p" + k, 0, 50), u(i)) for i, k in enumerate(["before", "after", "start", "end"])}
    if what == "Layout":
        x = layout(I, o, e, pd, ("left", "top"))
    elif what == "Layout-noext":
        x = layout(I, o, None, pd, None)
    elif what == "Point":
        x = point(I, *o)
    elif what == "Stretch":
        x = stretch(I, *e)
    elif what == "Padding":
        x = padding(I, **pd)
    else:
        x = size(I, *o[0])
    pct_ = all(z == "%" for z in us)
    calls = []
    if what == "Size":
        calls += [("as_percentage_of", [], {"video_width": 640}), ("as_percentage_of", [], {"video_height": 360})]
        y = size(I, V("y"), us[0])
        calls += [("__add__", [y], {}), ("__sub__", [y], {}), ("__abs__", [], {}), ("__lt__", [y], {}), ("__eq__", [y], {})]
    else:
        calls += [("as_percentage_of", [640, 360], {})]
    if what.startswith("Layout"):
        if pct_:
            calls += [("fit_to_screen", [], {})]
    elif what != "Layout":
        calls += [("to_xml_attribute", [], {})]
    if what == "Point" and us[0] == us[2 % len(us)] and us[1 % len(us)] == us[3 % len(us)]:
        calls += [("add_stretch", [stretch(I, *e)], {})]
    calls += [("is_relative", [], {}), ("__hash__", [], {}), ("serialized", [], {})]
    for nm, a, k in calls:
        before, ids = [snap(I, z) for z in [x] + a], [ident(I, z) for z in [x] + a]
        r = I.callm(x, nm, *a, **k)
        after, ids2 = [snap(I, z) for z in [x] + a], [ident(I, z) for z in [x] + a]
        j.true("pure", before == after and ids == ids2, "%s.%s modifies its receiver or argument" % (what, nm))


def scenarios(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(Scenario(name, fn, k.get("budget", 600), a))
    for u in UN:
        add("eq/Size/" + u, t_size_eq, u)
        for cls in ("Point", "Stretch", "Padding"):
            for i in range(comps(cls)):
                add("eq/%s/%d/%s" % (cls, i, u), t_multi_eq, cls, i, u)
    add("eq/Padding/defaults", t_pad_default)
    for h in HZ:
        for v in VT:
            add("eq/Alignment/%s-%s" % (h, v), t_align_eq, h, v)
    for c in itertools.product(range(3), repeat=4):
        add("eq/Layout/" + "".join(map(str, c)), t_layout_eq, c)
    seqs = [()] + [s for n in (1, 2, 3) for s in itertools.product(TOK, repeat=n)]
    core = [s for n in (4, 5) for s in itertools.product(CORE, repeat=n)]
    if tier == "thorough":
        core += [s for s in itertools.product(TOK, repeat=4)]
        core += [s for s in itertools.product(CORE, repeat=6)]
    seqs += core
    k = 120
    for i in range(0, len(seqs), k):
        add("parse/%d" % (i // k), t_parse, seqs[i:i + k])
    for u in UN:
        for hi in (1, 100, 10 ** 6):
            add("print/%s/%d" % (u, hi), t_print, u, hi)
        add("print-exact/" + u, t_print_exact, u)
        for u2 in UN:
            for cls in ("Point", "Stretch"):
                add("xml/%s/%s-%s" % (cls, u, u2), t_pair_xml, cls, u, u2)
    for n in (1, 2, 3, 4):
        for r in range(5):
            add("padding/%d/%d" % (n, r), t_pad_xml, n, r)
    add("padding/reject", t_pad_bad)
    add("align-names", t_align_names)
    for w in ("Size", "Point", "Stretch", "Padding", "Layout", "Layout-noext"):
        for us in (["px"], ["em"], ["pt"], ["c"], ["%"], ["px", "%"], ["%", "em", "c", "pt"]):
            add("pure/%s/%s" % (w, "-".join(us)), t_pure, w, us)
    return out
