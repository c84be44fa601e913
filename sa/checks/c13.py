"""C13: absolute sizes are relativized exactly or refused."""
from ..lib import *
from .. import refs as R

PROP = "C13"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of the geometry conversions and of the DFXP (normal,
inline-positioning and single-positioning), SAMI and WebVTT writers on layouts
whose lengths are symbolic reals in every unit (all values of the length at
once) for concrete video sizes including odd ones.  The written length is a
template (integer part, symbolic decimals, unit) whose value must lie within
half a hundredth of the exact percentage as a linear form, with at most two
decimals and the unit %, for every element of the layout (origin, extent,
padding sides), at every level (caption set, language, caption, node) and in
every writer; with a needed dimension missing the writer must leave through
RelativizationError, and must not when only the supplied axis is needed.
fit_to_screen is analysed with symbolic origin inside the safe area and
missing, fitting and overflowing extents per axis as separate branches."""
ASSUMPTIONS = ["video dimensions are concrete samples: 640x360, 1920x1080, 853x481, 100x100, 7x3",
               "floating point is treated as exact; rounding error is far below the two-decimal tolerance",
               "a DFXP region used only by a div is not required to be fitted (pinned by tests/test_dfxp_conversion.py::test_empty_cue)"]
MINIMUM = 500

DIMS = [(640, 360), (1920, 1080), (853, 481), (100, 100), (7, 3)]
ABS = ["px", "em", "pt", "c"]
TOL = F(5, 1000)


def S_(name, lo=0, hi=1000):
    return sym(name, lo, hi, False, "float")


def vsize(name, u, hi=1000):
    """symbolic size: ((Num, unit), Poly)"""
    n = S_(name, 0, hi)
    return (n, u), n.p


def check_len(j, rule, s, want, what, tol=TOL):
    r = length(s)
    if r is None:
        if opaque(s):
            return j.undecided(rule + "-form", "%s is %r" % (what, S.show(s)))
        return j.fail(rule + "-form", "%s is %r, not a length" % (what, S.show(s)))
    v, u, nd = r
    if u != "%":
        return j.fail(rule + "-unit", "%s is written as %r, not as a percentage" % (what, S.show(s)))
    j.true(rule + "-decimals", nd <= 2, "%s %r has more than two decimals" % (what, S.show(s)))
    near(j, rule + "-value", v, want, what + " (written value)", tol)


def near(j, rule, v, want, what, tol=TOL):
    if not isinstance(v, Poly):
        v = j.num(v).p
    w = "%s is %s, expected %s" % (what, v, want)
    if j.ge(rule, v - want + C(tol), w):
        j.ge(rule, want - v + C(tol), w)


# ------------------------------------------------------------- conversions
def t_size(I, j, u, dim, horizontal):
    (n, p) = vsize("v", u)
    sz = size(I, *n)
    r = I.callm(sz, "as_percentage_of", **({"video_width": dim} if horizontal else {"video_height": dim}))
    j.true("unit", I.truth(I.eq(I.getattr(r, "unit"), unit(I, "%"))), "converted size is not a percentage")
    near(j, "value", I.getattr(r, "value"), pct(p, u, horizontal, dim), "%s of %d" % (u, dim), F(1, 10 ** 6))


def t_symdim(I, j, u, horizontal):
    """symbolic video dimension: result * dimension must be 100 * pixels"""
    (n, p) = vsize("v", u)
    W = sym("W", 1, 10000, True)
    sz = size(I, *n)
    r = I.callm(sz, "as_percentage_of", **({"video_width": W} if horizontal else {"video_height": W}))
    v = j.num(I.getattr(r, "value")).p
    if u in ("%", "c"):
        return near(j, "value", v, pct(p, u, horizontal, 1), u, F(1, 10 ** 6))
    k = {"px": F(1), "em": F(16), "pt": F(4, 3)}[u]
    j.numeq("value-symbolic-dimension", Num(v, "float"), p.scale(k * 100).div(W.p), "%s of a %s-pixel frame" % (u, "W"))


def t_geo(I, j, cls, us, dims):
    w, h = dims
    vals = []
    sizes = []
    for i, u in enumerate(us):
        n, p = vsize("v%d" % i, u)
        sizes.append(n)
        vals.append(p)
    if cls == "Point":
        o, attrs, hz = point(I, *sizes), ["x", "y"], [1, 0]
    elif cls == "Stretch":
        o, attrs, hz = stretch(I, *sizes), ["horizontal", "vertical"], [1, 0]
    else:
        attrs, hz = ["before", "after", "start", "end"], [0, 0, 1, 1]
        o = padding(I, **dict(zip(attrs, sizes)))
    r = I.callm(o, "as_percentage_of", w, h)
    for a, p, u, z in zip(attrs, vals, us, hz):
        x = I.getattr(r, a)
        j.true("unit", I.truth(I.eq(I.getattr(x, "unit"), unit(I, "%"))), "%s.%s is not a percentage" % (cls, a))
        near(j, "value", I.getattr(x, "value"), pct(p, u, z, w if z else h), "%s.%s" % (cls, a), F(1, 10 ** 6))


# ------------------------------------------------------------------ writers
SPECS = {
    # name: {part: (unit per component)}
    "origin": {"origin": 2},
    "extent": {"extent": 2},
    "padding": {"padding": 4},
    "all": {"origin": 2, "extent": 2, "padding": 4},
}
HZ = {"origin": [1, 0], "extent": [1, 0], "padding": [0, 0, 1, 1]}
SIDES = ["before", "after", "start", "end"]


def ncomp(spec):
    return sum(SPECS[spec].values())


def mk_layout(I, spec, us, dims, hi=1000, align=("left", "top"), only=None):
    """(layout, {part: [expected percentage polys]}); us cycles over units;
    only: index of the symbolic component (the others are distinct constants)"""
    w, h = dims
    k, kw, exp = 0, {}, {}
    for part, n in SPECS[spec].items():
        ss, ps = [], []
        for i in range(n):
            u = us[k % len(us)]
            k += 1
            if only is None or only == k - 1:
                nn, p = vsize("%s%d" % (part[0], i), u, hi)
            else:
                c = F(4 * k + 3, 4)
                nn, p = (Num(C(c), "float"), u), C(c)
            ss.append(nn)
            z = HZ[part][i]
            ps.append(pct(p, u, z, w if z else h))
        exp[part] = ps
        kw["pad" if part == "padding" else part] = dict(zip(SIDES, ss)) if part == "padding" else tuple(ss)
    return layout(I, align=align, **kw), exp


LEVELS = ["set", "lang", "caption", "node", "span"]


def build(I, lay, level, extra=True):
    nl = lay if level in ("node", "span") else None
    if level == "span":
        nodes = [style_node(I, True, {"italics": True}, nl), text_node(I, word("w"), nl),
                 style_node(I, False, {"italics": True}, nl)]
    else:
        nodes = [text_node(I, word("w"), nl)]
    c = caption(I, 1000000, 2000000, nodes, layout=lay if level == "caption" else None)
    cl = [c]
    return capset(I, [("en", cl)], layout=lay if level == "set" else None,
                  lang_layout={"en": lay} if level == "lang" else None)


def tts(k):
    return "{%s}%s" % (R.TTS, k)


def region_of(d, level):
    """the region attribute dict used by the innermost element"""
    ps = d.divs[0][1]
    if not ps:
        raise R.Bad("no paragraph")
    p = ps[0]
    rid = None
    for e in p.el.iter():
        if isinstance(e.tag, str) and e.get("region") is not None:
            rid = e.get("region")
    for i, a, _ in d.regions:
        if i == rid:
            return a
    raise R.Bad("region %s is not defined" % rid)


PARTS = {"origin": "origin", "extent": "extent", "padding": "padding"}
XMLORD = [0, 3, 1, 2]        # TTML padding: before end after start


def check_attrs(j, attrs, exp, inline=""):
    for part, ps in exp.items():
        v = attrs.get(tts(part), attrs.get("tts:" + part))
        if v is None:
            j.fail("written", "%stts:%s is not written" % (inline, part))
            continue
        toks = v.split(" ")
        want = [ps[i] for i in XMLORD] if part == "padding" else ps
        if not j.true("arity", len(toks) == len(want), "%stts:%s has %d components" % (inline, part, len(toks))):
            continue
        for i, (t, p) in enumerate(zip(toks, want)):
            check_len(j, part, t, p, "%stts:%s component %d" % (inline, part, i + 1))


def all_lengths_relative(j, d):
    for el in d.root.iter():
        if not isinstance(el.tag, str):
            continue
        for part in PARTS:
            v = el.get(tts(part))
            if v is None:
                continue
            for t in v.split(" "):
                r = length(t)
                if r is None or r[1] != "%":
                    j.fail("relative", "<%s tts:%s=%r> is not a percentage" % (
                        el.tag.split("}")[1], part, S.show(v)))
                else:
                    j.proved("relative", "tts:%s of <%s>" % (part, el.tag.split("}")[1]))


def t_dfxp(I, j, spec, us, dims, level, opts, only):
    lay, exp = mk_layout(I, spec, us, dims, only=only)
    kw = dict(video_width=dims[0], video_height=dims[1], fit_to_screen=False)
    kw.update(opts)
    single = level == "single"
    cs = build(I, None if single else lay, level)
    w = I.call(ext(I, "SinglePositioningDFXPWriter"), [lay], kw) if single else writer(I, "DFXPWriter", **kw)
    s = I.s(I.callm(w, "write", cs))
    try:
        d = R.dfxp(s)
        all_lengths_relative(j, d)
        if level != "set":
            a = region_of(d, level)
            check_attrs(j, a, exp)
            if opts.get("write_inline_positioning"):
                p = d.divs[0][1][0].el
                got = [e for e in p.iter() if isinstance(e.tag, str) and e.get(tts(list(exp)[0])) is not None]
                if j.true("inline", bool(got), "no inline positioning written"):
                    check_attrs(j, got[-1].attrib, exp, "inline ")
    except R.Bad as e:
        j.fail("document-grammar", str(e))


def t_sami(I, j, us, dims, level, fit, only):
    lay, exp = mk_layout(I, "padding", us, dims, only=only)
    cs = build(I, lay, level)
    if level == "set":
        I.callm(cs, "set_styles", I.mkdict([("p", I.mkdict([("color", "red")]))]))
    s = I.s(write(I, "SAMIWriter", cs, dict(video_width=dims[0], video_height=dims[1], fit_to_screen=fit)))
    d = R.sami(s)
    sel = "p" if level == "set" else ".en"
    css = d.classes.get(sel)
    if css is None:
        return j.fail("written", "no %s rule in the style sheet" % sel)
    for side, name, p in zip(["top", "bottom", "left", "right"], SIDES, exp["padding"]):
        v = css.get("margin-" + side)
        if v is None:
            j.fail("written", "margin-%s is not written" % side)
        else:
            check_len(j, "margin", v, p, "margin-" + side)


def settings(s):
    out = {}
    for t in s.split():
        k, c, v = t.partition(":")
        if not c:
            raise R.Bad("cue setting %r" % S.show(t))
        if k in out:
            raise R.Bad("duplicate cue setting %s" % k)
        out[k] = v
    return out


def vtt_cue(I, cs, opts):
    s = I.s(write(I, "WebVTTWriter", cs, opts))
    c = R.vtt(s)
    if len(c) != 1:
        raise R.Bad("%d cues" % len(c))
    return settings(c[0].settings)


def t_vtt(I, j, spec, us, dims, level):
    lay, exp = mk_layout(I, spec, us, dims)
    o, e, p = exp.get("origin"), exp.get("extent"), exp.get("padding", [C(0)] * 4)
    if e and "padding" in exp:
        I.add_fact(e[0] - p[2] - p[3])
    cs = build(I, lay, level)
    try:
        st = vtt_cue(I, cs, dict(video_width=dims[0], video_height=dims[1], fit_to_screen=False))
    except R.Bad as e:
        return j.fail("document-grammar", str(e))
    want = {}
    if o:
        want["position"] = o[0] + p[2]
        want["line"] = o[1] + p[0]
    elif not exp.get("padding"):
        for k in ("position", "line"):
            j.true("absent", k not in st, "%s written without an origin" % k)
    if e:
        # width minus the horizontal paddings (left padding counts once the box has a left edge)
        want["size"] = e[0] - p[2] - p[3] if o or not exp.get("padding") else None
    elif not o:
        j.true("absent", "size" not in st, "size written without an extent")
    for k, v in want.items():
        if v is None:
            continue
        if k not in st:
            j.fail("written", "%s is not written" % k)
        else:
            check_len(j, k, st[k], v, k)
    for k, v in st.items():
        if k in ("position", "line", "size"):
            r = length(v)
            j.true("relative", r is not None and r[1] == "%", "cue setting %s:%s is not a percentage" % (k, S.show(v)))


def t_vtt_off(I, j, spec, us, align):
    """relativize off: absolute lengths never reach the file"""
    lay, _ = mk_layout(I, spec, us, (640, 360), align=align)
    cs = build(I, lay, "caption")
    try:
        st = vtt_cue(I, cs, dict(relativize=False))
    except R.Bad as e:
        return j.fail("document-grammar", str(e))
    for k in ("position", "line", "size"):
        r = length(st[k]) if k in st else None
        j.true("relative", k not in st or (r is not None and r[1] == "%"),
               "cue setting %s:%s with relativization off" % (k, S.show(st.get(k, ""))))


# ------------------------------------------------------------------ refusal
def t_refuse(I, j, wname, part, u, idx, dims, level):
    """only component idx of part is absolute; the rest are percentages"""
    n = 4 if part == "padding" else 2
    ss = [(S_("v%d" % i, 0, 40) if i == idx else Num(C(F(2 * i + 5, 4)), "float"), u if i == idx else "%")
          for i in range(n)]
    kw = {"pad": dict(zip(SIDES, ss))} if part == "padding" else {part: tuple(ss)}
    lay = layout(I, align=("left", "top"), **kw)
    cs = build(I, lay, level)
    o = {}
    if dims[0]:
        o["video_width"] = dims[0]
    if dims[1]:
        o["video_height"] = dims[1]
    hz = HZ[part][idx]
    need = dims[0] if hz else dims[1]
    mk = lambda: I.callm(writer(I, wname, fit_to_screen=False, **o), "write", cs)
    names = raised(I, mk)
    if need or u == "%":
        j.true("accepted", names is None, "%s refuses although the %s is supplied: %s" % (
            wname, "width" if hz else "height", names and names[0]))
    else:
        j.true("refused", names is not None and "RelativizationError" in names,
               "%s writes a %s %s length without the video %s (%s)" % (
                   wname, part, u, "width" if hz else "height", names and names[0]))


def t_mixed_units(I, j, wname, level):
    """every absolute unit alone must be refused with no dimensions at all, twice in a row"""
    lay, _ = mk_layout(I, "origin", ["px", "%"], (640, 360))
    cs = build(I, lay, level)
    w = writer(I, wname)
    for k in (1, 2):
        names = raised(I, lambda: I.callm(w, "write", cs))
        j.true("refused", names is not None and "RelativizationError" in names,
               "write number %d is not refused (%s)" % (k, names and names[0]))


# ------------------------------------------------------------ fit to screen
def fit_layout(I, xmode, ymode, axis=None):
    """origin in the safe area; extent mode per axis: fit | over | none (both);
    axis: the axis with symbolic values (both when None)"""
    x, y = S_("x", 0, 90), S_("y", 0, 95)
    k = lambda v: Num(C(F(v)), "float")
    if axis == "y":
        x = k("12.5")
    if axis == "x":
        y = k("7.25")
    if xmode == "none":
        return layout(I, origin=((x, "%"), (y, "%")), align=("left", "top")), x.p, y.p, None, None
    w, h = S_("w", 0, 500), S_("h", 0, 500)
    if axis == "y":
        w = k("40.25" if xmode == "fit" else "80")
    if axis == "x":
        h = k("87.75" if ymode == "fit" else "87.76")
    for m, o, e, top in ((xmode, x, w, 90), (ymode, y, h, 95)):
        if m == "fit":
            I.add_fact(C(top) - o.p - e.p)
        else:
            I.add_fact(o.p + e.p - C(top) - C(F(1, 10 ** 6)))
    return layout(I, origin=((x, "%"), (y, "%")), extent=((w, "%"), (h, "%")), align=("left", "top")), x.p, y.p, w.p, h.p


def expect_ext(xm, o, e, top):
    if xm == "fit":
        return e
    return C(top) - o


def t_fit(I, j, xm, ym):
    lay, x, y, w, h = fit_layout(I, xm, ym)
    r = I.callm(lay, "fit_to_screen")
    o, e = I.getattr(r, "origin"), I.getattr(r, "extent")
    if e is None:
        return j.fail("extent", "no extent after fit_to_screen")
    for ax, oo, ee, op, ep, top, m in (("x", "x", "horizontal", x, w, 90, xm), ("y", "y", "vertical", y, h, 95, ym)):
        ov, ev = I.getattr(I.getattr(o, oo), "value"), I.getattr(I.getattr(e, ee), "value")
        j.numeq("origin", ov, op, "origin " + ax)
        evp = j.num(ev).p
        j.ge("edge", C(top) - op - evp, "%s edge at most %d%%" % (ax, top))
        if m == "none":
            j.numeq("missing-extent", ev, C(top) - op, "missing extent, " + ax)
        elif m == "fit":
            j.numeq("fitting-extent", ev, ep, "fitting extent, " + ax)
        j.true("unit", I.truth(I.eq(I.getattr(I.getattr(e, ee), "unit"), unit(I, "%"))), "extent unit")


def t_fit_writer(I, j, wname, xm, ym, level, axis=None):
    lay, x, y, w, h = fit_layout(I, xm, ym, axis)
    single = wname == "SinglePositioningDFXPWriter"
    cs = build(I, None if single else lay, level)
    wr = I.call(ext(I, wname), [lay], {}) if single else writer(I, wname)
    s = I.s(I.callm(wr, "write", cs))
    try:
        if wname == "WebVTTWriter":
            st = settings(R.vtt(s)[0].settings)
            if "size" not in st:
                return j.fail("written", "no size setting")
            pairs = [("x", st.get("position"), st.get("size"), x, w, 90, xm)]
        else:
            a = region_of(R.dfxp(s), level)
            if a.get(tts("extent")) is None:
                return j.fail("missing-extent", "the region has no extent")
            o, e = a.get(tts("origin")).split(" "), a.get(tts("extent")).split(" ")
            pairs = [("x", o[0], e[0], x, w, 90, xm), ("y", o[1], e[1], y, h, 95, ym)]
    except R.Bad as ex:
        return j.fail("document-grammar", str(ex))
    for ax, os_, es, op, ep, top, m in pairs:
        ol, el = length(os_), length(es)
        if ol is None or el is None or ol[1] != "%" or el[1] != "%":
            j.fail("relative", "%s %r %r" % (ax, S.show(os_), S.show(es)))
            continue
        check_len(j, "origin", os_, op, "origin " + ax)
        j.ge("edge", C(top) + C(F(1, 100)) - ol[0] - el[0], "written %s edge at most %d%%" % (ax, top))
        if m == "none":
            check_len(j, "missing-extent", es, C(top) - op, "missing extent " + ax)
        elif m == "fit":
            check_len(j, "fitting-extent", es, ep, "fitting extent " + ax)


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn, *a, **k):
        out.append(Scenario(name, fn, k.get("budget", 400), a))
    for u in ABS + ["%"]:
        for hz in (1, 0):
            for d in sorted({x[1 - hz] for x in DIMS}):
                add("size/%s/%s%d" % (u, "wh"[1 - hz], d), t_size, u, d, hz)
            add("size/%s/%s-any" % (u, "wh"[1 - hz]), t_symdim, u, hz)
    for cls, n in (("Point", 2), ("Stretch", 2), ("Padding", 4)):
        for k, u in enumerate(ABS + ["%"]):
            for v in ABS + ["%"]:
                us = [u, v] * (n // 2)
                add("geo/%s/%s" % (cls, "-".join(us)), t_geo, cls, us, DIMS[k % len(DIMS)])
    UU = [[u] for u in ABS] + [["px", "%"], ["%", "em"], ["px", "em", "c", "pt", "%"], ["%"]]
    for us in UU:
        for sp in SPECS:
            n = "%s/%s" % (sp, "-".join(us))
            d0 = DIMS if thorough or us == ["px"] else DIMS[:1]
            for d in d0:
                dn = "%dx%d" % d
                for lv in LEVELS + ["single"]:
                    if d is not DIMS[0] and lv not in ("caption", "lang"):
                        continue
                    for i in range(ncomp(sp)):
                        if sp == "all" and not thorough and (i + len(lv) + len(us[0])) % 3:
                            continue
                        add("dfxp/%s/%s/%s/%d" % (lv, n, dn, i), t_dfxp, sp, us, d, lv, {}, i)
                    if lv in ("caption", "span", "lang", "set") and d is DIMS[0]:
                        for i in range(ncomp(sp)):
                            if not thorough and (i + len(lv)) % 2:
                                continue
                            add("dfxp-inline/%s/%s/%s/%d" % (lv, n, dn, i), t_dfxp, sp, us, d, lv,
                                {"write_inline_positioning": True}, i)
                for lv in ("caption", "node", "lang"):
                    add("vtt/%s/%s/%s" % (lv, n, dn), t_vtt, sp, us, d, lv)
            if us != ["%"]:
                for al in (("left", "top"), ("center", "bottom")):
                    add("vtt-off/%s/%s" % (n, al[0]), t_vtt_off, sp, us, al)
        for lv in ("set", "lang"):
            for d in DIMS[:2]:
                for fit in (False, True):
                    for i in range(4):
                        add("sami/%s/%s/%dx%d/%s/%d" % (lv, "-".join(us), d[0], d[1], fit, i), t_sami,
                            us, d, lv, fit, i)
    for wn in ("DFXPWriter", "SAMIWriter", "WebVTTWriter"):
        for lv in ("caption", "lang", "node") + (("set",) if wn == "SAMIWriter" else ()):
            for part, n in (("origin", 2), ("extent", 2), ("padding", 4)):
                for u in ("px", "em", "pt"):
                    for i in range(n):
                        for d in ((None, None), (640, None), (None, 360)):
                            if lv != "caption" and u != "px":
                                continue
                            add("refuse/%s/%s/%s%d/%s/%s-%s" % (wn, lv, part, i, u, d[0], d[1]), t_refuse,
                                wn, part, u, i, d, lv)
            add("refuse-again/%s/%s" % (wn, lv), t_mixed_units, wn, lv)
    for xm, ym in (("none", "none"), ("fit", "fit"), ("fit", "over"), ("over", "fit"), ("over", "over")):
        add("fit/%s-%s" % (xm, ym), t_fit, xm, ym)
        for wn in ("DFXPWriter", "SinglePositioningDFXPWriter", "WebVTTWriter"):
            for lv in ("caption", "node", "lang", "span"):
                if wn.startswith("Single") and lv != "caption":
                    continue
                if wn == "WebVTTWriter" and lv == "span":
                    continue
                for ax in (None,) if wn == "WebVTTWriter" else ("x", "y"):
                    add("fit/%s/%s/%s-%s/%s" % (wn, lv, xm, ym, ax), t_fit_writer, wn, xm, ym, lv, ax)
    return out
