"""C09: writing never alters its input and is deterministic."""
from ..lib import *
from ..snap import capset_dump, same
from .. import strs as S
from ..core import concrete
from .c10 import docs, OPTS, WRITERS, mkwriter, attempt

PROP = "C09"
LEVEL = "other"
EXPLANATION = """\
Abstract interpretation of every writer's write() on caption sets with symbolic
text and times (built through the API and returned by the readers), for the
writer option combinations.  A structural snapshot of the set is compared before
and after each write, also when the writer raises; the output of a second write,
of a fresh writer, of a writer that wrote other sets before (unbalanced styles,
other languages and layouts, sets it rejects half way) and of a writer running
under another string-hash seed is compared, as a string template, with that of
the first.  One analysed path is one process, so instance, class, module and
default-argument state is carried between the writes."""
ASSUMPTIONS = ["histories of up to about ten writes", "deepcopy, the XML/HTML tree and json-like library functions are deterministic",
               "under another hash seed a set of strings comes out in reverse insertion order"]
MINIMUM = 100


def lay(I, k):
    return [None,
            lambda: layout(I, origin=((10, "%"), (20, "%")), extent=((50, "%"), (30, "%"))),
            lambda: layout(I, origin=((64, "px"), (48, "px")), pad=dict(before=(5, "%"), start=(3, "%"))),
            lambda: layout(I, align=("right", "top")),
            lambda: layout(I, origin=((4, "c"), (3, "c")), extent=((20, "c"), (5, "c")), align=("center", "bottom")),
            lambda: layout(I, raw="align:left position:10%"),
            lambda: layout(I, extent=((320, "px"), (240, "px")))][k]


def L(I, k):
    f = lay(I, k)
    return f() if f else None


def sets(I, symbolic=False):
    """the caption sets; texts are symbolic words or concrete ones"""
    w = (lambda n: word(n, frozenset("abcdefghijklmnopqrstuvwxyz"))) if symbolic else (lambda n: n * 4)
    M = 10 ** 6
    it, bo, un = {"italics": True}, {"bold": True}, {"underline": True}
    T, B = lambda s, k=0: text_node(I, s, L(I, k)), lambda k=0: break_node(I, L(I, k))
    ST = lambda on, d, k=0: style_node(I, on, d, L(I, k))
    C_ = lambda i, nodes, style=None, k=0: caption(I, (2 * i + 1) * M, (2 * i + 2) * M, nodes, style, L(I, k))

    def plain():
        return capset(I, [("en-US", [C_(0, [T(w("a"))]), C_(1, [T(w("b")), B(), T(w("c"))])])])

    def styled():
        return capset(I, [("en-US", [C_(0, [ST(True, it), T(w("a")), ST(False, it), T(w("b"))]),
                                     C_(1, [T("x"), ST(True, {"classes": I.mklist(["q"]), "bold": True, "color": "red"}), B(), T(w("c")), ST(False, bo)],
                                        {"class": "q", "text-align": "right"})])],
                      styles={"q": {"color": "red", "font-family": "Arial"}, "p": {"text-align": "center"}, "encc": {"lang": "en-US"}})

    def nested():
        return capset(I, [("en-US", [C_(0, [ST(True, it), ST(True, un), T(w("a")), ST(False, un), T("y"), ST(False, it)]),
                                     C_(1, [ST(True, bo), T("z"), B(), ST(False, bo)])])])

    def unbalanced():
        return capset(I, [("en-US", [C_(0, [ST(True, it), T(w("a"))]), C_(1, [T("b"), ST(False, it), T("c")]),
                                     C_(2, [ST(True, bo, 1), T("d")])])])

    def layouts():
        return capset(I, [("en-US", [C_(0, [T(w("a"), 1), B(1), T("b", 4)], None, 1), C_(1, [T("c", 3), T("d", 3)], None, 3),
                                     C_(2, [ST(True, it, 4), T("e", 4), ST(False, it, 4)], {"region": "r"}, 0)])],
                      layout=L(I, 1), lang_layout={"en-US": L(I, 4)})

    def pixels():
        return capset(I, [("en-US", [C_(0, [ST(True, it), T(w("a")), ST(False, it)]), C_(1, [ST(True, it, 2), T("b", 2), ST(False, it, 2)], None, 2),
                                     C_(2, [T("c", 6)], None, 6)])], lang_layout={"en-US": L(I, 2)})

    def raw():
        return capset(I, [("en-US", [C_(0, [T(w("a"), 5)], None, 5), C_(1, [T("b")])])])

    def langs3():
        return capset(I, [("en-US", [C_(0, [T(w("a"))]), C_(2, [T("b")])]), ("fr", [C_(0, [T(w("c"))], None, 1), C_(1, [T("d")])]),
                          ("de", [C_(3, [ST(True, bo), T("e"), ST(False, bo)])])], styles={"frcc": {"lang": "fr"}},
                      lang_layout={"fr": L(I, 3)})

    def concurrent():
        a, b, c = C_(0, [T(w("a"))]), C_(0, [T(w("b"), 1)], None, 1), C_(0, [ST(True, it), T("c"), ST(False, it)])
        return capset(I, [("en-US", [a, b, c, C_(1, [T("d")], {"italics": True})])])

    def shared():
        n = [T(w("a"))]
        st = {"color": "blue"}
        a = C_(0, n, st, 1)
        return capset(I, [("en-US", [a, a]), ("fr", [C_(1, n, st)])])

    def chars():
        return capset(I, [("en-US", [C_(0, [T("a & b < c > d \u00e9\u266a")]), C_(1, [T("  x  "), B(), B(), T("--> ")])])])

    def rolling():
        return capset(I, [("en-US", [caption(I, sym("s0", 0, DAY), sym("e0", 0, DAY), [T("a")])])])

    def empty():
        return capset(I, [("en-US", [])])

    def none():
        return capset(I, [])

    def spaces():
        return capset(I, [("en-US", [C_(0, [T(" ")]), C_(1, [T("a")]), C_(2, [ST(True, it), ST(False, it)])])])

    def badnode():
        n = T("b")
        I.setattr(n, "type_", 9)
        return capset(I, [("en-US", [C_(0, [ST(True, it), T(w("a"))]), C_(1, [ST(True, bo), n])])])

    def badtext():
        return capset(I, [("en-US", [C_(0, [ST(True, it), T(w("a"), 1)], None, 1), C_(1, [ST(True, bo), T(None)])])])

    def badtime():
        c = C_(1, [ST(True, bo), T("b")])
        I.setattr(c, "end", None)
        return capset(I, [("en-US", [C_(0, [ST(True, it), T(w("a"))], None, 1), c])])

    def badlate():
        c = C_(3, [ST(True, it), T("b", 2)], None, 2)
        I.setattr(c, "layout_info", "x")
        return capset(I, [("fr", [C_(0, [ST(True, it), T(w("a")), B()], None, 4), c])], styles={"zz": {"lang": "fr", "color": "red"}})
    return dict(plain=plain, styled=styled, nested=nested, unbalanced=unbalanced, layouts=layouts, pixels=pixels, raw=raw,
                langs3=langs3, concurrent=concurrent, shared=shared, chars=chars, rolling=rolling, empty=empty, none=none,
                spaces=spaces, badnode=badnode, badtext=badtext, badtime=badtime, badlate=badlate)


NAMES = ("plain", "styled", "nested", "unbalanced", "layouts", "pixels", "raw", "langs3", "concurrent", "shared", "chars",
         "rolling", "empty", "none", "spaces", "badnode", "badtext", "badtime", "badlate")
SYMBOLIC = ("plain", "styled", "layouts")
READ_LAST = ("unbalanced", "pixels", "badtext")
LAST = ("unbalanced", "layouts", "pixels", "langs3", "badtext", "badtime", "badlate", "styled", "empty")


def put(I, w, cs, kw):
    s, e = attempt(I, lambda: I.callm(w, "write", cs, **kw))
    if e:
        return ("exc", e[0])
    t = I.s(s)
    return ("s", t) if t is not None else ("o", repr(s)[:80])


def check(I, j, make, wn, opts, kw, others, symbolic=False):
    cs = make(I)
    before = capset_dump(I, cs)
    w = mkwriter(I, wn, opts)
    first = put(I, w, cs, kw)
    j.site = None
    same(I, j, "input-kept", before, capset_dump(I, cs), "the set after %s.write%s" % (wn, " raised" if first[0] == "exc" else ""))
    same(I, j, "same-writer", first, put(I, w, cs, kw), "writing again with the same %s" % wn)
    same(I, j, "input-kept", before, capset_dump(I, cs), "the set after a second %s.write" % wn)
    same(I, j, "fresh-writer", first, put(I, mkwriter(I, wn, opts), cs, kw), "writing with a fresh %s" % wn)
    w = mkwriter(I, wn, opts)
    table = sets(I)
    for o in others:
        put(I, w, table[o](), {})
        same(I, j, "after-others", first, put(I, w, cs, kw), "writing with a %s that wrote '%s' before" % (wn, o))
    for w2 in WRITERS:
        if w2 != wn and not (symbolic and w2 == "SCCWriter"):
            put(I, mkwriter(I, w2, {}), cs, {})
    same(I, j, "input-kept", before, capset_dump(I, cs), "the set after being written by all writers")
    same(I, j, "after-writers", first, put(I, mkwriter(I, wn, opts), cs, kw), "writing with %s after all other writers" % wn)
    I.hseed = "'"
    same(I, j, "hash-seed", first, put(I, mkwriter(I, wn, opts), make(I), kw), "writing with %s under another hash seed" % wn)
    I.hseed = ""


VID = {"video_width": 640, "video_height": 480}


def optsets(wn, thorough):
    base_ = [{}, VID, {"relativize": False}, dict(VID, fit_to_screen=False)]
    if thorough:
        base_ += [dict(VID, relativize=False), {"relativize": False, "fit_to_screen": False}, {"fit_to_screen": False}]
    if wn == "DFXPWriter":
        base_ += [{"write_inline_positioning": True}, dict(VID, write_inline_positioning=True)]
    if wn == "LegacyDFXPWriter":
        return [{}]
    if wn in ("SRTWriter", "SCCWriter", "MicroDVDWriter") and not thorough:
        return [{}, dict(VID, fit_to_screen=False)]
    return base_


def scenarios(tier):
    thorough = tier == "thorough"
    out = []
    for wn in WRITERS:
        for oi, opts in enumerate(optsets(wn, thorough)):
            kws = [{}]
            if oi == 0:
                kws += {"DFXPWriter": [{"force": "fr"}], "WebVTTWriter": [{"lang": "fr"}], "LegacyDFXPWriter": [{"force": "fr"}],
                        "SinglePositioningDFXPWriter": [{"force": "fr"}]}.get(wn, [])
            for kw in kws:
                nm = "%s/%s/%s" % (wn, ",".join(opts) or "-", ",".join(kw) or "-")
                for sn in NAMES:
                    if kw and sn not in ("langs3", "layouts", "shared"):
                        continue
                    out.append(Scenario("api/%s/%s" % (nm, sn), lambda I, j, a=(wn, opts, kw), sn=sn:
                                        check(I, j, lambda I: sets(I)[sn](), *a, LAST, sn == "rolling"), 80))
                    if sn in SYMBOLIC and wn != "SCCWriter":
                        out.append(Scenario("sym/%s/%s" % (nm, sn), lambda I, j, a=(wn, opts, kw), sn=sn:
                                            check(I, j, lambda I: sets(I, True)[sn](), *a, LAST[:4], True), 80))
                if kw or oi > 1:
                    continue
                for fmt in OPTS:
                    for dn, d in docs(fmt)[0].items():
                        for o in OPTS[fmt][:1]:
                            def make(I, fmt=fmt, d=d, o=o):
                                return I.callm(reader(I, fmt), "read", concrete(d), **o)
                            out.append(Scenario("read/%s/%s/%s" % (nm, fmt, dn), lambda I, j, a=(wn, opts, kw), m=make:
                                                check(I, j, m, *a, READ_LAST), 80))
    return out
