"""Summary of BeautifulSoup: a native abstract tree, parsed and serialised by
the real parser on strings whose pieces cannot interact with markup."""
import os
import sys
import warnings as _w

from . import strs as S
from .strs import Imprecise, has_atoms, is_atom
from .num import Num, Poly, lift
from .interp import (ClassV, Inst, DictData, FuncV, Bound, Builtin, StaticM,
                     ClassM, Prop, ModV, SuperV, Ext, Iter, Fin, PyExc, NULL)

SITE = "/opt/venv/lib/python3.12/site-packages"


def real():
    try:
        import bs4
    except ImportError:
        if os.path.isdir(SITE) and SITE not in sys.path:
            sys.path.append(SITE)
        import bs4
    return bs4


def install(I, mod):
    from .models import MARKUP_CORE, markup_guard, Pattern
    B = I.B
    OBJ = B["object"]

    def cls(name, bases, ns=None, kind=None):
        c = ClassV(name, bases, ns or {}, kind, "bs4.element")
        return c

    PE = cls("PageElement", [OBJ], None, "object")
    NS = cls("NavigableString", [B["str"], PE])
    PRE = cls("PreformattedString", [NS])
    SUBS = {n: cls(n, [PRE]) for n in ("Comment", "CData", "Doctype", "Declaration",
                                       "ProcessingInstruction", "XMLProcessingInstruction")}
    SUBS.update({n: cls(n, [NS]) for n in ("Stylesheet", "Script", "TemplateString", "RubyTextString", "RubyParenthesisString")})
    SUBS["NavigableString"] = NS
    SUBS["PreformattedString"] = PRE
    TAG = cls("Tag", [PE])
    SOUP = cls("BeautifulSoup", [TAG])
    RS = cls("ResultSet", [B["list"]])
    XAD = cls("XMLAttributeDict", [B["dict"]])
    HAD = cls("HTMLAttributeDict", [B["dict"]])
    STRN = cls("SoupStrainer", [OBJ], None, "object")

    # ---------------------------------------------------------------- attrs
    def dict_store(I, d, k, v):
        I.touch(d, "[...] =")
        I.dict_set(d, k, v)

    def numeric(v):
        return (isinstance(v, int) and not isinstance(v, bool)) or \
            (isinstance(v, Num) and v.kind in ("int", "float"))

    def xad_set(I, d, k, v):
        if v is None:
            v = ""
        elif numeric(v):
            v = I.str_of(v)
        dict_store(I, d, k, v)

    def had_set(I, d, k, v):
        if v is None or v is False:
            if I.dict_has(d, k):
                I.touch(d, "del")
                I.dict_del(d, k)
            return
        if v is True:
            v = k
        elif numeric(v):
            v = I.str_of(v)
        dict_store(I, d, k, v)
    XAD.ns["__setitem__"] = Builtin(xad_set, "__setitem__", True)
    HAD.ns["__setitem__"] = Builtin(had_set, "__setitem__", True)

    def newattrs(xml, pairs):
        d = I.new(XAD if xml else HAD, DictData())
        for k, v in pairs:
            if isinstance(v, Inst) and isinstance(v.data, list):
                I.dict_set(d, k, I.mklist(v.data))
            else:
                (xad_set if xml else had_set)(I, d, k, v)
        return d

    # ---------------------------------------------------------------- nodes
    def mktag(name, attrs, xml, prefix=None, namespace=None, c=None):
        t = I.new(c or TAG)
        t.attrs.update(name=name, prefix=prefix, namespace=namespace, attrs=attrs,
                       contents=I.mklist(), parent=None, hidden=False)
        t.attrs["is_xml"] = xml
        return t

    def mkstr(s, c=NS):
        n = I.new(c, s)
        n.attrs["parent"] = None
        return n

    def is_tag(x):
        return isinstance(x, Inst) and x.cls.sub(TAG)

    def is_str(x):
        return isinstance(x, Inst) and x.cls.sub(NS)

    def kids(t):
        return t.attrs["contents"].data

    def parent(x):
        return x.attrs.get("parent")

    def setparent(x, p):
        I.touch(x, "reparent")
        x.attrs["parent"] = p

    def idx(p, x):
        for i, c in enumerate(kids(p)):
            if c is x:
                return i
        raise I.exc("ValueError", "Tag.index: element not in tag")

    def extract(I, x):
        p = parent(x)
        if p is not None:
            i = idx(p, x)
            I.touch(p.attrs["contents"], "extract")
            del kids(p)[i]
            setparent(x, None)
        return x

    def coerce(x):
        if is_tag(x) or is_str(x):
            return x
        s = I.s(x)
        if s is None:
            if isinstance(x, Fin):
                return coerce(I.split(x))
            raise I.exc("ValueError", "Cannot insert %s into a tag." % I.type_of(x).name)
        return mkstr(s)

    def insert(I, t, pos, *new):
        pos = I.index(pos)
        out = []
        for x in new:
            if is_tag(x) and x.cls.sub(SOUP):
                for c in list(kids(x)):
                    insert(I, t, pos, c)
                    pos += 1
                continue
            x = coerce(x)
            if x is t:
                raise I.exc("ValueError", "Cannot insert a tag into itself.")
            p = parent(x)
            if p is not None:
                if p is t:
                    if idx(p, x) < pos:
                        pos -= 1
                extract(I, x)
            I.touch(t.attrs["contents"], "insert")
            kids(t).insert(min(pos, len(kids(t))) if pos >= 0 else pos, x)
            setparent(x, t)
            out.append(x)
            pos += 1
        return I.mklist(out)

    def append(I, t, x):
        r = insert(I, t, len(kids(t)), x)
        return r.data[0] if len(r.data) == 1 else r

    def extend(I, t, xs):
        xs = list(kids(xs)) if is_tag(xs) else list(I.iterate(xs))
        return I.mklist([append(I, t, x) for x in xs])

    def beside(after):
        def f(I, x, *new):
            p = parent(x)
            if p is None:
                raise I.exc("ValueError", "Element has no parent, so 'before' has no meaning.")
            out, ref = [], x
            for n in new:
                n = coerce(n)
                if n is x:
                    raise I.exc("ValueError", "Can't insert an element before itself.")
                extract(I, n)
                i = idx(p, ref)
                insert(I, p, i + 1 if after else i, n)
                if after:
                    ref = n
                out.append(n)
            return I.mklist(out)
        return f

    def replace_with(I, x, *new):
        p = parent(x)
        if p is None:
            raise I.exc("ValueError", "Cannot replace one element with another when the element to be replaced is not part of a tree.")
        if len(new) == 1 and new[0] is x:
            return None
        i = idx(p, x)
        extract(I, x)
        for k, n in enumerate(new):
            insert(I, p, i + k, n)
        return x

    def wrap_(I, x, inside):
        replace_with(I, x, inside)
        append(I, inside, x)
        return inside

    def unwrap_(I, t):
        p = parent(t)
        if p is None:
            raise I.exc("ValueError", "Cannot replace an element with its contents when that element is not part of a tree.")
        i = idx(p, t)
        cs = list(kids(t))
        extract(I, t)
        for c in reversed(cs):
            extract(I, c)
            insert(I, p, i, c)
        return t

    def clear(I, t, decompose=False):
        for c in list(kids(t)):
            extract(I, c)

    # -------------------------------------------------------------- traversal
    def desc(t):
        for c in list(kids(t)):
            yield c
            if is_tag(c):
                yield from desc(c)

    def children(t):
        return iter(list(kids(t)))

    def parents(x):
        p = parent(x)
        while p is not None:
            yield p
            p = parent(p)

    def nexts(x):
        p = parent(x)
        if p is None:
            return []
        return kids(p)[idx(p, x) + 1:]

    def prevs(x):
        p = parent(x)
        if p is None:
            return []
        return kids(p)[:idx(p, x)][::-1]

    def root(x):
        while parent(x) is not None:
            x = parent(x)
        return x

    def doc(x):
        r = root(x)
        return [r] + list(desc(r)) if is_tag(r) else [r]

    def afters(x):
        d = doc(x)
        i = next(i for i, y in enumerate(d) if y is x)
        return d[i + 1:]

    def befores(x):
        d = doc(x)
        i = next(i for i, y in enumerate(d) if y is x)
        return d[:i][::-1]

    # -------------------------------------------------------------- matching
    def rules(obj):
        if obj is None:
            return []
        s = I.s(obj)
        if s is not None:
            return [("s", s)]
        if isinstance(obj, bool):
            return [("present", obj)]
        if isinstance(obj, (FuncV, Bound, Builtin, ClassV)):
            return [("f", obj)]
        if isinstance(obj, Pattern):
            return [("re", obj)]
        if isinstance(obj, Fin):
            return rules(I.split(obj))
        if isinstance(obj, (tuple,)) or (isinstance(obj, Inst) and isinstance(obj.data, (list, DictData))):
            out = []
            for o in I.iterate(obj):
                out += rules(o)
            return out or [("none", None)]
        if isinstance(obj, (int, Num)):
            return [("s", I.str_of(obj))]
        if isinstance(obj, Inst) and obj.cls.lookup("__call__")[0] is not None:
            return [("f", obj)]
        raise Imprecise("bs4 match rule %r" % (obj,))

    def rule_ok(r, v, call_arg=None):
        k, x = r
        if k == "none":
            return False
        if k == "present":
            return (v is not None) == x
        if k == "s":
            if v is None:
                return False
            return I.truth(I.eq(v, x))
        if k == "re":
            return v is not None and I.truth(I.callm(x, "search", v) is not None)
        return I.truth(I.call(x, [v if call_arg is None else call_arg]))

    def strainer(name, attrs, string, kw):
        kw = dict(kw)
        if string is None and "text" in kw:
            string = kw.pop("text")
        arules = []
        pairs = []
        if attrs is not None:
            if isinstance(attrs, Inst) and isinstance(attrs.data, DictData) and attrs.cls.kind == "dict":
                pairs += [(I.s(k), v) for k, v in attrs.data.d.values()]
            elif I.truth(attrs):
                pairs.append(("class", attrs))
        for k, v in kw.items():
            pairs.append(("class" if k == "class_" else k, v))
        for k, v in pairs:
            arules.append((k, rules(False if v is None else v)))
        nr = rules(name)
        sr = rules(string)
        if name is None and not pairs and string is None:
            nr = [("present", True)]

        def tag_ok(t):
            if not nr and not arules:
                return False
            if sr and not nr and not arules:
                return False
            if nr:
                pn = t.attrs["name"]
                pre = t.attrs.get("prefix")
                for r in nr:
                    if rule_ok(r, pn, t):
                        break
                    if pre is not None and r[0] in ("s", "re") and rule_ok(r, I.str_of(pre) + ":" + pn, t):
                        break
                else:
                    return False
            for k, rs in arules:
                v = I.dict_get(t.attrs["attrs"], k, None)
                for r in rs:
                    if isinstance(v, Inst) and isinstance(v.data, list):
                        if any(rule_ok(r, x) for x in v.data):
                            break
                        if rule_ok(r, " ".join(I.s(x) for x in v.data)):
                            break
                    elif rule_ok(r, v):
                        break
                else:
                    return False
            if sr:
                v = get_string(I, t)
                if not any(rule_ok(r, v) for r in sr):
                    return False
            return True

        def str_ok(x):
            if nr or arules:
                return False
            return any(rule_ok(r, x.data) for r in sr)
        return lambda x: tag_ok(x) if is_tag(x) else str_ok(x)

    def finder(gen, one):
        def f(I, x, name=None, attrs=None, *rest, **kw):
            rest = list(rest)
            string = kw.pop("string", None)
            limit = kw.pop("limit", None)
            g = gen
            if gen is desc:
                rec = kw.pop("recursive", rest.pop(0) if rest else True)
                if not I.truth(rec):
                    g = children
            if rest:
                string = rest.pop(0)
            if rest:
                limit = rest.pop(0)
            ok = strainer(name, attrs, string, kw)
            if limit is not None:
                limit = I.index(limit)
            if one:
                limit = 1
            out = []
            for e in g(x):
                if ok(e):
                    out.append(e)
                    if limit and len(out) >= limit:
                        break
            if one:
                return out[0] if out else None
            return I.new(RS, out)
        return f

    # -------------------------------------------------------------- text
    MAIN = (NS, SUBS["CData"])

    def strings(x, strip=False, types=None):
        if is_str(x):
            src, want = [x], MAIN
        else:
            src = desc(x)
            n = x.attrs["name"]
            want = MAIN
            if not x.attrs.get("is_xml"):
                want = {"style": (SUBS["Stylesheet"],), "script": (SUBS["Script"],),
                        "template": (SUBS["TemplateString"],)}.get(n, MAIN) if isinstance(n, str) else MAIN
        if types is not None:
            want = tuple(I.iterate(types)) if not isinstance(types, ClassV) else (types,)
        for d in src:
            if is_str(d) and d.cls in want:
                if strip:
                    s = I.s(I.callm(d.data, "strip"))
                    if not I.truth(s):
                        continue
                    yield s
                else:
                    yield d

    def get_text(I, x, separator="", strip=False, types=None):
        return I.callm(separator, "join", I.mklist(list(strings(x, I.truth(strip), types))))

    def get_string(I, t):
        c = kids(t)
        if len(c) != 1:
            return None
        return c[0] if is_str(c[0]) else get_string(I, c[0])

    def set_string(I, t, s):
        clear(I, t)
        append(I, t, mkstr(I.s(s) if I.s(s) is not None else I.str_of(s),
                           s.cls if is_str(s) else NS))

    # -------------------------------------------------------------- parse
    def settle(s, what):
        """split finite pieces that may contain markup"""
        i = 0
        while i < len(s):
            c = s[i]
            if is_atom(c):
                a = S.A(c)
                if a.cs & MARKUP_CORE or a.minlen == 0:
                    f = I.as_fin(c)
                    if f is not None:
                        s = s[:i] + I.s(I.split(c)) + s[i + 1:]
                        continue
            i += 1
        return s

    def to_model(r, xml, c=None):
        bs4 = real()
        attrs = I.new(XAD if xml else HAD, DictData())
        if getattr(r, "attrs", None):
            for k, v in r.attrs.items():
                if isinstance(v, list):
                    v = I.mklist([str(x) for x in v])
                else:
                    v = str(v)
                I.dict_set(attrs, str(k), v)
        t = mktag(str(r.name), attrs, xml, None if r.prefix is None else str(r.prefix),
                  None if r.namespace is None else str(r.namespace), c)
        fill(t, r, xml)
        return t

    def fill(t, r, xml):
        bs4 = real()
        for ch in r.contents:
            if isinstance(ch, bs4.Tag):
                m = to_model(ch, xml)
            else:
                m = mkstr(str.__str__(ch), SUBS.get(type(ch).__name__, NS))
            m.attrs["parent"] = t
            kids(t).append(m)

    def soup_init(I, o, markup="", features=None, builder=None, parse_only=None,
                  from_encoding=None, exclude_encodings=None, element_classes=None, **kw):
        bs4 = real()
        s = I.s(markup)
        if s is None:
            if isinstance(markup, Fin):
                s = I.s(I.split(markup))
            if s is None and isinstance(markup, bytes):
                s = markup
            if s is None:
                raise I.exc("TypeError", "Incoming markup is of an invalid type: %s" % I.type_of(markup).name)
        for x in (builder, parse_only, element_classes):
            if x is not None:
                raise Imprecise("BeautifulSoup option")
        if isinstance(features, Inst) or isinstance(features, tuple):
            feats = [I.s(x) for x in I.iterate(features)]
        else:
            feats = I.s(features)
        if isinstance(s, str):
            s = settle(s, "BeautifulSoup")
            markup_guard(s, "BeautifulSoup")
        with _w.catch_warnings():
            _w.simplefilter("ignore")
            try:
                r = bs4.BeautifulSoup(s, feats)
            except bs4.exceptions.FeatureNotFound as e:
                raise I.exc(FNF, str(e))
            except bs4.exceptions.ParserRejectedMarkup as e:
                raise I.exc(PRM, str(e))
        xml = bool(r.is_xml)
        I.touch(o, "init")
        o.attrs.update(name="[document]", prefix=None, namespace=None,
                       attrs=newattrs(xml, []), contents=I.mklist(), parent=None, hidden=True)
        o.attrs["is_xml"] = xml
        o.attrs["original_encoding"] = None
        o.attrs["contains_replacement_characters"] = False
        o.attrs["\0features"] = feats
        o.attrs["_namespaces"] = I.mkdict([(str(a), str(b)) for a, b in r._namespaces.items()])
        fill(o, r, xml)

    def features_of(x):
        r = root(x)
        f = r.attrs.get("\0features")
        if f is None:
            f = "xml" if x.attrs.get("is_xml") else "lxml"
        return f

    # ------------------------------------------------------------ serialise
    def textual(s, formatter, what, attr=False):
        """check that serialising cannot change the pieces of s"""
        for c in s:
            if is_atom(c):
                a = S.A(c)
                bad = frozenset("\t\n\r\x0b\x0c \x00")
                if formatter is not None:
                    bad |= frozenset("<>&")
                if attr:
                    bad = frozenset("\"")
                    if formatter is not None:
                        bad |= frozenset("<>&'")
                if a.cs & bad or a.minlen == 0:
                    raise Imprecise("%s: piece %s may contain markup" % (what, a))
        if formatter not in (None, "minimal") and has_atoms(s):
            raise Imprecise("formatter %s" % formatter)

    def settle_out(s):
        out = s
        i = 0
        bad = frozenset("<>&\"'\t\n\r\x0b\x0c ")
        while i < len(out):
            c = out[i]
            if is_atom(c) and (S.A(c).cs & bad or S.A(c).minlen == 0) and I.as_fin(c) is not None:
                out = out[:i] + I.s(I.split(c)) + out[i + 1:]
                continue
            i += 1
        return out

    def to_real(t, soup, formatter, pretty):
        bs4 = real()
        attrs = {}
        for k, v in t.attrs["attrs"].data.d.values():
            ks = I.s(k)
            if ks is None:
                if isinstance(k, Fin):
                    ks = I.s(I.split(k))
                else:
                    raise Imprecise("attribute name %r" % (k,))
            if v is None or v is True:
                pass
            elif isinstance(v, Inst) and isinstance(v.data, list):
                v = [settle_out(I.s(x)) for x in v.data]
                for x in v:
                    textual(x, formatter, "attribute", True)
            else:
                vs = I.s(v)
                v = settle_out(I.str_of(v) if vs is None else vs)
                textual(v, formatter, "attribute", True)
            attrs[ks] = v
        name = t.attrs["name"]
        name = I.s(name) if I.s(name) is not None else I.str_of(name)
        prefix = t.attrs.get("prefix")
        local = name
        if prefix and name.startswith(prefix + ":"):
            local = name[len(prefix) + 1:]
        r = bs4.Tag(None, soup.builder, name, t.attrs.get("namespace"), prefix)
        if not isinstance(r.attrs, dict):
            r.attrs = {}
        for k, v in attrs.items():
            dict.__setitem__(r.attrs, k, v)
        put(t, r, soup, formatter, pretty)
        return r

    def put(t, r, soup, formatter, pretty):
        bs4 = real()
        import bs4.element as el
        import bs4 as b
        for c in kids(t):
            if is_tag(c):
                r.append(to_real(c, soup, formatter, pretty))
            else:
                s = settle_out(c.data)
                textual(s, formatter, "text")
                k = getattr(el, c.cls.name, None) or el.NavigableString
                r.append(k(s))

    def serialise(t, formatter, how):
        bs4 = real()
        if not (formatter is None or isinstance(formatter, str)):
            if isinstance(formatter, (FuncV, Bound)):
                raise Imprecise("custom formatter")
            formatter = I.s(formatter)
        with _w.catch_warnings():
            _w.simplefilter("ignore")
            f = features_of(t)
            soup = bs4.BeautifulSoup("", f)
            if t.cls.sub(SOUP):
                put(t, soup, soup, formatter, True)
                return str(how(soup, formatter))
            r = to_real(t, soup, formatter, True)
            return str(how(r, formatter))

    def prettify(I, t, encoding=None, formatter="minimal"):
        if encoding is not None:
            raise Imprecise("prettify(encoding)")
        return serialise(t, formatter, lambda r, f: r.prettify(formatter=f))

    def decode(I, t, indent_level=None, eventual_encoding="utf-8", formatter="minimal", *a, **k):
        if t.cls.sub(SOUP):
            return serialise(t, formatter, lambda r, f: r.decode(indent_level, formatter=f)
                             if eventual_encoding == "utf-8" else r.decode(indent_level, eventual_encoding, f))
        return serialise(t, formatter, lambda r, f: r.decode(indent_level, eventual_encoding, f))

    def decode_contents(I, t, indent_level=None, eventual_encoding="utf-8", formatter="minimal"):
        return serialise(t, formatter, lambda r, f: r.decode_contents(indent_level, eventual_encoding, f))

    def tag_str(I, t):
        return serialise(t, "minimal", lambda r, f: r.decode())

    # ------------------------------------------------------------ tag methods
    def getattr_(I, t, name):
        if name.endswith("Tag") and len(name) > 3:
            return FIND(I, t, name[:-3])
        if hasattr(real().BeautifulSoup if t.cls.sub(SOUP) else real().Tag, name):
            raise Imprecise("attribute %s of Tag" % name)
        if not name.startswith("__") and name != "contents":
            return FIND(I, t, name)
        raise I.exc("AttributeError", "'Tag' object has no attribute '%s'" % name)

    def tag_eq(I, a, b):
        if a is b:
            return True
        if not is_tag(b):
            return False
        if not I.truth(I.eq(a.attrs["name"], b.attrs["name"])) or len(kids(a)) != len(kids(b)):
            return False
        if not I.truth(I.eq(a.attrs["attrs"], b.attrs["attrs"])):
            return False
        return all(I.truth(I.eq(x, y)) for x, y in zip(kids(a), kids(b)))

    def tag_init(I, o, parser=None, builder=None, name=None, namespace=None, prefix=None, attrs=None, *a, **k):
        if name is None:
            raise I.exc("ValueError", "No value provided for new tag's name.")
        xml = True
        o.attrs.update(name=I.s(name), prefix=prefix, namespace=namespace, hidden=False,
                       attrs=newattrs(xml, [] if attrs is None else list(attrs.data.d.values())),
                       contents=I.mklist(), parent=None)
        o.attrs["is_xml"] = xml

    def new_tag(I, o, name, namespace=None, nsprefix=None, attrs=None, sourceline=None,
                sourcepos=None, string=None, **kw):
        r = root(o)
        xml = bool(r.attrs.get("is_xml"))
        pairs = list(kw.items())
        if attrs is not None:
            pairs += list(attrs.data.d.values())
        n = I.s(name)
        if nsprefix is not None:
            n = I.s(nsprefix) + ":" + n
        d = newattrs(xml, pairs)
        if not xml:
            cl = I.dict_get(d, "class", None)
            if I.s(cl) is not None and not has_atoms(I.s(cl)):
                I.dict_set(d, "class", I.mklist(I.s(cl).split()))
        t = mktag(n, d, xml, nsprefix, namespace)
        if string is not None:
            set_string(I, t, string)
        return t

    def select(I, t, selector, namespaces=None, limit=None, **k):
        sel = I.s(selector)
        if sel is None:
            sel = I.s(I.split(selector))
        out = css_select(I, t, sel)
        if limit is not None and I.index(limit):
            out = out[:I.index(limit)]
        return I.new(RS, out)

    def css_select(I, t, sel):
        """selector subset: compounds of tag, .class, #id, [attr op value],
        joined by descendant / child combinators and commas"""
        import re
        if has_atoms(sel):
            i = 0
            while i < len(sel):
                if is_atom(sel[i]) and I.as_fin(sel[i]) is not None:
                    sel = sel[:i] + I.s(I.split(sel[i])) + sel[i + 1:]
                else:
                    i += 1
        for c in sel:
            if is_atom(c) and S.A(c).cs & frozenset(" ,>+~.#[]:=|\"'"):
                raise Imprecise("selector piece")
        alts = []
        for alt in split_top(sel, ","):
            toks = re.findall(r"\s*[>+~]\s*|\s+|(?:[^\s>+~\[]|\[[^\]]*\])+", alt.strip())
            chain = []
            comb = None
            for tk in toks:
                st = tk.strip()
                if st in (">", "+", "~", ""):
                    comb = st or " "
                else:
                    chain.append((comb, compound(I, st)))
                    comb = None
            alts.append(chain)

        def match(x, chain):
            comb, test = chain[-1]
            if not test(x):
                return False
            if len(chain) == 1:
                return True
            rest = chain[:-1]
            if comb == ">":
                return parent(x) is not None and is_tag(parent(x)) and match(parent(x), rest)
            if comb == "+":
                pv = [s for s in prevs(x) if is_tag(s)]
                return bool(pv) and match(pv[0], rest)
            if comb == "~":
                return any(match(s, rest) for s in prevs(x) if is_tag(s))
            return any(match(p, rest) for p in parents(x))
        return [x for x in desc(t) if is_tag(x) and any(match(x, c) for c in alts if c)]

    def split_top(s, sep):
        out, cur, dep, q = [], "", 0, None
        for c in s:
            if q:
                if c == q:
                    q = None
            elif c in "\"'":
                q = c
            elif c in "[(":
                dep += 1
            elif c in "])":
                dep -= 1
            elif c == sep and not dep:
                out.append(cur)
                cur = ""
                continue
            cur += c
        return out + [cur]

    def compound(I, s):
        import re
        ident = r"(?:[\w-]|[^\x00-\x7f])+"
        m = re.match(r"(\*|%s)?((?:\.%s|#%s|\[[^\]]*\])*)$" % (ident, ident, ident), s, re.S)
        if not m:
            bad = re.search(r"[^\w\-.#\[\]=|~^$*\"':()> +,\U000F0000-\U0010FFFF]", s)
            raise I.exc(SSE, "Invalid or unsupported selector") if bad else Imprecise("selector %s" % S.show(s))
        tests = []
        if m.group(1) and m.group(1) != "*":
            nm = m.group(1)

            def tname(x, nm=nm):
                n = x.attrs["name"]
                if x.attrs.get("prefix"):
                    n = n.rpartition(":")[2]
                return (n == nm) or (not x.attrs.get("is_xml") and n.lower() == nm.lower())
            tests.append(tname)
        for p in re.findall(r"\.%s|#%s|\[[^\]]*\]" % (ident, ident), m.group(2)):
            if p[0] == ".":
                tests.append(attr_test(I, "class", "~=", p[1:]))
            elif p[0] == "#":
                tests.append(attr_test(I, "id", "=", p[1:]))
            else:
                mm = re.match(r"\[\s*((?:[\w:-]|\\:)+)\s*(?:([~|^$*!]?=)\s*(?:\"([^\"]*)\"|'([^']*)'|(%s))\s*([is])?\s*)?\]$" % ident, p, re.S)
                if not mm:
                    raise I.exc(SSE, "Malformed attribute selector")
                v = next((g for g in mm.groups()[2:5] if g is not None), None)
                if mm.group(5) is not None and re.match(r"-?\d", mm.group(5)):
                    raise I.exc(SSE, "Malformed attribute selector")
                tests.append(attr_test(I, mm.group(1).replace("\\", ""), mm.group(2), v,
                                       mm.group(6)))
        return lambda x: all(t(x) for t in tests)

    def attr_test(I, name, op, val, flag=None):
        def f(x):
            for k, v in x.attrs["attrs"].data.d.values():
                ks = I.s(k)
                if ks == name or ks.lower() == name.lower():
                    break
            else:
                return False
            if op is None:
                return True
            if isinstance(v, Inst) and isinstance(v.data, list):
                vs = " ".join(I.s(y) for y in v.data)
            else:
                vs = I.s(v) if I.s(v) is not None else I.str_of(v)
            w = val
            if name.lower() == "type" or flag == "i":
                vs, w = vs.lower(), w.lower()
            if op == "=":
                return I.truth(I.eq(vs, w))
            if op == "|=":
                return I.truth(I.eq(vs, w)) or I.truth(I.callm(vs, "startswith", w + "-"))
            if op == "~=":
                return bool(w) and any(I.truth(I.eq(y, w)) for y in I.iterate(I.callm(vs, "split")))
            if op == "^=":
                return bool(w) and I.truth(I.callm(vs, "startswith", w))
            if op == "$=":
                return bool(w) and I.truth(I.callm(vs, "endswith", w))
            if op == "*=":
                return bool(w) and I.truth(I.contains(vs, w))
            return not I.truth(I.eq(vs, w))
        return f

    FNF = ClassV("FeatureNotFound", [B["ValueError"]], {}, "object")
    PRM = ClassV("ParserRejectedMarkup", [B["Exception"]], {}, "object")
    SSE = ClassV("SelectorSyntaxError", [B["Exception"]], {}, "object")
    FIND = finder(desc, True)

    def first(seq):
        for x in seq:
            return x
        return None

    def b(c, name, f):
        c.ns[name] = Builtin(f, c.name + "." + name, True)

    def prop(c, name, f, fset=None):
        c.ns[name] = Prop(Builtin(f, name), None if fset is None else Builtin(fset, name))

    for c in (PE,):
        for nm in ("extract",):
            b(c, nm, extract)
        b(c, "replace_with", replace_with)
        b(c, "replaceWith", replace_with)
        b(c, "wrap", wrap_)
        b(c, "insert_before", beside(False))
        b(c, "insert_after", beside(True))
        b(c, "decompose", lambda I, x: (extract(I, x), None)[1])
        b(c, "get_text", get_text)
        b(c, "getText", get_text)
        prop(c, "text", lambda I, x: get_text(I, x))
        prop(c, "strings", lambda I, x: Iter(iter(list(strings(x)))))
        prop(c, "stripped_strings", lambda I, x: Iter(iter(list(strings(x, True)))))
        prop(c, "next_sibling", lambda I, x: first(nexts(x)))
        prop(c, "nextSibling", lambda I, x: first(nexts(x)))
        prop(c, "previous_sibling", lambda I, x: first(prevs(x)))
        prop(c, "previousSibling", lambda I, x: first(prevs(x)))
        prop(c, "next_siblings", lambda I, x: Iter(iter(nexts(x))))
        prop(c, "previous_siblings", lambda I, x: Iter(iter(prevs(x))))
        prop(c, "next_element", lambda I, x: first(afters(x)))
        prop(c, "previous_element", lambda I, x: first(befores(x)))
        prop(c, "next_elements", lambda I, x: Iter(iter(afters(x))))
        prop(c, "previous_elements", lambda I, x: Iter(iter(befores(x))))
        prop(c, "parents", lambda I, x: Iter(iter(list(parents(x)))))
        for nm, g in [("parent", parents), ("next_sibling", nexts), ("previous_sibling", prevs)]:
            b(c, "find_" + nm, finder(g, True))
            b(c, "find_" + nm + "s", finder(g, False))
        b(c, "findParent", finder(parents, True))
        b(c, "findParents", finder(parents, False))
        b(c, "findNextSibling", finder(nexts, True))
        b(c, "findNextSiblings", finder(nexts, False))
        b(c, "findPreviousSibling", finder(prevs, True))
        b(c, "find_next", finder(afters, True))
        b(c, "findNext", finder(afters, True))
        b(c, "find_all_next", finder(afters, False))
        b(c, "find_previous", finder(befores, True))
        b(c, "find_all_previous", finder(befores, False))
    prop(NS, "string", lambda I, x: x)
    prop(NS, "name", lambda I, x: None)
    b(NS, "output_ready", lambda I, x, formatter="minimal": x.data)

    def ns_new(I, c, value=""):
        return mkstr(I.s(value) if I.s(value) is not None else I.str_of(value), c)
    NS.ns["__new__"] = StaticM(Builtin(ns_new, "NavigableString.__new__"))
    NS.ns["__init__"] = Builtin(lambda I, *a, **k: None, "__init__", True)
    for nm in ("find", "findChild"):
        b(TAG, nm, FIND)
    for nm in ("find_all", "findAll", "findChildren", "__call__"):
        b(TAG, nm, finder(desc, False))
    b(TAG, "select", select)
    b(TAG, "select_one", lambda I, t, s, *a, **k: first(select(I, t, s).data))
    b(TAG, "append", append)
    b(TAG, "extend", extend)
    b(TAG, "insert", insert)
    b(TAG, "clear", clear)
    b(TAG, "unwrap", unwrap_)
    b(TAG, "replaceWithChildren", unwrap_)
    b(TAG, "smooth", lambda I, t: (_ for _ in ()).throw(Imprecise("smooth")))
    b(TAG, "index", lambda I, t, x: idx(t, x))
    b(TAG, "get", lambda I, t, k, default=None: I.callm(t.attrs["attrs"], "get", k, default))
    b(TAG, "has_attr", lambda I, t, k: I.dict_has(t.attrs["attrs"], k))
    b(TAG, "has_key", lambda I, t, k: I.dict_has(t.attrs["attrs"], k))

    def get_attr_list(I, t, k, default=None):
        v = I.callm(t.attrs["attrs"], "get", k, default)
        if v is None:
            return I.mklist([])
        return v if isinstance(v, Inst) and isinstance(v.data, list) else I.mklist([v])
    b(TAG, "get_attribute_list", get_attr_list)
    b(TAG, "__getitem__", lambda I, t, k: I.getitem(t.attrs["attrs"], k))
    b(TAG, "__setitem__", lambda I, t, k, v: I.setitem(t.attrs["attrs"], k, v))

    def delitem(I, t, k):
        if I.dict_has(t.attrs["attrs"], k):
            I.delitem(t.attrs["attrs"], k)
    b(TAG, "__delitem__", delitem)
    b(TAG, "__iter__", lambda I, t: Iter(iter(list(kids(t)))))
    b(TAG, "__len__", lambda I, t: len(kids(t)))
    b(TAG, "__bool__", lambda I, t: True)
    b(TAG, "__contains__", lambda I, t, x: I.contains(t.attrs["contents"], x))
    b(TAG, "__eq__", tag_eq)
    b(TAG, "__hash__", lambda I, t: I.hash(t.attrs["name"]))
    b(TAG, "__getattr__", getattr_)
    b(TAG, "__str__", tag_str)
    b(TAG, "__repr__", tag_str)
    b(TAG, "__init__", tag_init)
    b(TAG, "prettify", prettify)
    b(TAG, "decode", decode)
    b(TAG, "decode_contents", decode_contents)
    prop(TAG, "string", get_string, set_string)
    prop(TAG, "children", lambda I, t: Iter(children(t)))
    prop(TAG, "descendants", lambda I, t: Iter(iter(list(desc(t)))))
    prop(TAG, "is_empty_element", lambda I, t: not kids(t))
    prop(TAG, "_all_strings", lambda I, t: Builtin(lambda I, strip=False, types=None: Iter(iter(list(strings(t, strip, types)))), "_all_strings"))
    b(SOUP, "__init__", soup_init)
    b(SOUP, "new_tag", new_tag)
    b(SOUP, "new_string", lambda I, o, s, subclass=None: mkstr(I.s(s), subclass or NS))
    b(PE, "new_tag", lambda I, x, *a, **k: new_tag(I, root(x), *a, **k))
    I.soup_tag, I.soup_str, I.soup_cls = TAG, NS, SOUP

    # deepcopy / copy of a tree
    def copy_tree(I, x, memo=None):
        if is_str(x):
            return mkstr(x.data, x.cls)
        c = I.new(x.cls)
        c.attrs.update({k: v for k, v in x.attrs.items()
                        if k in ("name", "prefix", "namespace", "hidden", "is_xml", "\0features", "_namespaces",
                                 "original_encoding", "contains_replacement_characters")})
        c.attrs["attrs"] = I.new(x.attrs["attrs"].cls, x.attrs["attrs"].data.copy())
        c.attrs["contents"] = I.mklist()
        c.attrs["parent"] = None
        for k in kids(x):
            append(I, c, copy_tree(I, k))
        return c
    for c in (TAG, NS):
        b(c, "__deepcopy__", copy_tree)
        b(c, "__copy__", copy_tree)
    allc = dict(BeautifulSoup=SOUP, Tag=TAG, PageElement=PE, ResultSet=RS, SoupStrainer=STRN,
                FeatureNotFound=FNF, ParserRejectedMarkup=PRM, **SUBS)
    m = mod("bs4", **allc)
    mod("bs4.element", AttributeDict=XAD, XMLAttributeDict=XAD, HTMLAttributeDict=HAD, **allc)
    mod("bs4.exceptions", FeatureNotFound=FNF, ParserRejectedMarkup=PRM)
    for n in ("bs4.builder", "bs4.dammit", "bs4.formatter"):
        mod(n)
    mod("soupsieve", SelectorSyntaxError=SSE)
    mod("soupsieve.util", SelectorSyntaxError=SSE)
