"""Summaries of the standard-library modules the repository uses."""
import os
import re
from fractions import Fraction as F

from . import strs as S
from .strs import Imprecise, has_atoms, is_atom
from .num import Num, Poly, Atom, lift, pfloor, pround, bounds
from .interp import (ClassV, Inst, DictData, FuncV, Bound, Builtin, StaticM,
                     ClassM, Prop, ModV, SuperV, Ext, Iter, Fin, PyExc, NULL,
                     NotImpl, Unmodelled, Abort)


# characters that mean something to a markup parser or serialiser
MARKUP = frozenset("<>&\"'=/;#\t\n\r\x0b\x0c \x00-!?[]")
MARKUP_CORE = frozenset("<>&\"';#\t\n\r\x0b\x0c \x00")


def inert(s, what, chars=MARKUP_CORE):
    """every piece of s is opaque to the library"""
    for c in s:
        if is_atom(c) and S.A(c).cs & chars:
            raise Imprecise("%s: piece %s may contain markup" % (what, S.A(c)))


def markup_guard(s, what):
    inert(s, what)
    for m in re.finditer(r"(?:&#?\w*|</?[\w!?]*)(?=[\U000F0000-\U0010FFFF])", s):
        raise Imprecise("%s: markup continues into a piece: %r" % (what, S.show(s[m.start():m.end() + 1])))


class Pattern(Ext):
    cache = {}

    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags
        k = (pattern, flags)
        if k not in Pattern.cache:
            Pattern.cache[k] = S.Rx(pattern, flags)
        self.rx = Pattern.cache[k]

    def sa_eq(self, I, o):
        return isinstance(o, Pattern) and (o.pattern, o.flags) == (self.pattern, self.flags)

    def sa_type(self, I):
        return I.B["\0Pattern"]

    def target(self, I, s):
        t = I.s(s)
        if t is None:
            if isinstance(s, Fin):
                t = I.s(I.split(s))
            if t is None:
                raise I.exc("TypeError", "expected string or bytes-like object")
        return t

    def run(self, I, s, f):
        """f(string), splitting finite pieces when the match depends on them"""
        for _ in range(40):
            try:
                return f(s), s
            except Imprecise:
                for i, c in enumerate(s):
                    if is_atom(c) and S.A(c).kind == "fin":
                        s = s[:i] + I.split(c) + s[i + 1:]
                        break
                else:
                    raise
        raise Imprecise("regex split")

    def match(self, I, s, mode, pos=0, end=None):
        s = self.target(I, s)
        pos = I.index(pos)
        if end is not None:
            s = I.str_slice(s, slice(None, end, None))
        fin = I.as_fin(s)
        if mode == "search":
            f = lambda t: self.rx.search(t, pos)
        else:
            f = lambda t: self.rx.match_at(t, pos, mode == "full")
        if fin is not None:
            # split only by whether it matches and by the groups
            g = {}
            def key(v):
                r = f(v)
                return None if r is None else tuple(sorted((k, v[x[0]:x[1]]) for k, x in r.items()))
            v = I.fin_split_by(fin, lambda v: repr(key(v)))
            r = f(v)
            return None if r is None else MatchV(self, v, r)
        r, s = self.run(I, s, f)
        return None if r is None else MatchV(self, s, r)

    def iter(self, I, s):
        s = self.target(I, s)
        if I.as_fin(s) is not None:
            s = I.split(s)
        r, s = self.run(I, s, lambda t: list(self.rx.finditer(t)))
        return [MatchV(self, s, g) for g in r], s

    def sub(self, I, repl, s, count=0, n=False):
        ms, s = self.iter(I, s)
        count = I.index(count)
        if count:
            ms = ms[:count]
        out, i = [], 0
        for m in ms:
            a, b = m.g[0]
            out.append(s[i:a])
            rs = I.s(repl)
            if rs is not None:
                out.append(m.expand(I, rs))
            else:
                v = I.call(repl, [m])
                sv = I.s(v)
                if sv is None:
                    raise I.exc("TypeError", "expected str from replacement")
                out.append(sv)
            i = b
        out.append(s[i:])
        r = "".join(out)
        return (r, len(ms)) if n else r

    def findall(self, I, s):
        ms, s = self.iter(I, s)
        out = []
        for m in ms:
            if self.rx.groups == 0:
                out.append(m.group(I, 0))
            elif self.rx.groups == 1:
                out.append(m.group(I, 1) or "")
            else:
                out.append(tuple(m.group(I, i) or "" for i in range(1, self.rx.groups + 1)))
        return I.mklist(out)

    def splitre(self, I, s, maxsplit=0):
        ms, s = self.iter(I, s)
        maxsplit = I.index(maxsplit)
        if maxsplit:
            ms = ms[:maxsplit]
        out, i = [], 0
        for m in ms:
            a, b = m.g[0]
            out.append(s[i:a])
            for k in range(1, self.rx.groups + 1):
                out.append(m.group(I, k))
            i = b
        out.append(s[i:])
        return I.mklist(out)

    def sa_getattr(self, I, name):
        t = {
            "search": lambda I, string, pos=0, endpos=None: self.match(I, string, "search", pos, endpos),
            "match": lambda I, string, pos=0, endpos=None: self.match(I, string, "match", pos, endpos),
            "fullmatch": lambda I, string, pos=0, endpos=None: self.match(I, string, "full", pos, endpos),
            "finditer": lambda I, string: Iter(iter(self.iter(I, string)[0])),
            "findall": lambda I, string: self.findall(I, string),
            "sub": lambda I, repl, string, count=0: self.sub(I, repl, string, count),
            "subn": lambda I, repl, string, count=0: self.sub(I, repl, string, count, True),
            "split": lambda I, string, maxsplit=0: self.splitre(I, string, maxsplit),
        }
        if name in t:
            return Builtin(t[name], "re." + name)
        if name == "pattern":
            return self.pattern
        if name == "flags":
            return int(self.rx.flags)
        if name == "groups":
            return self.rx.groups
        if name == "groupindex":
            return I.mkdict(list(self.rx.groupindex.items()))
        raise I.exc("AttributeError", name)


class MatchV(Ext):
    def __init__(self, pat, s, g):
        self.pat, self.s, self.g = pat, s, g

    def gid(self, I, k):
        if isinstance(k, bool) or not isinstance(k, (int, str, Num, Inst)):
            raise I.exc("IndexError", "no such group")
        ks = I.s(k)
        if ks is not None:
            if ks not in self.pat.rx.groupindex:
                raise I.exc("IndexError", "no such group")
            return self.pat.rx.groupindex[ks]
        k = I.index(k)
        if not 0 <= k <= self.pat.rx.groups:
            raise I.exc("IndexError", "no such group")
        return k

    def group(self, I, k, default=None):
        k = self.gid(I, k)
        if k not in self.g:
            return default
        a, b = self.g[k][:2]
        t = self.s[a:b]
        if len(self.g[k]) == 3 and is_atom(t) and (S.A(t).minlen, S.A(t).maxlen) != (1, 1):
            # last character of a piece of several characters
            if S.A(t).kind == "fin":
                return I.fin_map(lambda v: v[-1:], t)
            a = S.A(t)
            return S.satom("last(%s)" % a.key, a.cs, min(1, a.minlen), 1)
        return t

    def expand(self, I, t):
        if "\\" not in t:
            return t
        out, i = [], 0
        for m in re.finditer(r"\\(?:g<(\w+)>|(\d{1,2})|(.))", t, re.S):
            out.append(t[i:m.start()])
            i = m.end()
            if m.group(1) is not None:
                k = m.group(1)
                out.append(self.group(I, int(k) if k.isdigit() else k) or "")
            elif m.group(2) is not None:
                out.append(self.group(I, int(m.group(2))) or "")
            else:
                e = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", "f": "\f", "v": "\v",
                     "a": "\a", "b": "\b"}.get(m.group(3))
                if e is None:
                    if m.group(3).isalpha():
                        raise I.exc("ValueError", "bad escape")
                    e = "\\" + m.group(3)
                out.append(e)
        out.append(t[i:])
        return "".join(out)

    def sa_getitem(self, I, k):
        return self.group(I, k)

    def sa_getattr(self, I, name):
        rx = self.pat.rx

        def group(I, *ks):
            if not ks:
                return self.group(I, 0)
            if len(ks) == 1:
                return self.group(I, ks[0])
            return tuple(self.group(I, k) for k in ks)

        def pos(i):
            return I.norm(S.length(self.s[:i]))

        def span(k):
            k = self.gid(I, k)
            if k not in self.g:
                return -1, -1
            if len(self.g[k]) == 3 and is_atom(self.s[self.g[k][0]]) and \
                    (S.A(self.s[self.g[k][0]]).minlen, S.A(self.s[self.g[k][0]]).maxlen) != (1, 1):
                raise Imprecise("span of a repeated group")
            return pos(self.g[k][0]), pos(self.g[k][1])
        t = {
            "group": group,
            "groups": lambda I, default=None: tuple(self.group(I, i, default) for i in range(1, rx.groups + 1)),
            "groupdict": lambda I, default=None: I.mkdict(
                [(k, self.group(I, v, default)) for k, v in rx.groupindex.items()]),
            "start": lambda I, k=0: span(k)[0],
            "end": lambda I, k=0: span(k)[1],
            "span": lambda I, k=0: span(k),
            "expand": lambda I, t: self.expand(I, I.s(t)),
        }
        if name in t:
            return Builtin(t[name], "match." + name)
        if name == "string":
            return self.s
        if name == "re":
            return self.pat
        if name == "lastgroup" or name == "lastindex":
            raise Imprecise("match." + name)
        if name in ("pos",):
            return 0
        raise I.exc("AttributeError", name)


class Delta(Ext):
    """datetime.timedelta: p is the exact number of microseconds"""

    def __init__(self, p):
        self.p = p

    def sa_type(self, I):
        return I.B["\0timedelta"]

    def floor(self, I, k):
        return pfloor(self.p.scale(F(1, k)), I.path.facts)

    def days(self, I):
        return self.floor(I, 86400 * 10**6)

    def sa_getattr(self, I, name):
        D = 86400 * 10**6
        if name == "days":
            return I.mknum(self.days(I), "int")
        if name == "seconds":
            return I.mknum(self.floor(I, 10**6) - self.days(I).scale(86400), "int")
        if name == "microseconds":
            return I.mknum(self.p - self.floor(I, 10**6).scale(10**6), "int")
        if name == "total_seconds":
            return Builtin(lambda I: Num(self.p.scale(F(1, 10**6)), "float", 1), name)
        raise I.exc("AttributeError", name)

    def sa_truth(self, I):
        return not I.decide_eq0(self.p)

    def sa_eq(self, I, o):
        return isinstance(o, Delta) and I.decide_eq0(self.p - o.p)

    def sa_lt(self, I, o):
        if not isinstance(o, Delta):
            raise I.exc("TypeError", "'<' not supported")
        return I.decide_ge(o.p - self.p, True)

    def sa_neg(self, I):
        return Delta(-self.p)

    def sa_binop(self, I, t, o, refl):
        o = I.unwrap(o)
        if isinstance(o, Delta):
            a, b = (o, self) if refl else (self, o)
            if t == "Add":
                return Delta(a.p + b.p)
            if t == "Sub":
                return Delta(a.p - b.p)
            if t == "FloorDiv":
                return I.mknum(pfloor(a.p.div(b.p), I.path.facts), "int")
            if t == "Div":
                return Num(a.p.div(b.p), "float", 1)
            if t == "Mod":
                return Delta(a.p - pfloor(a.p.div(b.p), I.path.facts) * b.p)
        elif isinstance(o, (int, Num)):
            if t == "Mult":
                q = lift(o)
                return Delta(pround(self.p * q.p, 0, I.path.facts))
            if t == "FloorDiv" and not refl:
                return Delta(pfloor(self.p.div(lift(o).p), I.path.facts))
            if t == "Div" and not refl:
                return Delta(pround(self.p.div(lift(o).p), 0, I.path.facts))
        raise I.exc("TypeError", "unsupported operand for timedelta")

    def sa_divmod(self, I, o):
        if not isinstance(o, Delta):
            raise I.exc("TypeError", "divmod")
        q = pfloor(self.p.div(o.p), I.path.facts)
        return (I.mknum(q, "int"), Delta(self.p - q * o.p))

    def sa_str(self, I):
        d = self.days(I)
        s = self.floor(I, 10**6) - d.scale(86400)
        us = self.p - self.floor(I, 10**6).scale(10**6)
        hh = pfloor(s.scale(F(1, 3600)), I.path.facts)
        mm = pfloor(s.scale(F(1, 60)), I.path.facts) - hh.scale(60)
        ss = s - pfloor(s.scale(F(1, 60)), I.path.facts).scale(60)
        r = I.fmt_int(Num(hh, "int"), 0) + ":" + I.fmt_int(Num(mm, "int"), 2) + ":" + \
            I.fmt_int(Num(ss, "int"), 2)
        if not I.decide_eq0(us):
            r += "." + I.fmt_int(Num(us, "int"), 6)
        if not I.decide_eq0(d):
            one = I.decide_eq0(d - Poly.const(1)) or I.decide_eq0(d + Poly.const(1))
            r = I.fmt_int(Num(d, "int"), 0) + (" day, " if one else " days, ") + r
        return r


class Auto(Ext):
    is_auto = True


class Foreign(Ext):
    """opaque library object reached through literal arguments only"""

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return "<foreign %s>" % type(self.o).__name__

    def sa_getattr(self, I, name):
        try:
            return wrap(I, getattr(self.o, name))
        except AttributeError as e:
            raise I.exc("AttributeError", str(e))
        except Exception as e:
            raise foreign_exc(I, e)

    def sa_setattr(self, I, name, v):
        setattr(self.o, name, unwrapf(I, v))

    def sa_call(self, I, *a, **k):
        try:
            return wrap(I, self.o(*[unwrapf(I, x) for x in a],
                                   **{n: unwrapf(I, x) for n, x in k.items()}))
        except Imprecise:
            raise
        except PyExc:
            raise
        except Exception as e:
            raise foreign_exc(I, e)

    def sa_iter(self, I):
        for x in self.o:
            yield wrap(I, x)

    def sa_len(self, I):
        return len(self.o)

    def sa_getitem(self, I, k):
        try:
            return wrap(I, self.o[unwrapf(I, k)])
        except Exception as e:
            raise foreign_exc(I, e)

    def sa_truth(self, I):
        return bool(self.o)

    def sa_eq(self, I, o):
        return isinstance(o, Foreign) and self.o == o.o

    def sa_str(self, I):
        return str(self.o)


def foreign_exc(I, e):
    for c in type(e).__mro__:
        if c.__name__ in I.B and isinstance(I.B[c.__name__], ClassV):
            x = I.exc(c.__name__, str(e))
            return x
        if c.__name__ in I.foreign_excs:
            return I.exc(I.foreign_excs[c.__name__], str(e))
    return I.exc("Exception", str(e))


def wrap(I, v):
    if v is None or isinstance(v, (bool, int, bytes)):
        return v
    if isinstance(v, str):
        return str(v)
    if isinstance(v, float):
        return lift(v)
    if isinstance(v, tuple):
        return tuple(wrap(I, x) for x in v)
    if type(v) is list:
        return I.mklist([wrap(I, x) for x in v])
    if type(v) is dict:
        return I.mkdict([(wrap(I, a), wrap(I, b)) for a, b in v.items()])
    return Foreign(v)


def unwrapf(I, v):
    if isinstance(v, Foreign):
        return v.o
    s = I.s(v)
    if s is not None:
        if has_atoms(s):
            raise Imprecise("symbolic text into library")
        return s
    v = I.unwrap(v)
    if v is None or isinstance(v, (bool, int, bytes)):
        return v
    if isinstance(v, Num):
        if not v.p.is_const():
            raise Imprecise("symbolic number into library")
        c = v.p.cval()
        return float(c) if v.kind == "float" else c
    if isinstance(v, tuple):
        return tuple(unwrapf(I, x) for x in v)
    if isinstance(v, Inst) and isinstance(v.data, list):
        return [unwrapf(I, x) for x in v.data]
    if isinstance(v, Inst) and isinstance(v.data, DictData) and v.cls.kind == "dict":
        return {unwrapf(I, a): unwrapf(I, b) for a, b in v.data.d.values()}
    if isinstance(v, (FuncV, Bound)):
        return lambda *a, **k: unwrapf(I, I.call(v, [wrap(I, x) for x in a],
                                                 {n: wrap(I, x) for n, x in k.items()}))
    if isinstance(v, Fin):
        return unwrapf(I, I.split(v))
    raise Imprecise("cannot pass %r to a library" % (v,))


class Lazy(Ext):
    """a library name resolved on first use"""


def install(I):
    B = I.B
    mods = I.extmods
    I.foreign_excs = {}

    def mod(name, **ns):
        m = ModV(name, dict(ns), None)
        mods[name] = m
        if "." in name:
            p, _, c = name.rpartition(".")
            if p in mods and mods[p] is not None:
                mods[p].ns[c] = m
        return m

    def bf(name):
        def deco(f):
            return Builtin(f, name)
        return deco

    # ---------------------------------------------------------------------- re
    B["\0Pattern"] = ClassV("Pattern", [B["object"]], {}, "object")
    B["\0Match"] = ClassV("Match", [B["object"]], {}, "object")
    MatchV.sa_type = lambda self, I: I.B["\0Match"]

    def compile_(I, p, flags=0):
        if isinstance(p, Pattern):
            return p
        ps = I.s(I.split(p))
        if has_atoms(ps):
            raise Imprecise("regex with symbolic pattern %s" % S.show(ps)[:60])
        try:
            return Pattern(ps, I.index(flags))
        except re.error as e:
            raise I.exc(err, str(e))
    err = ClassV("error", [B["Exception"]], {}, "object")

    def rf(mode):
        return Builtin(lambda I, pattern, string, flags=0: compile_(I, pattern, flags).match(I, string, mode), mode)
    mod("re", compile=Builtin(compile_, "re.compile"), search=rf("search"), match=rf("match"),
        fullmatch=rf("full"),
        findall=Builtin(lambda I, pattern, string, flags=0: compile_(I, pattern, flags).findall(I, string), "findall"),
        finditer=Builtin(lambda I, pattern, string, flags=0: Iter(iter(compile_(I, pattern, flags).iter(I, string)[0])), "finditer"),
        sub=Builtin(lambda I, pattern, repl, string, count=0, flags=0: compile_(I, pattern, flags).sub(I, repl, string, count), "sub"),
        subn=Builtin(lambda I, pattern, repl, string, count=0, flags=0: compile_(I, pattern, flags).sub(I, repl, string, count, True), "subn"),
        split=Builtin(lambda I, pattern, string, maxsplit=0, flags=0: compile_(I, pattern, flags).splitre(I, string, maxsplit), "split"),
        escape=Builtin(lambda I, s: re_escape(I, s), "escape"),
        error=err, Pattern=B["\0Pattern"], Match=B["\0Match"],
        **{n: int(getattr(re, n)) for n in ("I", "M", "S", "X", "A", "U", "IGNORECASE", "MULTILINE",
                                            "DOTALL", "VERBOSE", "ASCII", "UNICODE")})

    def re_escape(I, s):
        s = I.s(s)
        return "".join(c if is_atom(c) else re.escape(c) for c in s)

    # -------------------------------------------------------------------- copy
    def deepcopy(I, v, memo=None):
        if not isinstance(memo, dict):
            memo = {}

        def go(x):
            if isinstance(x, tuple):
                k = id(x)
                r = tuple(go(y) for y in x)
                return x if all(a is b for a, b in zip(r, x)) else r
            if isinstance(x, Inst):
                if id(x) in memo:
                    return memo[id(x)][0]
                if x.cls.enum is not None:
                    return x
                dc, _ = x.cls.lookup("__deepcopy__")
                if dc is not None:
                    r = I.call(dc, [x, I.mkdict()])
                    memo[id(x)] = (r, x)
                    return r
                n = I.new(x.cls)
                memo[id(x)] = (n, x)
                d = x.data
                if isinstance(d, list):
                    n.data = [go(y) for y in d]
                elif isinstance(d, DictData):
                    n.data = DictData()
                    for kk, vv in list(d.d.values()):
                        I.dict_set(n, go(kk), go(vv))
                elif isinstance(d, tuple):
                    n.data = tuple(go(y) for y in d)
                elif isinstance(d, Ext) and hasattr(d, "sa_deepcopy"):
                    n.data = d.sa_deepcopy(I, go)
                else:
                    n.data = d
                ss, _ = x.cls.lookup("__getstate__")
                if ss is not None:
                    raise Imprecise("__getstate__")
                for a, b in x.attrs.items():
                    n.attrs[a] = go(b)
                return n
            if isinstance(x, Ext) and hasattr(x, "sa_deepcopy"):
                if id(x) in memo:
                    return memo[id(x)][0]
                r = x.sa_deepcopy(I, go)
                memo[id(x)] = (r, x)
                return r
            if isinstance(x, (Iter, ModV)):
                raise I.exc("TypeError", "cannot pickle object")
            if isinstance(x, Bound) and isinstance(x.self, Inst):
                return Bound(x.f, go(x.self))
            return x
        return go(v)

    def copy_(I, x):
        if isinstance(x, Inst):
            if x.cls.enum is not None:
                return x
            c, _ = x.cls.lookup("__copy__")
            if c is not None:
                return I.call(c, [x])
            n = I.new(x.cls)
            d = x.data
            n.data = list(d) if isinstance(d, list) else d.copy() if isinstance(d, DictData) else d
            n.attrs = dict(x.attrs)
            return n
        return x
    I.deepcopy = lambda v: deepcopy(I, v)
    mod("copy", deepcopy=Builtin(deepcopy, "copy.deepcopy"), copy=Builtin(copy_, "copy.copy"))

    # ------------------------------------------------------------- collections
    dq = ClassV("deque", [B["object"]], {}, "list")

    def dq_init(I, o, it=(), maxlen=None):
        vals = list(I.iterate(it))
        o.attrs["maxlen"] = maxlen
        if maxlen is not None:
            n = I.index(maxlen)
            vals = vals[-n:] if n else []
        o.data = vals

    def dq_append(I, o, v):
        I.touch(o, "append")
        o.data.append(v)
        n = o.attrs.get("maxlen")
        if n is not None and len(o.data) > I.index(n):
            del o.data[0]

    def dq_appendleft(I, o, v):
        I.touch(o, "appendleft")
        o.data.insert(0, v)
        n = o.attrs.get("maxlen")
        if n is not None and len(o.data) > I.index(n):
            del o.data[-1]

    def dq_popleft(I, o):
        if not o.data:
            raise I.exc("IndexError", "pop from an empty deque")
        I.touch(o, "popleft")
        return o.data.pop(0)

    def dq_extendleft(I, o, it):
        for v in list(I.iterate(it)):
            dq_appendleft(I, o, v)

    def dq_extend(I, o, it):
        for v in list(I.iterate(it)):
            dq_append(I, o, v)

    def dq_rotate(I, o, n=1):
        n = I.index(n)
        if o.data:
            I.touch(o, "rotate")
            n %= len(o.data)
            o.data[:] = o.data[-n:] + o.data[:-n]
    for n, f in [("__init__", dq_init), ("append", dq_append), ("appendleft", dq_appendleft),
                 ("popleft", dq_popleft), ("extendleft", dq_extendleft), ("extend", dq_extend),
                 ("rotate", dq_rotate)]:
        dq.ns[n] = Builtin(f, "deque." + n, True)

    dd = ClassV("defaultdict", [B["dict"]], {}, "dict")

    def dd_init(I, o, factory=None, *a, **k):
        o.attrs["default_factory"] = factory
        I.builtin_init(o, a, k)

    def dd_missing(I, o, k):
        f = o.attrs.get("default_factory")
        if f is None:
            raise I.exc("KeyError", k)
        v = I.call(f)
        I.dict_set(o, k, v)
        return v
    dd.ns["__init__"] = Builtin(dd_init, "defaultdict", True)
    dd.ns["__missing__"] = Builtin(dd_missing, "__missing__", True)
    od = ClassV("OrderedDict", [B["dict"]], {}, "dict")

    def od_mte(I, o, k, last=True):
        h = I.dict_find(o, k)
        if h is None:
            raise I.exc("KeyError", k)
        I.touch(o, "move_to_end")
        v = o.data.d.pop(h)
        if I.truth(last):
            o.data.d[h] = v
        else:
            o.data.d = {h: v, **o.data.d}
    od.ns["move_to_end"] = Builtin(od_mte, "move_to_end", True)
    ct = ClassV("Counter", [B["dict"]], {}, "dict")

    def ct_init(I, o, it=()):
        for x in list(I.iterate(it)):
            I.dict_set(o, x, I.binop("Add", I.dict_get(o, x, 0), 1))
    ct.ns["__init__"] = Builtin(ct_init, "Counter", True)
    ct.ns["__missing__"] = Builtin(lambda I, o, k: 0, "__missing__", True)

    def namedtuple(I, name, fields, defaults=None, **kw):
        fs = I.s(fields)
        fl = fs.replace(",", " ").split() if fs is not None else [I.s(x) for x in I.iterate(fields)]
        c = ClassV(I.s(name), [B["tuple"]], {}, "tuple")
        c.fields = fl
        dfl = list(I.iterate(defaults)) if defaults is not None else []
        c.ns["_field_defaults"] = dict(zip(fl[len(fl) - len(dfl):], dfl))
        c.ns["_fields"] = tuple(fl)
        c.ns["_make"] = ClassM(Builtin(lambda I, cls, it: I.new(cls, tuple(I.iterate(it))), "_make"))
        return c
    mod("collections", deque=dq, defaultdict=dd, OrderedDict=od, Counter=ct,
        namedtuple=Builtin(namedtuple, "namedtuple"), UserDict=B["dict"], UserList=B["list"])

    def virt(name, test):
        c = ClassV(name, [B["object"]], {}, "object")
        c.ns["\0virtual"] = lambda I, o, t: test(I, o, t)
        return c
    num = virt("Number", lambda I, o, t: any(t.sub(B[k]) for k in ("int", "float", "Fraction", "Decimal")) or t.sub(num))
    integral = virt("Integral", lambda I, o, t: t.sub(B["int"]))
    real = virt("Real", lambda I, o, t: any(t.sub(B[k]) for k in ("int", "float", "Fraction")))
    mod("numbers", Number=num, Integral=integral, Real=real, Rational=virt(
        "Rational", lambda I, o, t: any(t.sub(B[k]) for k in ("int", "Fraction"))))

    def iterable(I, o, t):
        return t.kind in ("str", "list", "dict", "set", "frozenset", "tuple", "range", "bytes") or \
            t.lookup("__iter__")[0] is not None or isinstance(o, (Iter,)) or hasattr(o, "sa_iter")
    abc_ns = dict(Iterable=virt("Iterable", iterable),
                  Mapping=virt("Mapping", lambda I, o, t: t.kind == "dict"),
                  MutableMapping=virt("MutableMapping", lambda I, o, t: t.kind == "dict"),
                  Sequence=virt("Sequence", lambda I, o, t: t.kind in ("str", "list", "tuple", "range", "bytes")),
                  MutableSequence=virt("MutableSequence", lambda I, o, t: t.kind == "list"),
                  Set=virt("Set", lambda I, o, t: t.kind in ("set", "frozenset")),
                  Hashable=virt("Hashable", lambda I, o, t: t.kind not in ("list", "dict", "set")),
                  Sized=virt("Sized", lambda I, o, t: t.kind in ("str", "list", "dict", "set", "frozenset", "tuple", "range", "bytes") or t.lookup("__len__")[0] is not None),
                  Callable=virt("Callable", lambda I, o, t: isinstance(o, (FuncV, Bound, Builtin, ClassV))),
                  Iterator=virt("Iterator", lambda I, o, t: isinstance(o, Iter)))
    mod("collections.abc", **abc_ns)

    class Typing(Ext):
        def sa_getattr(self, I, name):
            return self

        def sa_getitem(self, I, k):
            return self

        def sa_call(self, I, *a, **k):
            return a[1] if len(a) == 2 else (a[0] if a else self)
    ty = Typing()
    nt = ClassV("NamedTuple", [B["tuple"]], {"\0ntbase": True}, "tuple")
    mod("typing", NamedTuple=nt, TYPE_CHECKING=False, cast=Builtin(lambda I, t, v: v, "cast"),
        **{n: ty for n in ("Any", "Optional", "Union", "List", "Dict", "Tuple", "Set", "Iterable",
                           "Iterator", "Callable", "Sequence", "Mapping", "TypeVar", "Generic",
                           "ClassVar", "Final", "Literal", "Type", "Generator", "overload")})
    mod("__future__", annotations=None)

    # -------------------------------------------------------------------- enum
    enum = ClassV("Enum", [B["object"]], {"\0enumbase": True}, "object")
    ienum = ClassV("IntEnum", [B["int"]], {"\0enumbase": True}, "int")
    senum = ClassV("StrEnum", [B["str"]], {"\0enumbase": True}, "str")
    mod("enum", Enum=enum, IntEnum=ienum, StrEnum=senum, unique=Builtin(lambda I, c: c, "unique"),
        auto=Builtin(lambda I: Auto(), "auto"))

    # ---------------------------------------------------------------- datetime
    td = ClassV("timedelta", [B["object"]], {}, "object")
    B["\0timedelta"] = td

    def td_new(I, cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        p = Poly.const(0)
        for v, k in ((days, 86400 * 10**6), (seconds, 10**6), (microseconds, 1), (milliseconds, 1000),
                     (minutes, 60 * 10**6), (hours, 3600 * 10**6), (weeks, 7 * 86400 * 10**6)):
            v = I.settle(I.unwrap(v))
            if not isinstance(v, (int, Num)):
                raise I.exc("TypeError", "unsupported type for timedelta component")
            n = lift(v)
            if n.kind == "frac":
                raise I.exc("TypeError", "unsupported type for timedelta component")
            p = p + n.p.scale(k)
        return Delta(pround(p, 0, I.path.facts))
    td.ns["__new__"] = StaticM(Builtin(td_new, "timedelta"))
    mod("datetime", timedelta=td)

    # -------------------------------------------------------------------- math
    def m_floor(I, x):
        if isinstance(x, Fin):
            return I.fin_map(lambda v: m_floor(I, v), x)
        x = lift(I.unwrap(x))
        if x.kind == "float" and x.rnd > 1 and not x.p.is_const() or \
                x.kind == "float" and x.rnd == 1 and not x.p.is_const() and not I.quotient_safe(x.p):
            return Num(I.approx_floor(x.p), "int")
        return I.mknum(pfloor(x.p, I.path.facts), "int")

    def m_ceil(I, x):
        x = lift(I.unwrap(x))
        return I.mknum(-lift(m_floor(I, Num(-x.p, x.kind, x.rnd))).p, "int")
    mod("math", floor=Builtin(m_floor, "floor"), ceil=Builtin(m_ceil, "ceil"),
        trunc=Builtin(lambda I, x: I.to_int(I.unwrap(x)), "trunc"),
        fabs=Builtin(lambda I, x: I.ctor["float"](I, I.call(B["abs"], [x])), "fabs"),
        gcd=Builtin(lambda I, a, b: __import__("math").gcd(I.index(a), I.index(b)), "gcd"),
        isnan=Builtin(lambda I, x: False, "isnan"), isinf=Builtin(lambda I, x: False, "isinf"),
        isfinite=Builtin(lambda I, x: True, "isfinite"),
        pi=lift(3.141592653589793), inf=Unmodelled("math.inf"))
    mod("fractions", Fraction=B["Fraction"])
    mod("decimal", Decimal=B["Decimal"])

    # --------------------------------------------------------------- itertools
    def product(I, *its, repeat=1):
        import itertools
        pools = [list(I.iterate(x)) for x in its] * I.index(repeat)
        return Iter(iter(list(itertools.product(*pools))))

    def chain(I, *its):
        def g():
            for x in its:
                yield from I.iterate(x)
        return Iter(g())

    def groupby(I, it, key=None):
        out = []
        for v in I.iterate(it):
            k = v if key is None else I.call(key, [v])
            if out and I.eq(out[-1][0], k):
                out[-1][1].append(v)
            else:
                out.append((k, [v]))
        return Iter(iter([(k, I.mklist(v)) for k, v in out]))

    def islice(I, it, *a):
        import itertools
        return Iter(itertools.islice(I.iterate(it), *[None if x is None else I.index(x) for x in a]))

    def takewhile(I, f, it):
        def g():
            for v in I.iterate(it):
                if not I.truth(I.call(f, [v])):
                    return
                yield v
        return Iter(g())

    def dropwhile(I, f, it):
        def g():
            drop = True
            for v in I.iterate(it):
                if drop and I.truth(I.call(f, [v])):
                    continue
                drop = False
                yield v
        return Iter(g())

    def zip_longest(I, *its, fillvalue=None):
        import itertools
        return Iter(iter(list(itertools.zip_longest(*[list(I.iterate(x)) for x in its], fillvalue=fillvalue))))

    def pairwise(I, it):
        v = list(I.iterate(it))
        return Iter(iter(list(zip(v, v[1:]))))

    def count(I, start=0, step=1):
        def g():
            v = start
            for _ in range(100000):
                yield v
                v = I.binop("Add", v, step)
            raise Imprecise("long count()")
        return Iter(g())

    def repeat_(I, v, n=None):
        def g():
            for _ in range(100000 if n is None else I.index(n)):
                yield v
        return Iter(g())

    def accumulate(I, it, func=None, initial=NULL):
        def g():
            t = initial
            if t is not NULL:
                yield t
            for v in I.iterate(it):
                t = v if t is NULL else (I.binop("Add", t, v) if func is None else I.call(func, [t, v]))
                yield t
        return Iter(g())
    chb = ClassV("chain", [B["object"]], {}, "object")
    chb.ns["__new__"] = StaticM(Builtin(lambda I, cls, *a: chain(I, *a), "chain"))
    chb.ns["from_iterable"] = StaticM(Builtin(lambda I, it: chain(I, *list(I.iterate(it))), "from_iterable"))

    def combos(name):
        def f(I, it, r=None):
            import itertools
            fn_ = getattr(itertools, name)
            v = list(I.iterate(it))
            return Iter(iter(list(fn_(v) if r is None else fn_(v, I.index(r)))))
        return Builtin(f, name)
    mod("itertools", product=Builtin(product, "product"), chain=chb, groupby=Builtin(groupby, "groupby"),
        islice=Builtin(islice, "islice"), takewhile=Builtin(takewhile, "takewhile"),
        dropwhile=Builtin(dropwhile, "dropwhile"), zip_longest=Builtin(zip_longest, "zip_longest"),
        pairwise=Builtin(pairwise, "pairwise"), count=Builtin(count, "count"),
        repeat=Builtin(repeat_, "repeat"), accumulate=Builtin(accumulate, "accumulate"),
        filterfalse=Builtin(lambda I, f, it: Iter(v for v in I.iterate(it) if not I.truth(
            v if f is None else I.call(f, [v]))), "filterfalse"),
        starmap=Builtin(lambda I, f, it: Iter(I.call(f, list(I.iterate(v))) for v in I.iterate(it)), "starmap"),
        combinations=combos("combinations"), permutations=combos("permutations"))

    # --------------------------------------------------------------- functools
    def reduce(I, f, it, init=NULL):
        t = init
        for v in I.iterate(it):
            t = v if t is NULL else I.call(f, [t, v])
        if t is NULL:
            raise I.exc("TypeError", "reduce() of empty iterable")
        return t

    def partial(I, f, *a, **k):
        return Builtin(lambda I, *b, **kk: I.call(f, list(a) + list(b), {**k, **kk}), "partial")

    def wraps(I, f, *a, **k):
        return Builtin(lambda I, g: g, "wraps")

    class Cached(Ext):
        """memoised function: results are remembered, hence shared"""

        def __init__(self, f):
            self.f = f
            self.store = None

        def cache(self, I):
            if self.store is None:
                d = I.new(B["dict"], DictData())
                d.gen = 0
                self.store = d
            return self.store

        def sa_call(self, I, *a, **k):
            d = self.cache(I)
            key = tuple(a) + tuple(x for kv in sorted(k.items()) for x in kv)
            h = I.dict_find(d, key)
            if h is not None:
                return d.data.d[h][1]
            v = I.call(self.f, list(a), k)
            I.dict_set(d, key, v)
            return v

        def sa_getattr(self, I, name):
            if name == "cache_clear":
                return Builtin(lambda I: I.callm(self.cache(I), "clear"), name)
            return I.getattr(self.f, name)
    def cached(I, f):
        """method-capable wrapper"""
        c = Cached(f)
        return Builtin(lambda I, *a, **k: c.sa_call(I, *a, **k), "cached", True)

    def lru_cache(I, f=None, maxsize=128, typed=False):
        if isinstance(f, (FuncV, Bound, Builtin)):
            return cached(I, f)
        return Builtin(lambda I, g: cached(I, g), "lru_cache")

    class CachedProp(Ext):
        pass

    def cached_property(I, f):
        key = "\0cp_%d" % id(f)

        def get(I, o):
            if key not in o.attrs:
                I.touch(o, "cached_property")
                o.attrs[key] = I.call(f, [o])
            return o.attrs[key]
        return Prop(Builtin(get, "cached_property"))

    def total_ordering(I, c):
        lt, _ = c.lookup("__lt__")
        if lt is not None:
            c.ns.setdefault("__gt__", Builtin(lambda I, a, b: not I.lt(a, b) and not I.eq(a, b), "__gt__", True))
            c.ns.setdefault("__le__", Builtin(lambda I, a, b: I.lt(a, b) or I.eq(a, b), "__le__", True))
            c.ns.setdefault("__ge__", Builtin(lambda I, a, b: not I.lt(a, b), "__ge__", True))
        return c
    mod("functools", reduce=Builtin(reduce, "reduce"), partial=Builtin(partial, "partial"),
        wraps=Builtin(wraps, "wraps"), lru_cache=Builtin(lru_cache, "lru_cache"),
        cache=Builtin(lambda I, f: cached(I, f), "cache"),
        cached_property=Builtin(cached_property, "cached_property"),
        total_ordering=Builtin(total_ordering, "total_ordering"),
        cmp_to_key=Builtin(lambda I, f: (_ for _ in ()).throw(Imprecise("cmp_to_key")), "cmp_to_key"))

    # ---------------------------------------------------------------- operator
    def attrgetter(I, *names):
        def one(o, n):
            for p in I.s(n).split("."):
                o = I.getattr(o, p)
            return o
        if len(names) == 1:
            return Builtin(lambda I, o: one(o, names[0]), "attrgetter")
        return Builtin(lambda I, o: tuple(one(o, n) for n in names), "attrgetter")

    def itemgetter(I, *ks):
        if len(ks) == 1:
            return Builtin(lambda I, o: I.getitem(o, ks[0]), "itemgetter")
        return Builtin(lambda I, o: tuple(I.getitem(o, k) for k in ks), "itemgetter")
    import ast as _ast
    ops = {n: Builtin((lambda t: lambda I, a, b: I.binop(t, a, b))(t), n) for n, t in
           (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"),
            ("floordiv", "FloorDiv"), ("mod", "Mod"))}
    ops.update({n: Builtin((lambda t: lambda I, a, b: I.compare(t(), a, b))(t), n) for n, t in
                (("eq", _ast.Eq), ("ne", _ast.NotEq), ("lt", _ast.Lt), ("le", _ast.LtE),
                 ("gt", _ast.Gt), ("ge", _ast.GtE), ("is_", _ast.Is))})
    mod("operator", attrgetter=Builtin(attrgetter, "attrgetter"), itemgetter=Builtin(itemgetter, "itemgetter"),
        methodcaller=Builtin(lambda I, n, *a, **k: Builtin(lambda I, o: I.callm(o, I.s(n), *a, **k), "mc"), "methodcaller"),
        not_=Builtin(lambda I, x: not I.truth(x), "not_"),
        contains=Builtin(lambda I, c, x: I.contains(c, x), "contains"), **ops)

    # --------------------------------------------------------------------- os
    envd = ClassV("environ", [B["dict"]], {}, "dict")

    environ = I.mkdict()

    def getenv(I, k, default=None):
        return I.dict_get(environ, k, default)
    m = mod("os", getenv=Builtin(getenv, "getenv"), linesep="\n", sep="/")
    m.ns["environ"] = environ
    I.environ = environ
    mod("os.path", **{n: Builtin((lambda n: lambda I, *a: wrap(I, getattr(os.path, n)(*[unwrapf(I, x) for x in a])))(n), n)
                      for n in ("join", "dirname", "basename", "abspath", "splitext", "normpath")})
    mod("sys", exc_info=Builtin(lambda I: (I.cur_exc.cls, I.cur_exc, None) if getattr(I, "cur_exc", None) else (None, None, None), "exc_info"),
        version_info=tuple(__import__("sys").version_info[:3]), maxsize=2**63 - 1, stderr=Unmodelled("sys.stderr"),
        stdout=Unmodelled("sys.stdout"), platform="linux",
        intern=Builtin(lambda I, s: s, "intern"))

    # -------------------------------------------------------------------- html
    def map_chars(s, tbl, what):
        """per-character mapping of a string; pieces must not interact"""
        out = []
        for c in s:
            if is_atom(c):
                a = S.A(c)
                hit = a.cs & set(tbl)
                if hit:
                    cs = (a.cs - hit) | frozenset("".join(tbl[h] for h in hit))
                    out.append(S.satom("%s(%s)" % (what, a.key), cs, a.minlen, None, "xform2", (what, c)))
                else:
                    out.append(c)
            else:
                out.append(tbl.get(c, c))
        return "".join(out)

    def xml_escape(I, data, entities=None):
        s = I.s(data)
        if s is None:
            raise I.exc("AttributeError", "replace")
        s = map_chars(s, {"&": "&amp;", ">": "&gt;", "<": "&lt;"}, "escape")
        if entities is not None:
            for k, v in list(entities.data.d.values()):
                s = I.s(I.callm(s, "replace", k, v))
        return s

    def xml_unescape(I, data, entities=None):
        s = I.s(data)
        pairs = [("&lt;", "<"), ("&gt;", ">")]
        if entities is not None:
            pairs = pairs
        for a, b in pairs:
            s = I.s(I.callm(s, "replace", a, b))
        if entities is not None:
            for k, v in list(entities.data.d.values()):
                s = I.s(I.callm(s, "replace", k, v))
        return I.s(I.callm(s, "replace", "&amp;", "&"))

    def quoteattr(I, data, entities=None):
        base = I.mkdict(([] if entities is None else list(entities.data.d.values())) +
                        [("\n", "&#10;"), ("\r", "&#13;"), ("\t", "&#9;")])
        s = xml_escape(I, data, base)
        inert(s, "quoteattr", frozenset("\"'"))
        if '"' in s:
            if "'" in s:
                return '"%s"' % s.replace('"', "&quot;")
            return "'%s'" % s
        return '"%s"' % s
    mod("xml")
    mod("xml.sax")
    mod("xml.sax.saxutils", escape=Builtin(xml_escape, "escape"), unescape=Builtin(xml_unescape, "unescape"),
        quoteattr=Builtin(quoteattr, "quoteattr"))
    domx = ClassV("DOMException", [B["Exception"]], {}, "object")
    syn = ClassV("SyntaxErr", [domx], {}, "object")
    I.foreign_excs["SyntaxErr"] = syn
    I.foreign_excs["DOMException"] = domx
    mod("xml.dom", SyntaxErr=syn, DOMException=domx)

    def html_escape(I, s, quote=True):
        t = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
        if I.truth(quote):
            t.update({'"': "&quot;", "'": "&#x27;"})
        return map_chars(I.s(s), t, "htmlescape")

    def html_unescape(I, s):
        import html
        s = I.s(s)
        if "&" not in s and not S.touches(s, "&"):
            return s
        inert(s, "html.unescape", frozenset("&;#"))
        for _ in re.finditer(r"&#?\w*(?=[\U000F0000-\U0010FFFF])", s):
            # a piece directly after '&name' could extend the name
            if _.group() != "&" or True:
                i = _.end()
                if S.A(s[i]).cs & frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789#;"):
                    return unescape_ambiguous(I, s)
        return html.unescape(s)

    def unescape_ambiguous(I, s):
        import html
        # '&' + piece: no piece contains ';', so only legacy (semicolon-less)
        # names could form; exclude them unless the literal prefix is one
        from html.entities import html5
        legacy = [n for n in html5 if not n.endswith(";")]
        for m_ in re.finditer(r"&(#?\w*)(?=[\U000F0000-\U0010FFFF])", s):
            p = m_.group(1)
            if p.startswith("#") or p == "" or any(n.startswith(p) or p.startswith(n) for n in legacy):
                raise Imprecise("entity name continues into a piece")
        return html.unescape(s)
    import html.entities as he
    mod("html", unescape=Builtin(html_unescape, "unescape"), escape=Builtin(html_escape, "escape"))
    ent = mod("html.entities")

    class LazyDict:
        pass
    ent.ns["name2codepoint"] = None
    ent.ns["codepoint2name"] = None
    ent.ns["html5"] = None

    def mkconst(d):
        o = I.new(B["dict"], DictData())
        o.gen = 0
        for k, v in d.items():
            o.data.d[("s", k) if isinstance(k, str) else ("n", k)] = (k, v)
        return o
    ent.ns["name2codepoint"] = mkconst(he.name2codepoint)
    ent.ns["codepoint2name"] = mkconst(he.codepoint2name)
    ent.ns["html5"] = mkconst(he.html5)

    hp = ClassV("HTMLParser", [B["object"]], {}, "object")

    def hp_init(I, o, convert_charrefs=True):
        I.setattr(o, "convert_charrefs", convert_charrefs)
        hp_reset(I, o)

    def hp_reset(I, o):
        I.raw_setattr(o, "rawdata", "")
        I.raw_setattr(o, "lasttag", "???")
        I.raw_setattr(o, "cdata_elem", None)

    def hp_feed(I, o, data, close=False):
        from html.parser import HTMLParser
        s = (I.s(o.attrs.get("rawdata", "")) or "") + (I.s(data) if data is not None else "")
        markup_guard(s, "HTMLParser.feed")
        ccr = I.truth(I.getattr(o, "convert_charrefs"))

        class P(HTMLParser):
            def __init__(self):
                HTMLParser.__init__(self, convert_charrefs=ccr)

            def handle_starttag(self, tag, attrs):
                self.sync()
                I.callm(o, "handle_starttag", tag, I.mklist([(a, b) for a, b in attrs]))

            def handle_startendtag(self, tag, attrs):
                self.sync()
                I.callm(o, "handle_startendtag", tag, I.mklist([(a, b) for a, b in attrs]))

            def handle_endtag(self, tag):
                self.sync()
                I.callm(o, "handle_endtag", tag)

            def handle_data(self, d):
                I.callm(o, "handle_data", d)

            def handle_entityref(self, n):
                I.callm(o, "handle_entityref", n)

            def handle_charref(self, n):
                I.callm(o, "handle_charref", n)

            def handle_comment(self, d):
                I.callm(o, "handle_comment", d)

            def handle_decl(self, d):
                I.callm(o, "handle_decl", d)

            def handle_pi(self, d):
                I.callm(o, "handle_pi", d)

            def unknown_decl(self, d):
                I.callm(o, "unknown_decl", d)

            def sync(self):
                o.attrs["lasttag"] = self.lasttag
        p = P()
        p.CDATA_CONTENT_ELEMENTS = tuple(I.iterate(I.getattr(o, "CDATA_CONTENT_ELEMENTS")))
        if o.attrs.get("cdata_elem"):
            p.set_cdata_mode(o.attrs["cdata_elem"])
        p.lasttag = o.attrs.get("lasttag", "???")
        p.feed(s)
        if close:
            p.close()
        I.raw_setattr(o, "rawdata", p.rawdata)
        o.attrs["cdata_elem"] = p.cdata_elem
        o.attrs["lasttag"] = p.lasttag

    def noop(I, o, *a):
        return None

    def startend(I, o, tag, attrs):
        I.callm(o, "handle_starttag", tag, attrs)
        I.callm(o, "handle_endtag", tag)
    for n, f in [("__init__", hp_init), ("reset", hp_reset), ("feed", hp_feed),
                 ("close", lambda I, o: hp_feed(I, o, None, True)),
                 ("handle_starttag", noop), ("handle_endtag", noop), ("handle_data", noop),
                 ("handle_startendtag", startend), ("handle_entityref", noop),
                 ("handle_charref", noop), ("handle_comment", noop), ("handle_decl", noop),
                 ("handle_pi", noop), ("unknown_decl", noop),
                 ("get_starttag_text", lambda I, o: (_ for _ in ()).throw(Imprecise("starttag text"))),
                 ("getpos", lambda I, o: (_ for _ in ()).throw(Imprecise("getpos")))]:
        hp.ns[n] = Builtin(f, "HTMLParser." + n, True)
    hp.ns["CDATA_CONTENT_ELEMENTS"] = ("script", "style")
    mod("html.parser", HTMLParser=hp)

    # ----------------------------------------------------------------- logging
    class Logger(Ext):
        def sa_getattr(self, I, name):
            return Builtin(lambda I, *a, **k: None, "log." + name)
    lg = Logger()
    mod("logging", FATAL=50, CRITICAL=50, ERROR=40, WARNING=30, INFO=20, DEBUG=10,
        getLogger=Builtin(lambda I, *a: lg, "getLogger"),
        **{n: Builtin(lambda I, *a, **k: None, n) for n in ("debug", "info", "warning", "error", "critical")})
    mod("warnings", warn=Builtin(lambda I, *a, **k: None, "warn"))

    # ---------------------------------------------------------------- textwrap
    def tw_lines(I, text, width=70, **kw):
        import textwrap
        s = I.s(text)
        rep = []
        atoms = []
        for c in s:
            if is_atom(c):
                a = S.A(c)
                if (a.minlen, a.maxlen) != (1, 1):
                    raise Imprecise("textwrap of a piece of open length")
                if a.cs & frozenset(" \t\n\r\x0b\x0c-"):
                    raise Imprecise("textwrap of a piece that may be a separator")
                rep.append("x")
                atoms.append(c)
            else:
                rep.append(c)
                if not c.isspace():
                    atoms.append(c)
        opts = {k: unwrapf(I, v) for k, v in kw.items()}
        lines = textwrap.wrap("".join(rep), I.index(width), **opts)
        extra = {"placeholder", "initial_indent", "subsequent_indent", "max_lines"} & set(opts)
        if extra and has_atoms(s):
            raise Imprecise("textwrap options")
        if not has_atoms(s):
            return lines
        out, k = [], 0
        for ln in lines:
            t = []
            for c in ln:
                if c.isspace():
                    t.append(c)
                else:
                    t.append(atoms[k])
                    k += 1
            out.append("".join(t))
        return out

    def tw_opts(o):
        return {k: v for k, v in o.attrs.items()}
    twc = ClassV("TextWrapper", [B["object"]], {}, "object")

    def twc_init(I, o, width=70, **kw):
        o.attrs["width"] = width
        o.attrs.update(kw)
    twc.ns["__init__"] = Builtin(twc_init, "TextWrapper", True)
    twc.ns["wrap"] = Builtin(lambda I, o, t: I.mklist(tw_lines(I, t, **tw_opts(o))), "wrap", True)
    twc.ns["fill"] = Builtin(lambda I, o, t: "\n".join(tw_lines(I, t, **tw_opts(o))), "fill", True)
    mod("textwrap", wrap=Builtin(lambda I, text, width=70, **kw: I.mklist(tw_lines(I, text, width, **kw)), "wrap"),
        fill=Builtin(lambda I, text, width=70, **kw: "\n".join(tw_lines(I, text, width, **kw)), "fill"),
        dedent=Builtin(lambda I, t: __import__("textwrap").dedent(unwrapf(I, t)), "dedent"),
        TextWrapper=twc)
    import string as _string
    mod("string", **{n: getattr(_string, n) for n in (
        "digits", "ascii_letters", "ascii_lowercase", "ascii_uppercase", "punctuation",
        "whitespace", "hexdigits", "printable", "octdigits")})
    mod("abc", ABC=B["object"], abstractmethod=Builtin(lambda I, f: f, "abstractmethod"),
        ABCMeta=B["type"])
    mod("bisect", **{n: Builtin((lambda right: lambda I, a, x, lo=0, hi=None, key=None: bis(I, a, x, lo, hi, key, right))(r), n)
                     for n, r in (("bisect", True), ("bisect_right", True), ("bisect_left", False))})

    def bis(I, a, x, lo, hi, key, right):
        d = a.data
        lo = I.index(lo)
        hi = len(d) if hi is None else I.index(hi)
        while lo < hi:
            mid = (lo + hi) // 2
            v = d[mid] if key is None else I.call(key, [d[mid]])
            if (I.lt(x, v) if right else not I.lt(v, x)):
                hi = mid
            else:
                lo = mid + 1
        return lo

    # contextlib
    sup = ClassV("suppress", [B["object"]], {}, "object")

    def sup_init(I, o, *excs):
        o.attrs["excs"] = excs
    sup.ns["__init__"] = Builtin(sup_init, "suppress", True)
    sup.ns["__enter__"] = Builtin(lambda I, o: None, "enter", True)
    sup.ns["__exit__"] = Builtin(lambda I, o, t, v, tb: t is not None and any(t.sub(e) for e in o.attrs["excs"]), "exit", True)
    mod("contextlib", suppress=sup)

    def dataclass(I, c=None, **kw):
        def deco(cls):
            ann = []
            for k in reversed(cls.mro):
                for n in k.ns.get("\0ann", []) if isinstance(k.ns.get("\0ann", []), list) else []:
                    if n not in ann:
                        ann.append(n)

            def init(I, o, *a, **k):
                vals = dict(zip(ann, a))
                vals.update(k)
                for n in ann:
                    if n in vals:
                        o.attrs[n] = vals[n]
                    else:
                        d, own = cls.lookup(n)
                        if own is None:
                            raise I.exc("TypeError", "missing argument " + n)
                        if isinstance(d, FieldV):
                            d = I.call(d.factory) if d.factory is not None else d.default
                        o.attrs[n] = d
                pi, _ = cls.lookup("__post_init__")
                if pi is not None:
                    I.call(pi, [o])
            cls.ns.setdefault("__init__", Builtin(init, "dataclass.__init__", True))
            if I.truth(kw.get("eq", True)) and "__eq__" not in cls.ns:
                cls.ns["__eq__"] = Builtin(lambda I, a, b: NotImpl if not (isinstance(b, Inst) and b.cls is a.cls)
                                           else all(I.eq(a.attrs[n], b.attrs[n]) for n in ann), "__eq__", True)
                if I.truth(kw.get("frozen", False)):
                    cls.ns["__hash__"] = Builtin(lambda I, a: I.hash(tuple(a.attrs[n] for n in ann)), "__hash__", True)
            return cls
        if isinstance(c, ClassV):
            return deco(c)
        return Builtin(lambda I, cls: deco(cls), "dataclass")

    class FieldV(Ext):
        def __init__(self, default, factory):
            self.default, self.factory = default, factory
    mod("dataclasses", dataclass=Builtin(dataclass, "dataclass"),
        field=Builtin(lambda I, default=None, default_factory=None, **k: FieldV(default, default_factory), "field"))

    # ------------------------------------------------------------- third party
    mods["nltk"] = None
    mods["nltk.data"] = None
    from . import soup
    soup.install(I, mod)
    css(I, mod)


def css(I, mod):
    """cssutils, on literal stylesheets (symbolic numbers pass as unique
    literals that are mapped back)"""
    state = {}

    def lib():
        if "m" not in state:
            sp = "/opt/venv/lib/python3.12/site-packages"
            import sys
            if sp not in sys.path:
                sys.path.append(sp)
            import cssutils
            cssutils.log.setLevel(50)
            state["m"] = cssutils
        return state["m"]

    class CssObj(Foreign):
        """wraps results, mapping placeholder numbers back to pieces"""

        def __init__(self, o, back):
            self.o, self.back = o, back

        def w(self, I, v):
            if isinstance(v, str):
                v = str(v)
                for a, b in self.back:
                    v = v.replace(a, b)
                return v
            r = wrap(I, v)
            return CssObj(r.o, self.back) if isinstance(r, Foreign) else r

        def sa_getattr(self, I, name):
            try:
                return self.w(I, getattr(self.o, name))
            except AttributeError as e:
                raise I.exc("AttributeError", str(e))

        def sa_call(self, I, *a, **k):
            try:
                return self.w(I, self.o(*[unwrapf(I, x) for x in a],
                                        **{n: unwrapf(I, x) for n, x in k.items()}))
            except (Imprecise, PyExc):
                raise
            except Exception as e:
                raise foreign_exc(I, e)

        def sa_iter(self, I):
            for x in self.o:
                yield self.w(I, x)

        def sa_getitem(self, I, k):
            try:
                return self.w(I, self.o[unwrapf(I, k)])
            except Exception as e:
                raise foreign_exc(I, e)

    def parse(I, css_text, *a, **k):
        s = I.s(css_text)
        back = []
        if has_atoms(s):
            n = 0
            out = []
            seen = {}
            for c in s:
                if is_atom(c):
                    a_ = S.A(c)
                    if c not in seen:
                        if a_.kind in ("numtext", "fmt", "digit"):
                            seen[c] = "77%d.25" % (31 + len(seen)) if a_.kind == "numtext" else "77%d" % (31 + len(seen))
                        elif a_.cs <= S.PLAIN or a_.cs <= S.ALPHA:
                            seen[c] = "zqz%dq" % (31 + len(seen))
                        else:
                            raise Imprecise("symbolic stylesheet")
                    out.append(seen[c])
                else:
                    out.append(c)
            s = "".join(out)
            back = [(v, k_) for k_, v in seen.items()]
        try:
            return CssObj(lib().parseString(s), back)
        except Exception as e:
            raise foreign_exc(I, e)

    class LazyMod(Ext):
        def __init__(self, path):
            self.path = path

        def sa_getattr(self, I, name):
            o = lib()
            for p in self.path:
                o = getattr(o, p)
            try:
                return wrap(I, getattr(o, name))
            except AttributeError as e:
                raise I.exc("AttributeError", str(e))

    class Log(Ext):
        def sa_getattr(self, I, name):
            return Builtin(lambda I, *a, **k: None, "log." + name)
    mod("cssutils", parseString=Builtin(parse, "cssutils.parseString"), log=Log(), css=LazyMod(["css"]))
