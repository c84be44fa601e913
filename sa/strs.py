"""String abstract domain.

An abstract string is an ordinary Python ``str`` in which characters of the
supplementary private-use planes stand for *pieces*: symbolic characters drawn
from a character set, symbolic words (one or more characters of a set), and
formatted symbolic numbers.  Operations are exact when no piece can interact
with the operation's pattern, and otherwise raise ``Imprecise`` (the
obligation then stays undecided) or fork.
"""
import re
import unicodedata
try:
    import re._parser as sre_parse
    import re._constants as sre
except ImportError:                                   # pragma: no cover
    import sre_parse
    import sre_constants as sre

from .num import Poly, Num, Atom

BASE = 0xF0000
# representative universe of characters: all ASCII plus one member of each
# relevant non-ASCII class
UNIVERSE = [chr(i) for i in range(128)] + list(
    "\x85\xa0\u00e9\u00c9\u00df\u0663\u200e\u2028\u2014\u201c\u8a9e\u00f1"
    "\u266a\u00bd\u00b2\u00a3")
U = frozenset(UNIVERSE)


class Imprecise(Exception):
    """the abstraction lost too much to decide this path"""


def cset(pred):
    return frozenset(c for c in UNIVERSE if pred(c))


DIGITS = frozenset("0123456789")
LETTERS = cset(lambda c: c.isalpha())
LOWER = frozenset("abcdefghijklmnopqrstuvwxyz")
ALPHA = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
# a printable word: anything visible that no caption format gives a meaning to
PLAIN = cset(lambda c: c.isalpha() or c in "\u2014\u201c\u266a")
ASCIIWORD = ALPHA
NUMFMT = frozenset("0123456789.-+einfa")


class SAtom:
    table = []
    index = {}
    __slots__ = ("key", "cs", "minlen", "maxlen", "kind", "arg", "ch")

    def __init__(self, key, cs, minlen, maxlen, kind, arg):
        self.key, self.cs = key, cs
        self.minlen, self.maxlen, self.kind, self.arg = minlen, maxlen, kind, arg

    def __repr__(self):
        return self.key


def satom(key, cs, minlen=1, maxlen=None, kind="text", arg=None):
    """intern a piece, return its character"""
    i = SAtom.index.get(key)
    while i is not None:
        a = SAtom.table[i]
        if kind not in ("text", "char", "digit") or (
                (a.minlen, a.maxlen, a.kind) == (minlen, maxlen, kind) and a.arg == arg and a.cs == cs):
            break
        key += "'"          # the name stands for something else in another scenario
        i = SAtom.index.get(key)
    if i is None:
        a = SAtom(key, cs, minlen, maxlen, kind, arg)
        i = SAtom.index[key] = len(SAtom.table)
        SAtom.table.append(a)
        a.ch = chr(BASE + i)
    else:
        a = SAtom.table[i]
    return a.ch


def text(name, cs=PLAIN):
    return satom("<%s>" % name, cs)


def digit(name, cs=DIGITS):
    n = Num.sym(name, 0, 9)
    return satom("[%s]" % name, cs, 1, 1, "digit", n.p)


def digits(prefix, n):
    return "".join(digit("%s%d" % (prefix, i)) for i in range(n))


def char(name, cs):
    return satom("{%s}" % name, cs, 1, 1, "char")


def is_atom(c):
    return ord(c) >= BASE


def A(c):
    return SAtom.table[ord(c) - BASE]


def has_atoms(s):
    for c in s:
        if ord(c) >= BASE:
            return True
    return False


def show(s):
    """human-readable rendering"""
    return "".join((A(c).key if A(c).kind != "fin" else "<%s>" % ",".join(A(c).arg.syms)) if is_atom(c) else c for c in s)


def fixed_len(s):
    """length if statically known else None"""
    n = 0
    for c in s:
        if is_atom(c):
            a = A(c)
            if a.maxlen is None or a.minlen != a.maxlen:
                return None
            n += a.minlen
        else:
            n += 1
    return n


def min_len(s):
    return sum(A(c).minlen if is_atom(c) else 1 for c in s)


def length(s):
    n = fixed_len(s)
    if n is not None:
        return n
    p = Poly.const(0)
    for c in s:
        if is_atom(c):
            a = A(c)
            if a.maxlen is not None and a.minlen == a.maxlen:
                p = p + Poly.const(a.minlen)
            else:
                p = p + Poly.atom(Atom.get("len(%s)" % a.key, a.minlen, a.maxlen))
        else:
            p = p + Poly.const(1)
    return Num(p, "int")


def charset_of(s):
    out = set()
    for c in s:
        if is_atom(c):
            out |= A(c).cs
        else:
            out.add(c)
    return frozenset(out)


def norm_char(c):
    """representative for a concrete char outside the universe"""
    return c


def touches(s, chars):
    """can some piece of s contain one of chars?"""
    cs = set(chars)
    return any(is_atom(c) and (A(c).cs & cs) for c in s)


def may_contain(s, sub):
    """can some concretisation of s contain the concrete string sub, using
    at least one character of a piece?  (NFA over positions of s)"""
    if not sub:
        return False
    if not touches(s, sub):
        return False
    # states: (position in sub) while scanning s; pieces may self-loop
    n = len(sub)
    # items: sequence of (set or char, min, unbounded)
    start = (0, False)
    states = {start}

    def step(states, pred, piece):
        nxt = {start}
        for j, u in states:
            if j < n and pred(sub[j]):
                if j + 1 == n:
                    if u or piece:
                        return None
                else:
                    nxt.add((j + 1, u or piece))
        return nxt
    for c in s:
        if is_atom(c):
            a = A(c)
            lim = a.maxlen if a.maxlen is not None else n + 1
            cur = states
            acc = set(states) if a.minlen == 0 else set()
            for k in range(1, lim + 1):
                cur = step(cur, lambda ch: ch in a.cs or (ord(ch) > 127 and a.cs & frozenset("\u00e9\u8a9e")), True)
                if cur is None:
                    return True
                if k >= a.minlen:
                    if cur <= acc:
                        break
                    acc |= cur
            states = acc | {start}
        else:
            r = step(states, lambda ch: ch == c, False)
            if r is None:
                return True
            states = r
    return False


_FINVALS = {}


def finvals(x):
    """the strings a piece of fixed length can be, or None"""
    if not is_atom(x):
        return (x,)
    a = A(x)
    if a.kind != "fin":
        return None
    k = _FINVALS.get(x)
    if k is None:
        k = _FINVALS[x] = frozenset(a.arg.table.values())
    return k


def aligned(s, t):
    """compares finite pieces with what is opposite to them (both strings have
    the same fixed length); False when some segment certainly differs"""
    i = j = 0
    while i < len(s) and j < len(t):
        i0, j0 = i, j
        n, m = plen(s[i]), plen(t[j])
        i, j = i + 1, j + 1
        while n != m:
            if n < m:
                n += plen(s[i])
                i += 1
            else:
                m += plen(t[j])
                j += 1
        a, b = s[i0:i], t[j0:j]
        if a == b:
            continue
        if len(b) == 1 and len(a) > 1:
            a, b = b, a
        if len(a) == 1:
            va, vb = finvals(a), [finvals(x) for x in b]
            if va is None or any(v is None for v in vb):
                continue
            if not has_atoms(b):
                if b not in va:
                    return False
                continue
            if len(b) == 1:
                if not any(v in vb[0] for v in va):
                    return False
                continue
            for v in va:
                k = 0
                for vs, x in zip(vb, b):
                    l = plen(x)
                    if v[k:k + l] not in vs:
                        break
                    k += l
                else:
                    break
            else:
                return False
    return True


def plen(x):
    return A(x).minlen if is_atom(x) else 1


def may_equal(s, t):
    k = (s, t)
    r = _MAYEQ.get(k)
    if r is None:
        if len(_MAYEQ) > 300000:
            _MAYEQ.clear()
        r = _MAYEQ[k] = _may_equal(s, t)
    return r


_MAYEQ = {}


def _may_equal(s, t):
    """can some concretisations be equal (over-approximation)?"""
    if s == t:
        return True
    ls, lt = fixed_len(s), fixed_len(t)
    if ls is not None and lt is not None and ls != lt:
        return False
    if ls is not None and min_len(t) > ls:
        return False
    if lt is not None and min_len(s) > lt:
        return False

    def cmp_dir(a, b):
        i = j = 0
        while i < len(a) and j < len(b):
            x, y = a[i], b[j]
            if x == y:
                i += 1
                j += 1
                continue
            xa, ya = is_atom(x), is_atom(y)
            if not xa and not ya:
                return False
            cx = A(x).cs if xa else {x}
            cy = A(y).cs if ya else {y}
            fx = (A(x).minlen, A(x).maxlen) if xa else (1, 1)
            fy = (A(y).minlen, A(y).maxlen) if ya else (1, 1)
            if fx[0] and fy[0] and not (set(cx) & set(cy)):
                return False
            if fx == (1, 1) and fy == (1, 1):
                i += 1
                j += 1
                continue
            return True
        return True
    if not (cmp_dir(s, t) and cmp_dir(s[::-1], t[::-1])):
        return False
    return ls is None or lt is None or aligned(s, t)


# --- parsing numbers --------------------------------------------------------
class ParseFail(Exception):
    """the abstract string certainly is not a number"""


def _digits_value(s):
    """value of a string of digit pieces as Poly, or None"""
    v = Poly.const(0)
    if not s:
        return None
    if len(s) == 1 and is_atom(s):
        a = A(s)
        if a.kind == "fmt":
            return a.arg
    for c in s:
        if is_atom(c):
            a = A(c)
            if a.kind == "digit":
                v = v.scale(10) + a.arg
            elif a.kind == "fmt" and a.minlen == a.maxlen:
                v = v.scale(10 ** a.minlen) + a.arg
            elif a.kind == "digits":
                # unbounded digit run: value symbol, only valid alone/first
                if c is not s[0] and v != Poly.const(0):
                    raise Imprecise("digit run after digits")
                v = a.arg
            elif not (a.cs & DIGITS):
                raise ParseFail()
            else:
                raise Imprecise("int() of " + show(s))
        elif c.isdigit() and c.isascii():
            v = v.scale(10) + Poly.const(int(c))
        elif c.isdigit():
            v = v.scale(10) + Poly.const(int(c))
        else:
            raise ParseFail()
    return v


def parse_int(s):
    if not has_atoms(s):
        try:
            return int(s)
        except ValueError:
            raise ParseFail()
    s = s.strip()
    sign = 1
    if s[:1] in "+-" and len(s) > 1:
        sign = -1 if s[0] == "-" else 1
        s = s[1:]
    return Num(_digits_value(s).scale(sign), "int")


def parse_float(s, kind="float"):
    from fractions import Fraction as F
    s = s.strip()
    if not has_atoms(s):
        try:
            if kind == "frac":
                from decimal import Decimal
                return Num(Poly.const(F(s)), kind, 0)
            float(s)
            return Num(Poly.const(F(s)), kind, 0)
        except (ValueError, ZeroDivisionError):
            raise ParseFail()
    sign = 1
    if s[:1] in "+-" and len(s) > 1:
        sign = -1 if s[0] == "-" else 1
        s = s[1:]
    if len(s) == 1 and is_atom(s) and A(s).kind == "numtext":
        return Num(A(s).arg, kind, 1 if kind == "float" else 0)
    if "." in s:
        i, f = s.split(".", 1)
        v = _digits_value(i) if i else Poly.const(0)
        if f:
            n = fixed_len(f)
            if n is None:
                raise Imprecise("float() of open fraction")
            fv = _digits_value(f)
            v = v + fv.scale(F(1, 10 ** n))
        return Num(v.scale(sign), kind, 1 if kind == "float" else 0)
    return Num(_digits_value(s).scale(sign), kind, 0)


# --- regular expressions ----------------------------------------------------
_CATS = {
    sre.CATEGORY_DIGIT: lambda c: c.isdecimal(),
    sre.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
    sre.CATEGORY_SPACE: lambda c: c.isspace(),
    sre.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sre.CATEGORY_WORD: lambda c: c.isalnum() or c == "_",
    sre.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == "_"),
}
_ACATS = {
    sre.CATEGORY_DIGIT: lambda c: c in DIGITS,
    sre.CATEGORY_NOT_DIGIT: lambda c: c not in DIGITS,
    sre.CATEGORY_SPACE: lambda c: c in " \t\n\r\f\v",
    sre.CATEGORY_NOT_SPACE: lambda c: c not in " \t\n\r\f\v",
    sre.CATEGORY_WORD: lambda c: c.isascii() and (c.isalnum() or c == "_"),
    sre.CATEGORY_NOT_WORD: lambda c: not (c.isascii() and (c.isalnum() or c == "_")),
}


class Rx:
    """compiled abstract regular expression"""

    def __init__(self, pattern, flags=0):
        if has_atoms(pattern):
            raise Imprecise("regex with symbolic pattern")
        self.pattern = pattern
        self.tree = sre_parse.parse(pattern, int(flags))
        self.flags = int(self.tree.state.flags)
        self._rel = {}
        self._tst = {}
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)

    # single-character tests
    def _in(self, av, c):
        neg = False
        ok = False
        ic = self.flags & re.I
        cs = [c, c.lower(), c.upper()] if ic else [c]
        for op, a in av:
            if op is sre.NEGATE:
                neg = True
            elif op is sre.LITERAL:
                ok = ok or any(len(x) == 1 and ord(x) == a for x in cs)
            elif op is sre.RANGE:
                ok = ok or any(len(x) == 1 and a[0] <= ord(x) <= a[1] for x in cs)
            elif op is sre.CATEGORY:
                cats = _ACATS if self.flags & re.A else _CATS
                ok = ok or cats[a](c)
            else:
                raise Imprecise("regex set op %s" % op)
        return ok != neg

    def test(self, op, av, c):
        k = (op, id(av) if op is sre.IN else av, c)
        r = self._tst.get(k)
        if r is None:
            r = self._tst[k] = self._test(op, av, c)
        return r

    def _test(self, op, av, c):
        ic = self.flags & re.I
        if op is sre.LITERAL:
            return ord(c) == av or (ic and c.lower() == chr(av).lower())
        if op is sre.NOT_LITERAL:
            return not (ord(c) == av or (ic and c.lower() == chr(av).lower()))
        if op is sre.ANY:
            return bool(self.flags & re.S) or c != "\n"
        if op is sre.IN:
            return self._in(av, c)
        if op is sre.CATEGORY:
            cats = _ACATS if self.flags & re.A else _CATS
            return cats[av](c)
        raise Imprecise("regex op %s" % op)

    def single(self, op):
        return op in (sre.LITERAL, sre.NOT_LITERAL, sre.ANY, sre.IN, sre.CATEGORY)

    def rel(self, op, av, a):
        """relation of a piece's charset with a class: 1 subset, 0 disjoint,
        None overlap"""
        k = (op, id(av) if op is sre.IN else av, a.cs)
        if k not in self._rel:
            y = sum(1 for c in a.cs if self.test(op, av, c))
            self._rel[k] = 1 if y == len(a.cs) else 0 if y == 0 else None
        return self._rel[k]

    # matcher: generator of (pos, groups)
    def m(self, seq, k, s, i, g):
        if k == len(seq):
            yield i, g
            return
        op, av = seq[k]
        if self.single(op):
            if i < len(s):
                c = s[i]
                if is_atom(c):
                    a = A(c)
                    r = self.rel(op, av, a)
                    if r == 0:
                        return
                    if r is None:
                        raise Imprecise("regex %r vs %s" % (self.pattern, a))
                    if (a.minlen, a.maxlen) != (1, 1):
                        raise Imprecise("regex %r splits %s" % (self.pattern, a))
                    yield from self.m(seq, k + 1, s, i + 1, g)
                elif self.test(op, av, c):
                    yield from self.m(seq, k + 1, s, i + 1, g)
            return
        if op is sre.SUBPATTERN:
            gid, af, df, sub = av
            if af or df:
                raise Imprecise("inline flags")
            for j, g2 in self.m(list(sub), 0, s, i, g):
                g3 = g2
                if gid is not None:
                    g3 = dict(g2)
                    g3[gid] = (i, j)
                yield from self.m(seq, k + 1, s, j, g3)
            return
        if op is sre.BRANCH:
            for sub in av[1]:
                for j, g2 in self.m(list(sub), 0, s, i, g):
                    yield from self.m(seq, k + 1, s, j, g2)
            return
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT, getattr(sre, "POSSESSIVE_REPEAT", None)):
            lo, hi, sub = av
            sub = list(sub)
            hi = None if hi is sre.MAXREPEAT else hi
            if len(sub) == 1 and self.single(sub[0][0]):
                yield from self.rep1(op, lo, hi, sub[0], seq, k, s, i, g)
            elif op is sre.MAX_REPEAT and len(sub) == 1 and sub[0][0] is sre.SUBPATTERN and \
                    sub[0][1][0] is not None and not sub[0][1][1] and not sub[0][1][2] and \
                    len(sub[0][1][3]) == 1 and self.single(sub[0][1][3][0][0]):
                # (x)*: the group keeps the last character
                yield from self.rep1(op, lo, hi, sub[0][1][3][0], seq, k, s, i, g, sub[0][1][0])
            elif op is sre.MIN_REPEAT:
                yield from self.repmin(lo, hi, sub, 0, seq, k, s, i, g)
            else:
                yield from self.repmax(lo, hi, sub, 0, seq, k, s, i, g)
            return
        if op is sre.AT:
            if self.at(av, s, i):
                yield from self.m(seq, k + 1, s, i, g)
            return
        if op is sre.GROUPREF:
            if av in g:
                t = s[g[av][0]:g[av][1]]
                if s.startswith(t, i):
                    yield from self.m(seq, k + 1, s, i + len(t), g)
            return
        if op in (sre.ASSERT, sre.ASSERT_NOT):
            d, sub = av
            sub = list(sub)
            if d > 0:
                hit = next(self.m(sub, 0, s, i, g), None)
            else:
                hit = None
                for st in range(i, -1, -1):
                    for j, g2 in self.m(sub, 0, s, st, g):
                        if j == i:
                            hit = (j, g2)
                            break
                    if hit:
                        break
            if (hit is not None) == (op is sre.ASSERT):
                yield from self.m(seq, k + 1, s, i, hit[1] if hit else g)
            return
        if op is getattr(sre, "ATOMIC_GROUP", None):
            hit = next(self.m(list(av), 0, s, i, g), None)
            if hit:
                yield from self.m(seq, k + 1, s, hit[0], hit[1])
            return
        raise Imprecise("regex op %s" % (op,))

    def rep1(self, op, lo, hi, item, seq, k, s, i, g, gid=None):
        """repeat of a single-character class: runs of pieces count by length"""
        o, av = item
        # positions reachable with (position, min count, max count)
        stops = [(i, 0, 0)]
        j, n, nx = i, 0, 0
        while j < len(s) and (hi is None or n < hi):
            c = s[j]
            if is_atom(c):
                a = A(c)
                r = self.rel(o, av, a)
                if r == 0:
                    break
                if r is None:
                    raise Imprecise("regex %r vs %s" % (self.pattern, a))
                n += a.minlen
                nx = None if nx is None or a.maxlen is None else nx + a.maxlen
                if hi is not None and (nx is None or nx > hi):
                    raise Imprecise("bounded repeat over %s" % a)
            elif self.test(o, av, c):
                n += 1
                nx = None if nx is None else nx + 1
            else:
                break
            j += 1
            stops.append((j, n, nx))
        ok = [x for x in stops if x[1] >= lo]
        # a stop whose max count reaches lo but min does not is undecided
        if any(x[1] < lo and (x[2] is None or x[2] >= lo) for x in stops):
            raise Imprecise("repeat lower bound over pieces")
        if op is sre.MAX_REPEAT:
            ok = ok[::-1]
        elif op is not sre.MIN_REPEAT:
            ok = ok[-1:]
        for j, _, _ in ok:
            if gid is not None and j > i:
                g = dict(g)
                g[gid] = (j - 1, j, "last")
            yield from self.m(seq, k + 1, s, j, g)

    def repmax(self, lo, hi, sub, n, seq, k, s, i, g):
        if hi is None or n < hi:
            for j, g2 in self.m(sub, 0, s, i, g):
                if j == i and n >= lo:
                    continue
                yield from self.repmax(lo, hi, sub, n + 1, seq, k, s, j, g2)
        if n >= lo:
            yield from self.m(seq, k + 1, s, i, g)

    def repmin(self, lo, hi, sub, n, seq, k, s, i, g):
        if n >= lo:
            yield from self.m(seq, k + 1, s, i, g)
        if hi is None or n < hi:
            for j, g2 in self.m(sub, 0, s, i, g):
                if j == i and n >= lo:
                    continue
                yield from self.repmin(lo, hi, sub, n + 1, seq, k, s, j, g2)

    def isword(self, c):
        t = (lambda x: x.isalnum() or x == "_")
        if is_atom(c):
            r = {t(x) for x in A(c).cs}
            if len(r) > 1:
                raise Imprecise("word boundary at piece")
            return r.pop()
        return t(c)

    def at(self, av, s, i):
        if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
            if i == 0:
                return True
            return av is sre.AT_BEGINNING and bool(self.flags & re.M) and s[i - 1] == "\n"
        if av is sre.AT_END:
            if i == len(s) or (i == len(s) - 1 and s[i] == "\n"):
                return True
            return bool(self.flags & re.M) and s[i] == "\n"
        if av is sre.AT_END_STRING:
            return i == len(s)
        if av in (sre.AT_BOUNDARY, sre.AT_NON_BOUNDARY):
            a = i > 0 and self.isword(s[i - 1])
            b = i < len(s) and self.isword(s[i])
            return (a != b) == (av is sre.AT_BOUNDARY)
        raise Imprecise("regex anchor")

    def match_at(self, s, i, full=False):
        for j, g in self.m(list(self.tree), 0, s, i, {}):
            if not full or j == len(s):
                g = dict(g)
                g[0] = (i, j)
                return g
        return None

    def search(self, s, start=0):
        for i in range(start, len(s) + 1):
            g = self.match_at(s, i)
            if g is not None:
                return g
        return None

    def finditer(self, s):
        i, noempty = 0, False
        while i <= len(s):
            g = None
            for st in range(i, len(s) + 1):
                for j, gg in self.m(list(self.tree), 0, s, st, {}):
                    if noempty and st == i and j == st:
                        continue
                    g = dict(gg)
                    g[0] = (st, j)
                    break
                if g is not None:
                    break
            if g is None:
                return
            yield g
            a, b = g[0]
            noempty = a == b
            i = b


# --- case mapping ------------------------------------------------------------
def casemap(s, which):
    out = []
    for c in s:
        if is_atom(c):
            a = A(c)
            cased = {x for x in a.cs if getattr(x, which)() != x}
            if not cased:
                out.append(c)
            elif a.kind == "xform" and a.arg[0] == which:
                out.append(c)
            else:
                root = a.arg[1] if a.kind == "xform" else c
                cs = frozenset(y for x in a.cs for y in getattr(x, which)()
                               if y in U) or a.cs
                out.append(satom("%s(%s)" % (which, A(root).key), cs, a.minlen,
                                 a.maxlen, "xform", (which, root)))
        else:
            out.append(getattr(c, which)())
    return "".join(out)
