"""Numeric abstract domain.

A value is a multivariate Laurent polynomial with rational coefficients over
*atoms*: symbolic inputs, floors, rounds and opaque terms.  Two expressions
with the same canonical polynomial are equal for every input; branch facts are
kept as linear constraints over monomials (polyhedra, decided by
Fourier-Motzkin elimination).
"""
from fractions import Fraction as F
from math import gcd, floor as _floor


class Atom:
    __slots__ = ("key", "lo", "hi", "integer", "kind", "arg")
    table = {}

    def __init__(self, key, lo, hi, integer, kind, arg):
        self.key, self.lo, self.hi = key, lo, hi
        self.integer, self.kind, self.arg = integer, kind, arg

    @classmethod
    def get(cls, key, lo=None, hi=None, integer=True, kind="sym", arg=None):
        if kind == "sym":
            # a name with other bounds (in another scenario) is another symbol
            sig = (None if lo is None else F(lo), None if hi is None else F(hi), integer)
            while key in cls.table and (cls.table[key].lo, cls.table[key].hi, cls.table[key].integer) != sig:
                key += "'"
        a = cls.table.get(key)
        if a is None:
            a = cls(key, None if lo is None else F(lo),
                    None if hi is None else F(hi), integer, kind, arg)
            cls.table[key] = a
        return a

    def __repr__(self):
        return self.key


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}
        self._h = None

    # construction ---------------------------------------------------------
    @staticmethod
    def const(c):
        return Poly({(): F(c)})

    @staticmethod
    def atom(a):
        return Poly({((a.key, 1),): F(1)})

    # algebra --------------------------------------------------------------
    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1)
                for k, e in m2:
                    d[k] = d.get(k, 0) + e
                m = tuple(sorted((k, e) for k, e in d.items() if e))
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)

    def div(self, o):
        if len(o.t) == 1:
            (m, c), = o.t.items()
            inv = Poly({tuple((k, -e) for k, e in m): 1 / c})
            return self * inv
        a = Atom.get("inv(%s)" % o, integer=False, kind="inv", arg=o)
        return self * Poly.atom(a)

    # queries --------------------------------------------------------------
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), F(0))

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: str(x[0])):
            ms = "*".join(k if e == 1 else "%s^%d" % (k, e) for k, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            else:
                out.append("%s*%s" % (c, ms))
        return " + ".join(out)

    def atoms(self):
        return {k for m in self.t for k, _ in m}

    def integral_mono(self, m):
        return all(e > 0 and Atom.table[k].integer for k, e in m)

    def is_int(self):
        """integer-valued for every valuation"""
        return all(c.denominator == 1 and self.integral_mono(m)
                   for m, c in self.t.items())


def mono_bounds(m):
    lo, hi = F(1), F(1)
    for k, e in m:
        a = Atom.table[k]
        l, h = a.lo, a.hi
        if e < 0:
            if l is not None and l > 0:
                l, h = (None if h is None else 1 / h), 1 / l
                if l is None:
                    l = F(0)
            else:
                return None, None
            e = -e
        for _ in range(e):
            if l is not None and l >= 0 and lo is not None and lo >= 0:
                lo = lo * l
                hi = None if hi is None or h is None else hi * h
            elif None in (l, h, lo, hi):
                return None, None
            else:
                c = [lo * l, lo * h, hi * l, hi * h]
                lo, hi = min(c), max(c)
    return lo, hi


def bounds(p):
    lo = hi = F(0)
    for m, c in p.t.items():
        l, h = mono_bounds(m)
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


# --- facts: list of (poly, strict) meaning poly >= 0 / poly > 0 ------------
_fm_cache = {}


def _implicit(monos):
    """bounds of the atoms occurring in monos, as constraints"""
    out, seen, todo, floors = [], set(), list(monos), []
    while todo:
        m = todo.pop()
        if m in seen or m == ():
            continue
        seen.add(m)
        lo, hi = mono_bounds(m)
        pm = Poly({m: F(1)})
        if lo is not None:
            out.append((pm - Poly.const(lo), False))
        if hi is not None:
            out.append((Poly.const(hi) - pm, False))
        if len(m) == 1 and m[0][1] == 1:
            a = Atom.table[m[0][0]]
            if a.kind == "floor":
                q = a.arg
                out.append((q - pm, False))
                if q.scale(1).is_int():
                    out.append((pm - q, False))
                else:
                    d = 1
                    ok = all(q.integral_mono(mm) for mm in q.t)
                    if ok:
                        for c in q.t.values():
                            d = d * c.denominator // gcd(d, c.denominator)
                        # q is a multiple of 1/d: q - floor <= 1 - 1/d
                        out.append((pm - q + Poly.const(1 - F(1, d)), False))
                    else:
                        out.append((pm - q + Poly.const(1), True))
                floors.append((q, pm))
                todo.extend(q.t)
            elif a.kind == "round":
                q, nd = a.arg
                h = F(1, 2 * 10 ** nd)
                out.append((q - pm + Poly.const(h), False))
                out.append((pm - q + Poly.const(h), False))
                todo.extend(q.t)
            elif a.kind == "max":
                for q in a.arg:
                    out.append((pm - q, False))
                    todo.extend(q.t)
            elif a.kind == "min":
                for q in a.arg:
                    out.append((q - pm, False))
                    todo.extend(q.t)
    # 0 <= floor(q) - k floor(q/k) <= k - 1
    for q, x in floors:
        m = next(iter(q.t))
        for r, y in floors:
            c = r.t.get(m)
            if c and len(r.t) == len(q.t):
                k = q.t[m] / c
                if k > 1 and k.denominator == 1 and r.scale(k) == q:
                    d = x - y.scale(k)
                    out.append((d, False))
                    out.append((Poly.const(k - 1) - d, False))
    return out


def tighten(p, strict):
    # integer-coefficient up to scaling: scale to integer
    if all(p.integral_mono(m) for m in p.t) and p.t:
        d = 1
        for c in p.t.values():
            d = d * c.denominator // gcd(d, c.denominator)
        q = p.scale(d)
        if strict:
            q, strict = q - Poly.const(1), False
        g = 0
        for m, c in q.t.items():
            if m != ():
                g = gcd(g, int(c))
        if g > 1:
            t = {m: c / g for m, c in q.t.items()}
            t[()] = F(_floor(q.cval() / g))
            return Poly(t), False
        return q, strict
    return p, strict


def feasible(facts):
    """can all facts hold together (rational relaxation)?"""
    facts = [tighten(*f) for f in facts]
    key = frozenset((p.key(), s) for p, s in facts)
    r = _fm_cache.get(key)
    if r is None:
        r = _fm_cache[key] = _feasible(facts)
    return r


def _feasible(facts):
    monos = set()
    for p, _ in facts:
        monos.update(p.t)
    cons = list(facts) + [tighten(*f) for f in _implicit(monos)]
    rows = []
    for p, s in cons:
        rows.append(({m: c for m, c in p.t.items() if m != ()}, p.cval(), s))
    return _fm(rows)


def _fm(rows):
    def norm(r):
        d, c, s = r
        if not d:
            return (), c, s
        k = abs(next(iter(sorted(d.items())))[1])
        return tuple(sorted((m, v / k) for m, v in d.items())), c / k, s
    work = {}
    for r in rows:
        d, c, s = norm(r)
        if not d:
            if c < 0 or (s and c == 0):
                return False
            continue
        o = work.get(d)
        if o is None or (c, not s) < (o[0], not o[1]):
            work[d] = (c, s)
    for _ in range(200):
        if not work:
            return True
        cnt = {}
        for d in work:
            for m, v in d:
                n = cnt.setdefault(m, [0, 0])
                n[v > 0] += 1
        m = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1], str(k)))
        if cnt[m][0] * cnt[m][1] > 4000:
            return True     # give up: assume feasible
        pos, neg, rest = [], [], {}
        for d, (c, s) in work.items():
            dd = dict(d)
            v = dd.get(m)
            if v is None:
                rest[d] = (c, s)
            elif v > 0:
                pos.append((dd, c, s, v))
            else:
                neg.append((dd, c, s, v))
        for dp, cp, sp, vp in pos:
            for dn, cn, sn, vn in neg:
                t = {}
                for k, v in dp.items():
                    t[k] = t.get(k, 0) + v / vp
                for k, v in dn.items():
                    t[k] = t.get(k, 0) - v / vn
                t = {k: v for k, v in t.items() if v != 0}
                c = cp / vp - cn / vn
                s = sp or sn
                d, c, s = norm((t, c, s))
                if not d:
                    if c < 0 or (s and c == 0):
                        return False
                    continue
                o = rest.get(d)
                if o is None or (c, not s) < (o[0], not o[1]):
                    rest[d] = (c, s)
        work = rest
        if len(work) > 3000:
            return True
    return True


def relevant(facts, p):
    """facts sharing atoms (transitively) with p"""
    want = set(_deep_atoms(p))
    out, rest, changed = [], list(facts), True
    while changed:
        changed = False
        nrest = []
        for f in rest:
            a = _deep_atoms(f[0])
            if a & want:
                want |= a
                out.append(f)
                changed = True
            else:
                nrest.append(f)
        rest = nrest
    return out


_da = {}


def _deep_atoms(p):
    k = p.key()
    r = _da.get(k)
    if r is None:
        s = set()
        for a in p.atoms():
            s.add(a)
            at = Atom.table[a]
            if at.kind == "floor":
                s |= _deep_atoms(at.arg)
            elif at.kind == "round":
                s |= _deep_atoms(at.arg[0])
            elif at.kind in ("max", "min"):
                for q in at.arg:
                    s |= _deep_atoms(q)
        r = _da[k] = frozenset(s)
    return r


def prove_ge(facts, p, strict=False):
    """facts |= p >= 0 (or > 0)"""
    if p.is_const():
        return p.cval() > 0 if strict else p.cval() >= 0
    lo, _ = bounds(p)
    if lo is not None and (lo > 0 or (lo == 0 and not strict)):
        return True
    return not feasible(relevant(facts, p) + [(-p, not strict)])


def prove_eq(facts, p):
    if p.is_const():
        return p.cval() == 0
    return prove_ge(facts, p) and prove_ge(facts, -p)


# --- floor / round ---------------------------------------------------------
def pfloor(p, facts=()):
    if p.is_int():
        return p
    out, r = {}, {}
    for m, c in p.t.items():
        if p.integral_mono(m):
            k = _floor(c)
            if k:
                out[m] = F(k)
            if c - k:
                r[m] = c - k
        else:
            r[m] = c
    rp = Poly(r)
    op = Poly(out)
    if rp.is_const():
        return op + Poly.const(_floor(rp.cval()))
    # floor((Floor(q)+m)/N) -> floor((q+m)/N)
    d = 1
    for c in rp.t.values():
        d = d * c.denominator // gcd(d, c.denominator)
    if all(rp.integral_mono(m) for m in rp.t):
        q = rp.scale(d)
        for m, c in q.t.items():
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                a = Atom.table[m[0][0]]
                if a.kind == "floor":
                    rest = Poly({mm: cc for mm, cc in q.t.items() if mm != m})
                    return op + pfloor((rest + a.arg).scale(F(1, d)), facts)
    # constant inside: all integral & common denominator handled implicitly
    lo, hi = bounds(rp)
    if lo is not None and hi is not None and _floor(lo) == _floor(hi):
        return op + Poly.const(_floor(lo))
    if facts and relevant(facts, rp):
        if prove_ge(facts, rp) and prove_ge(facts, Poly.const(1) - rp, True):
            return op
    key = "floor(%s)" % rp
    a = Atom.get(key, None if lo is None else _floor(lo),
                 None if hi is None else _floor(hi), True, "floor", rp)
    return op + Poly.atom(a)


def pround(p, nd, facts=()):
    s = p.scale(F(10) ** nd)
    if s.is_int():
        return p
    if p.is_const():
        return Poly.const(round(p.cval(), nd))
    lo, hi = bounds(p)
    if nd > 0:
        # 10**nd * round(p, nd) is an integer
        lo, hi = bounds(s)
        a = Atom.get("round(%s,0)" % s, None if lo is None else round(lo), None if hi is None else round(hi),
                     True, "round", (s, 0))
        return Poly.atom(a).scale(F(1, 10 ** nd))
    a = Atom.get("round(%s,%d)" % (p, nd),
                 None if lo is None else round(lo, nd),
                 None if hi is None else round(hi, nd),
                 nd <= 0, "round", (p, nd))
    return Poly.atom(a)


class Num:
    """symbolic number: polynomial + python kind + rounding level

    rnd: 0 the float/int represents the polynomial exactly,
         1 a single correctly rounded quotient of exactly represented values,
         2 several roundings.
    e is the floating-point expression (nested tuples) behind an inexact
    value; it is only used to evaluate a refutation witness."""
    __slots__ = ("p", "kind", "rnd", "e")

    def __init__(self, p, kind="int", rnd=0, e=None):
        self.p, self.kind, self.rnd, self.e = p, kind, rnd, e

    @staticmethod
    def sym(name, lo=None, hi=None, integer=True, kind="int"):
        return Num(Poly.atom(Atom.get(name, lo, hi, integer)), kind)

    def is_const(self):
        return self.p.is_const()

    def __repr__(self):
        return "%s<%s>" % (self.kind, self.p)

    def __eq__(self, o):
        return isinstance(o, Num) and o.p == self.p and o.kind == self.kind

    def __hash__(self):
        return hash((self.p, self.kind))


def lift(v):
    """python constant -> Num"""
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return Num(Poly.const(int(v)), "int")
    if isinstance(v, int):
        return Num(Poly.const(v), "int")
    if isinstance(v, float):
        f = F(repr(v)) if v == v and abs(v) != float("inf") else None
        if f is None:
            return None
        return Num(Poly.const(f), "float", 0)
    if isinstance(v, F):
        return Num(Poly.const(v), "frac")
    return None
