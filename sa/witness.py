"""Refutation witnesses.

A refuted obligation is only reported when some valuation of the symbolic
inputs satisfies every branch fact of the path and separates the two sides;
this keeps infeasible paths and imprecision out of the reports.  Evaluation is
of the abstract terms themselves (exact rationals; inexact floating-point
subterms by their own expression)."""
import random
from fractions import Fraction as F
from math import floor

from .num import Atom, Poly, _deep_atoms


def leaves(p, out=None):
    out = set() if out is None else out
    for k in _all_atoms(p):
        if Atom.table[k].kind in ("sym", "max0"):
            out.add(k)
    return out


_aa = {}


def _all_atoms(p):
    k = p.key()
    r = _aa.get(k)
    if r is None:
        s = set(p.atoms())
        for a in list(p.atoms()):
            at = Atom.table[a]
            if at.kind in ("floor", "inv"):
                s |= _all_atoms(at.arg)
            elif at.kind in ("round", "approx"):
                s |= _all_atoms(at.arg[0])
            elif at.kind in ("max", "min"):
                for q in at.arg:
                    s |= _all_atoms(q)
        r = _aa[k] = frozenset(s)
    return r


class Undef(Exception):
    pass


def fexpr(e, asg):
    if e[0] in ("int", "float", "frac"):
        v = ev(e[1], asg)
        if e[0] == "float":
            return float(v)
        return int(v) if e[0] == "int" and v.denominator == 1 else v
    a, b = fexpr(e[1], asg), fexpr(e[2], asg)
    if isinstance(a, F):
        a = float(a)
    if isinstance(b, F):
        b = float(b)
    t = e[0]
    if t == "Add":
        return a + b
    if t == "Sub":
        return a - b
    if t == "Mult":
        return a * b
    if t == "Div":
        return a / b
    if t == "FloorDiv":
        return a // b
    if t == "Mod":
        return a % b
    raise Undef(t)


def ev_atom(k, asg):
    v = asg.get(k)
    if v is not None:
        return v
    a = Atom.table[k]
    if a.kind == "floor":
        v = F(floor(ev(a.arg, asg)))
    elif a.kind == "round":
        v = F(round(ev(a.arg[0], asg), a.arg[1]))
    elif a.kind == "inv":
        x = ev(a.arg, asg)
        if x == 0:
            raise Undef("1/0")
        v = 1 / x
    elif a.kind == "max":
        v = max(ev(q, asg) for q in a.arg)
    elif a.kind == "min":
        v = min(ev(q, asg) for q in a.arg)
    elif a.kind == "approx":
        q, e = a.arg
        if e is None:
            raise Undef(k)
        v = F(int(fexpr(e, asg)))
    else:
        raise Undef(k)
    asg[k] = v
    return v


def ev(p, asg):
    t = F(0)
    for m, c in p.t.items():
        for k, e in m:
            v = ev_atom(k, asg)
            if e < 0 and v == 0:
                raise Undef("0 power")
            c = c * v ** e
        t += c
    return t


def draw(a, rnd, mode):
    lo, hi = a.lo, a.hi
    if mode == 0:
        v = lo if lo is not None else F(0)
    elif mode == 1:
        v = hi if hi is not None else (lo or F(0)) + 1
    else:
        l = lo if lo is not None else F(-1000)
        h = hi if hi is not None else l + rnd.choice([10, 100, 1000, 10 ** 6, 10 ** 9])
        if a.integer:
            x = rnd.random()
            span = int(h) - int(l)
            if x < .15:
                v = l
            elif x < .25:
                v = h
            elif x < .45:
                v = l + min(span, rnd.randint(0, 3))
            else:
                v = l + rnd.randint(0, max(span, 0))
        else:
            v = l + (h - l) * F(rnd.randint(0, 1000), 1000)
            if rnd.random() < .3:
                v = l
    return F(v)


def holds(facts, asg):
    for p, strict in facts:
        v = ev(p, asg)
        if v < 0 or (strict and v == 0):
            return False
    return True


def search(facts, goal=None, tries=600, seed=1):
    """valuation satisfying facts (and goal(asg))"""
    rnd = random.Random(seed)
    syms = set()
    for p, _ in facts:
        leaves(p, syms)
    if goal is not None:
        for p in goal[0]:
            leaves(p, syms)
    syms = sorted(syms)
    # equalities usable for elimination
    fset = {f[0].key() for f in facts if not f[1]}
    eqs = []
    for p, s in facts:
        if not s and (-p).key() in fset:
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in syms:
                    k = m[0][0]
                    rest = Poly({mm: cc for mm, cc in p.t.items() if mm != m})
                    if k not in _all_atoms(rest):
                        eqs.append((k, rest.scale(F(-1) / c)))
                        break
    for n in range(tries):
        asg = {}
        for k in syms:
            asg[k] = draw(Atom.table[k], rnd, n if n < 2 else 2)
        try:
            base = dict(asg)
            for k, r in eqs:
                v = ev(r, dict(base))
                base[k] = v
            bad = False
            for k in syms:
                a = Atom.table[k]
                v = base[k]
                if (a.integer and v.denominator != 1) or (a.lo is not None and v < a.lo) \
                        or (a.hi is not None and v > a.hi):
                    bad = True
                    break
            if bad:
                continue
            # repair single-variable violations
            w = dict(base)
            if not holds(facts, w):
                base = repair(facts, base, syms, rnd)
                if base is None:
                    continue
                w = dict(base)
            if goal is not None and not goal[1](w):
                continue
            return {k: base[k] for k in syms}
        except (Undef, ZeroDivisionError, OverflowError):
            continue
    return None


_sl = {}


def _slopes(p):
    """coefficients of the leaves, floors and roundings taken for identities"""
    k = p.key()
    r = _sl.get(k)
    if r is None:
        r = {}
        for m, c in p.t.items():
            if len(m) != 1 or m[0][1] != 1:
                continue
            a = Atom.table[m[0][0]]
            if a.kind == "sym":
                r[a.key] = r.get(a.key, 0) + c
            elif a.kind in ("floor", "round", "approx"):
                for x, d in _slopes(a.arg if a.kind == "floor" else a.arg[0]).items():
                    r[x] = r.get(x, 0) + c * d
        r = _sl[k] = {x: d for x, d in r.items() if d}
    return r


def repair(facts, base, syms, rnd, rounds=24):
    """greedy: move one variable of a violated linear fact onto its boundary"""
    base = dict(base)
    for _ in range(rounds):
        viol = None
        for p, s in facts:
            v = ev(p, dict(base))
            if v < 0 or (s and v == 0):
                viol = (p, s, v)
                break
        if viol is None:
            return base
        p, s, v = viol
        cand = []
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in syms:
                cand.append((m[0][0], c))
        if not cand:
            # floors: move a variable below one as if the floor were absent
            g = sorted(_slopes(p).items())
            if g and rnd.random() < .8:
                k, c = rnd.choice(g)
                a = Atom.table[k]
                step = (-v + (F(rnd.randint(0, 2000), 1000) if s or rnd.random() < .5 else 0)) / c
                nv = base[k] + step
                if a.integer and nv.denominator != 1:
                    nv = F(floor(nv)) if c < 0 else F(-floor(-nv))
                if a.lo is not None and nv < a.lo:
                    nv = a.lo
                if a.hi is not None and nv > a.hi:
                    nv = a.hi
                base[k] = nv
                continue
            # nonlinear: re-draw some variable under it
            ls = sorted(leaves(p))
            if not ls:
                return None
            k = rnd.choice(ls)
            base[k] = draw(Atom.table[k], rnd, 2)
            continue
        k, c = rnd.choice(cand)
        a = Atom.table[k]
        need = -v / c
        nv = base[k] + need
        if a.integer and nv.denominator != 1:
            nv = F(floor(nv)) if c < 0 else F(-floor(-nv))
        if s and nv == base[k] + need:
            nv += (1 if c > 0 else -1) * (1 if a.integer else F(1, 1000))
        if a.lo is not None and nv < a.lo:
            nv = a.lo
        if a.hi is not None and nv > a.hi:
            nv = a.hi
        base[k] = nv
    return base if holds(facts, dict(base)) else None
