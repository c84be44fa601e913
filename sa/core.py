"""Obligations, reports, evidence and exit codes shared by every check."""
import gc
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from fractions import Fraction as F

sys.setrecursionlimit(30000)

from . import strs as S
from . import witness as W
from .interp import (Interp, PyExc, Imprecise, Inst, DictData, Fin, Abort, NULL,
                     Iter, Ext)
from .num import Num, Poly, Atom, lift, prove_eq, prove_ge, pfloor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class Anchor(Exception):
    """a public entry point the property is about has disappeared"""


class Ob:
    __slots__ = ("rule", "status", "msg", "where", "witness", "path")

    def __init__(self, rule, status, msg="", where="", witness=None, path=()):
        self.rule, self.status, self.msg, self.where = rule, status, msg, where
        self.witness, self.path = witness, path

    def pack(self):
        return (self.rule, self.status, self.msg, self.where, self.witness, list(self.path))


class J:
    """judge handed to a scenario: records obligations on the current path"""

    def __init__(self, I, name):
        self.I, self.name = I, name
        self.obs = []
        self.site = None

    # ------------------------------------------------------------ recording
    def _w(self):
        return self.site or self.where()

    def where(self):
        return self.I.last_site or self.I.where()

    def proved(self, rule, msg=""):
        self.obs.append(Ob(rule, "PROVED", msg, self._w()))

    def undecided(self, rule, msg=""):
        self.obs.append(Ob(rule, "UNDECIDED", msg, self._w()))

    def refuted(self, rule, msg, polys=(), goal=None, where=None):
        """definite only if the path is certain and has a witness"""
        p = self.I.path
        if p.maybe:
            self.obs.append(Ob(rule, "UNDECIDED", "on uncertain path: " + msg, self._w()))
            return
        w = W.search(p.facts, self.with_ne(polys, goal))
        if w is None:
            self.obs.append(Ob(rule, "UNDECIDED", "no witness: " + msg, self._w()))
            return
        wit = {k: str(v) for k, v in w.items()}
        for k, d in p.dom.items():
            wit[k] = str(d[0]) if len(d) == 1 else "any of %d" % len(d)
        self.obs.append(Ob(rule, "REFUTED", msg, where or self._w(), wit,
                           p.log[-12:]))

    def with_ne(self, polys, goal):
        """the goal conjoined with the path's disequalities"""
        ne = list(self.I.path.ne.values())
        if not ne:
            return None if goal is None else (polys, goal)
        return (list(polys) + ne,
                lambda asg: all(W.ev(q, asg) != 0 for q in ne) and (goal is None or goal(asg)))

    def true(self, rule, cond, msg):
        if cond:
            self.proved(rule, msg)
        else:
            self.refuted(rule, msg)
        return cond

    def fail(self, rule, msg):
        self.refuted(rule, msg)

    # ------------------------------------------------------------- numerics
    def num(self, v):
        if isinstance(v, Fin):
            v = self.I.split(v)
        if isinstance(v, Inst):
            v = self.I.unwrap(v)
        if isinstance(v, bool):
            return None
        if isinstance(v, (int, float, F, Num)):
            return lift(v)
        return None

    def numeq(self, rule, actual, expected, what):
        """actual == expected for every valuation on this path"""
        a = self.num(actual)
        e = expected if isinstance(expected, Poly) else self.num(expected).p
        if a is None:
            self.refuted(rule, "%s is not a number: %s" % (what, self.desc(actual)))
            return False
        d = a.p - e
        if prove_eq(self.I.path.facts, d):
            self.proved(rule, what)
            return True
        site = self.I.prov.get(a.p.key())
        self.refuted(rule, "%s is %s, must be %s" % (what, a.p, e), [d],
                     lambda asg: W.ev(d, asg) != 0, site)
        return False

    def ge(self, rule, p, what, strict=False):
        if not isinstance(p, Poly):
            p = self.num(p).p
        if prove_ge(self.I.path.facts, p, strict):
            self.proved(rule, what)
            return True
        self.refuted(rule, "%s violated: %s %s 0 does not hold" % (what, p, ">" if strict else ">="),
                     [p], lambda asg: (W.ev(p, asg) <= 0 if strict else W.ev(p, asg) < 0))
        return False

    # --------------------------------------------------------------- strings
    def streq(self, rule, actual, expected, what):
        I = self.I
        if isinstance(actual, Fin):
            actual = I.split(actual)
        s = I.s(actual)
        if s is None:
            self.refuted(rule, "%s is not text: %s" % (what, self.desc(actual)))
            return False
        r = strdiff(I, s, expected)
        if r is True:
            self.proved(rule, what)
            return True
        if r is False:
            self.refuted(rule, "%s is %r, must be %r" % (what, S.show(s), S.show(expected)))
            return False
        if isinstance(r, Poly):
            self.refuted(rule, "%s is %r, must be %r" % (what, S.show(s), S.show(expected)),
                         [r], lambda asg: W.ev(r, asg) != 0)
            return False
        self.undecided(rule, "%s: %r vs %r" % (what, S.show(s), S.show(expected)))
        return False

    def desc(self, v):
        s = self.I.s(v)
        if s is not None:
            return repr(S.show(s))
        return repr(v)[:120]


def strdiff(I, a, b):
    """True equal, False definitely different for some input, Poly difference,
    None unknown"""
    if a == b:
        return True
    if not S.may_equal(a, b):
        return False
    fa = [c for c in a + b if S.is_atom(c) and S.A(c).kind == "fin"]
    if fa:
        a, b = I.canon(a), I.canon(b)
        if a == b:
            return True
        a2, b2 = settle(I, a), settle(I, b)
        if a2 == b2:
            return True
        if (a2, b2) != (a, b):
            return strdiff(I, a2, b2)
    if len(a) == len(b):
        diff = []
        for x, y in zip(a, b):
            if x == y:
                continue
            px, py = numpiece(x), numpiece(y)
            if px is None or py is None:
                diff = None
                break
            if not prove_eq(I.path.facts, px - py):
                diff.append(px - py)
        if diff is not None:
            if not diff:
                return True
            return diff[0]
    # align concrete skeleton: the same pieces in a different arrangement of
    # constant text are different for the valuation where pieces are letters
    ka = [c for c in a if S.is_atom(c) and S.A(c).kind != "fin"]
    kb = [c for c in b if S.is_atom(c) and S.A(c).kind != "fin"]
    if all(S.A(c).kind in ("text", "char", "digit") for c in ka + kb):
        return False if concrete(a) != concrete(b) else None
    return None


def concrete(s, alt=0):
    """a distinguishing valuation of plain pieces"""
    out = []
    for c in s:
        if S.is_atom(c):
            a = S.A(c)
            n = a.minlen if a.maxlen == a.minlen else max(a.minlen, 3)
            pool = sorted(x for x in a.cs)
            letters = [x for x in pool if x.isalpha()] or pool
            k = sum(ord(x) for x in a.key)
            out.append("".join(letters[(k + i * 7) % len(letters)] for i in range(n)))
        else:
            out.append(c)
    return "".join(out)


def settle(I, s):
    i = 0
    while i < len(s):
        if S.is_atom(s[i]) and S.A(s[i]).kind == "fin":
            r = I.split(s[i])
            s = s[:i] + r + s[i + 1:]
            i += len(r)
        else:
            i += 1
    return s


def numpiece(c):
    if not S.is_atom(c):
        if c.isdigit() and c.isascii():
            return Poly.const(int(c))
        return None
    a = S.A(c)
    if a.kind in ("digit",):
        return a.arg
    if a.kind == "fmt":
        return a.arg
    return None


# ------------------------------------------------------------------- running
def fresh():
    I = Interp(REPO)
    I.last_site = None
    for m in ("pycaption",):
        if I.load(m) is None:
            raise Anchor("package %s not found" % m)
    return I


def api(I, name, mod="pycaption"):
    m = I.load(mod)
    if m is None:
        raise Anchor("module %s" % mod)
    v = I._getattr(m, name)
    if v is NULL:
        raise Anchor("%s.%s" % (mod, name))
    return v


class Scenario:
    def __init__(self, name, fn, budget=400, args=()):
        self.name, self.fn, self.budget, self.args = name, fn, budget, args


_I = None
_SC = None
_T0 = time.time()


def total_limit():
    """wall-clock budget of a whole check: what is left over is undecided"""
    d = 450 if os.environ.get("VERIF_TIER") != "thorough" else 3000
    return float(os.environ.get("SA_LIMIT", d))


def run_one(i):
    sc = _SC[i]
    if time.time() - _T0 > total_limit():
        return (sc.name, "OK", [Ob("analysis", "UNDECIDED", "check time budget", "").pack()], 0, [], 0.0, [])
    I = _I
    t0 = time.time()
    out = []
    npaths = 0
    I.visited = set()
    hold = []
    try:
        def f(I_):
            j = J(I_, sc.name)
            hold[:] = [j]
            I_.last_site = None
            sc.fn(I_, j, *sc.args)
            return j
        for p, res, err in I.explore(f, sc.budget):
            npaths += 1
            j = hold[0] if hold else None
            if j is not None:
                out += [o.pack() for o in j.obs]
            if err is not None:
                if isinstance(err, PyExc):
                    e = err.inst
                    msg = "exception %s(%s) escapes" % (e.cls.name, ", ".join(
                        S.show(I.s(a)) if I.s(a) is not None else repr(a)[:80]
                        for a in e.attrs.get("args", ())))
                    jj = J(I, sc.name)
                    I.path = p
                    jj.site = e.loc
                    jj.refuted("no-exception", msg)
                    out += [o.pack() for o in jj.obs]
                else:
                    out.append(Ob("analysis", "UNDECIDED", str(err)[:400], "").pack())
            if time.time() - t0 > sc_limit() or time.time() - _T0 > total_limit() + 30:
                out.append(Ob("analysis", "UNDECIDED", "time budget", "").pack())
                break
    except Anchor as e:
        return (sc.name, "ANCHOR", str(e), 0, [], 0.0, [])
    except Exception:
        out.append(Ob("analysis", "UNDECIDED", "engine crash: " + traceback.format_exc()[-600:], "").pack())
        I.rollback()
    return (sc.name, "OK", out, npaths, sorted(I.visited), time.time() - t0, [])


def sc_limit():
    return 90 if os.environ.get("VERIF_TIER") != "thorough" else 600


def known():
    fp = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fp):
        return []
    return json.load(open(fp))["findings"]


def main(prop, scenarios, level, explanation, assumptions, static=None, argv=None,
         minimum=1):
    """run every scenario, write evidence, print findings, return exit code"""
    global _I, _SC
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    argv = sys.argv[1:] if argv is None else argv
    only = [a for a in argv if not a.startswith("-")]
    verbose = "-v" in argv
    try:
        _I = fresh()
    except Anchor as e:
        print("ANALYSIS-BROKEN property=%s missing anchor: %s" % (prop, e))
        return 2
    except PyExc as e:
        print("ANALYSIS-BROKEN property=%s package does not import: %s %s" % (
            prop, e.inst.cls.name, e.inst.loc))
        return 2
    except SyntaxError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    _SC = [s for s in scenarios if not only or any(o in s.name for o in only)]
    n = len(_SC)
    workers = int(os.environ.get("SA_JOBS", "0")) or min(8, os.cpu_count() or 2)
    if workers > 1 and n > 1:
        ctx = mp.get_context("fork")
        gc.collect()
        gc.freeze()
        gc.set_threshold(100000, 20, 100)
        with ctx.Pool(min(workers, n)) as pool:
            res = pool.map(run_one, range(n), chunksize=1)
    else:
        res = [run_one(i) for i in range(n)]
    if static is not None and not only:
        for name, obs in static(_I):
            res.append((name, "OK", [o.pack() for o in obs], 0, [], 0.0, []))
    stats = {"PROVED": 0, "REFUTED": 0, "UNDECIDED": 0}
    rules, visited, npaths = {}, set(), 0
    viol = {}
    anch = []
    und = []
    for name, st, obs, np_, vis, dt, _ in res:
        if st == "ANCHOR":
            anch.append(obs)
            continue
        npaths += np_
        visited.update(vis)
        for rule, status, msg, where, wit, path in obs:
            stats[status] += 1
            r = rules.setdefault(rule, {"PROVED": 0, "REFUTED": 0, "UNDECIDED": 0})
            r[status] += 1
            if status == "REFUTED":
                viol.setdefault((rule, name), []).append((msg, where, wit, path))
            elif status == "UNDECIDED":
                und.append((name, rule, msg, where))
        if verbose:
            c = {}
            for o in obs:
                c[o[1]] = c.get(o[1], 0) + 1
            print("%-50s paths=%d %s %.1fs" % (name, np_, c, dt))
            if "-vv" in argv or True:
                for o in obs:
                    if o[1] != "PROVED":
                        print("     ", o[1], o[0], o[2][:600], "@", o[3], o[4] or "")
    kf = [k for k in known() if k["property"] == prop]
    printed, code = set(), 0
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    new = 0
    for (rule, name), lst in sorted(viol.items()):
        msg, where, wit, path = lst[0]
        hit = None
        for k in kf:
            if k["rule"] == rule and (k["scenario"] == name or
                                      (k["scenario"].endswith("*") and name.startswith(k["scenario"][:-1]))) \
                    and all(k.get("match", "") in m[0] for m in lst):
                hit = k
                break
        if hit:
            if hit["id"] not in printed:
                printed.add(hit["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
            continue
        new += 1
        rp = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (prop, new))
        json.dump({"property": prop, "rule": rule, "scenario": name, "at": where,
                   "message": msg, "witness": wit, "branch_path": path,
                   "occurrences": len(lst)}, open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("   rule %s, scenario %s, at %s: %s" % (rule, name, where, msg[:800]))
        if wit:
            print("   for " + ", ".join("%s=%s" % kv for kv in sorted(wit.items())[:12]))
        for l in path[-6:]:
            print("   via " + l)
        code = 1
    if anch and not code:
        print("ANALYSIS-BROKEN property=%s missing anchor: %s" % (prop, sorted(set(anch))))
        code = 2
    decided = stats["PROVED"] + stats["REFUTED"]
    if not only:
        if decided < minimum and not code:
            print("ANALYSIS: only %d obligations decided (expected at least %d)" % (decided, minimum))
        ev = {
            "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed, "level": level,
            "coverage": {
                "explanation": explanation,
                "scenarios": len(res), "paths_analysed": npaths,
                "obligations": sum(stats.values()), "discharged": stats["PROVED"],
                "refuted": stats["REFUTED"], "undecided": stats["UNDECIDED"],
                "rules": rules,
                "functions_analysed": sorted(visited),
                "files": _I.digests,
                "undecided_samples": ["%s | %s | %s" % u[:3] for u in und[:12]],
                "samples": [{"scenario": r[0], "obligation": o[0], "status": o[1], "what": o[2][:300]}
                            for r in res if r[1] == "OK" for o in r[2][:1]][:12],
            },
            "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
            "violations": new,
        }
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d scenarios, %d paths, %d obligations: %d proved, %d refuted, %d undecided; %d functions; %.1fs" % (
        prop, len(res), npaths, sum(stats.values()), stats["PROVED"], stats["REFUTED"],
        stats["UNDECIDED"], len(visited), time.time() - t0))
    if os.environ.get("SA_UND"):
        for u in und[:int(os.environ["SA_UND"])]:
            print("  UND", *u)
    return code
