"""Abstract interpreter over the syntax tree of /repo.

Nothing of the analysed repository is imported or executed: modules are parsed
with ``ast`` and evaluated over the abstract domains of num.py / strs.py.
Branches whose condition the domains cannot decide are explored both ways
(trace partitioning); every path carries its branch facts.
"""
import ast
import builtins as _builtins
import collections as _collections
import datetime as _datetime
import enum as _enum
import os
import re as _re
import types as _types
from fractions import Fraction as F

from . import strs as S
from .strs import Imprecise, ParseFail, has_atoms, is_atom
from .num import (Num, Poly, Atom, lift, pfloor, pround, prove_ge, prove_eq,
                  feasible, relevant, bounds, tighten)


C_ = Poly.const


class PyExc(Exception):
    def __init__(self, inst):
        self.inst = inst


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class Abort(Exception):
    """path is infeasible or not interesting"""


class Obj:
    __slots__ = ("gen", "tag", "loc")


class ClassV(Obj):
    __slots__ = ("name", "bases", "ns", "mro", "kind", "module", "enum",
                 "qual", "fields")

    def __init__(self, name, bases, ns, kind=None, module=""):
        self.name, self.bases, self.ns = name, list(bases), ns
        self.kind, self.module = kind, module
        self.enum = None
        self.qual = name
        self.fields = None
        self.gen, self.tag, self.loc = 0, None, None
        self.mro = self._c3()
        if kind is None:
            for b in self.mro[1:]:
                if b.kind and b.kind != "object":
                    self.kind = b.kind
                    break

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Imprecise("mro")
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    del s[0]
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def sub(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s>" % self.name


class Inst(Obj):
    __slots__ = ("cls", "attrs", "data")

    def __init__(self, cls, data=None):
        self.cls, self.attrs, self.data = cls, {}, data
        self.gen, self.tag, self.loc = None, None, None

    def __repr__(self):
        if self.data is not None and not isinstance(self.data, dict):
            return "%s(%r)" % (self.cls.name, self.data)
        return "<%s %s>" % (self.cls.name, ",".join(self.attrs))


class DictData:
    """insertion-ordered dictionary over abstract keys"""
    __slots__ = ("d", "sym")

    def __init__(self):
        self.d = {}        # hkey -> (key, value)
        self.sym = 0       # number of keys that are not plain constants

    def copy(self):
        n = DictData()
        n.d = dict(self.d)
        n.sym = self.sym
        return n


class FuncV(Obj):
    __slots__ = ("node", "env", "defaults", "kwdefaults", "module", "qual",
                 "owner", "name", "locals", "isgen", "attrs", "globs", "nonl")

    def __init__(self, **k):
        self.gen, self.tag, self.loc = 0, None, None
        self.owner = None
        self.attrs = {}
        for a, b in k.items():
            setattr(self, a, b)

    def __repr__(self):
        return "<fn %s>" % self.qual


class Bound:
    __slots__ = ("f", "self")

    def __init__(self, f, self_):
        self.f, self.self = f, self_


class Builtin:
    __slots__ = ("f", "name", "binds")

    def __init__(self, f, name, binds=False):
        self.f, self.name, self.binds = f, name, binds

    def __repr__(self):
        return "<builtin %s>" % self.name


class StaticM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Prop:
    __slots__ = ("fget", "fset", "fdel")

    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class ModV(Obj):
    __slots__ = ("name", "ns", "path")

    def __init__(self, name, ns, path=None):
        self.name, self.ns, self.path = name, ns, path
        self.gen, self.tag, self.loc = 0, None, None


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Ext:
    """python-side model object; subclasses define sa_getattr etc."""

    def sa_getattr(self, I, name):
        raise Imprecise("attribute %s of %s" % (name, type(self).__name__))

    def sa_truth(self, I):
        return True

    def sa_eq(self, I, o):
        return self is o


class Iter(Ext):
    """iterator over python generator"""

    def __init__(self, it):
        self.it = it


class Fin(Ext):
    """value that depends on finitely valued symbols (finite powerset)"""

    def __init__(self, syms, table):
        self.syms = syms
        self.table = table      # dict raw tuple -> value

    def __repr__(self):
        return "Fin%s[%d]" % (self.syms, len(self.table))


class Env:
    __slots__ = ("vars", "parent", "mod", "fn", "isclass", "fnenv")

    def __init__(self, vars, parent, mod, fn=None, isclass=False):
        self.vars, self.parent, self.mod = vars, parent, mod
        self.fn, self.isclass = fn, isclass


NULL = object()


def _local_names(node):
    """names bound in a function body"""
    out, globs, nonl = set(), set(), set()
    isgen = [False]

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not top:
                out.add(n.name)
                return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets leak; comprehension targets do not
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)
    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for st in node.body:
            visit(st)
    out -= globs
    out -= nonl
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    return out, globs, nonl, isgen[0]


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.choices = []       # (index, n)
        self.facts = []
        self.hashed = []
        self.memo = {}
        self.ne = {}            # polynomials known to be non-zero
        self.dom = {}           # finite symbol -> list of raws
        self.log = []           # branch log
        self.events = []
        self.maybe = []         # uncertain forks
        self.notes = []


_DISP = {}


class Interp:
    exact_floats = False
    hseed = ""             # another string-hash seed: other hashes, other set order

    def __init__(self, root, max_paths=4000):
        from . import builtins_, models
        self.root = root
        self.modules = {}
        self.gen = 0
        self.path = Path([])
        self.stack = []
        self.node = None
        self.mod = None
        self.journal = []
        self.visited = set()
        self.ncalls = 0
        self.steps = 0
        self.idc = 0
        self.max_paths = max_paths
        self.files = {}
        self.digests = {}
        self.B = {}
        self.extmods = {}
        self.hash_order_matters = True
        self.prov = {}
        self.last_site = None
        builtins_.install(self)
        models.install(self)
        self.base_done = False

    # ------------------------------------------------------------------ heap
    def new(self, cls, data=None):
        o = Inst(cls, data)
        o.gen = self.gen
        return o

    def mklist(self, items=()):
        return self.new(self.B["list"], list(items))

    def mkdict(self, pairs=()):
        d = self.new(self.B["dict"], DictData())
        for k, v in pairs:
            self.dict_set(d, k, v)
        return d

    def mkset(self, items=()):
        s = self.new(self.B["set"], DictData())
        for k in items:
            self.dict_set(s, k, None)
        return s

    def touch(self, o, what=""):
        """o is about to be mutated"""
        g = o.gen
        if g is not None and g != self.gen and g != -1:
            # persistent object: journal for undo
            if isinstance(o, Inst):
                d = o.data
                self.journal.append((o, dict(o.attrs),
                                     list(d) if isinstance(d, list) else
                                     d.copy() if isinstance(d, DictData) else d))
            else:
                self.journal.append((o, dict(o.ns) if hasattr(o, "ns") else None, None))
            o.gen = self.gen
            self.path.events.append(("persist", o, what, self.where()))
        t = getattr(o, "tag", None)
        if t is not None:
            self.path.events.append(("mutate", o, what, self.where(), t))

    def rollback(self):
        while self.journal:
            o, a, d = self.journal.pop()
            if isinstance(o, Inst):
                o.attrs, o.data = a, d
            else:
                o.ns.clear()
                o.ns.update(a)
            o.gen = 0

    def where(self):
        n = self.node
        f = self.stack[-1].qual if self.stack else "<module>"
        m = self.mod.path if self.mod is not None and self.mod.path else "?"
        return "%s:%s:%s" % (os.path.relpath(m, self.root) if m != "?" else m,
                             getattr(n, "lineno", "?"), f)

    # --------------------------------------------------------------- choices
    def choose(self, n, label=""):
        if n == 1:
            return 0
        p = self.path
        i = len(p.choices)
        k = p.prefix[i] if i < len(p.prefix) else 0
        p.choices.append((k, n))
        p.log.append("%s [%s]=%d" % (self.where(), label, k))
        return k

    def fork(self, key, label, certain=False):
        """boolean fork on an opaque condition, remembered per path"""
        m = self.path.memo
        if key in m:
            return m[key]
        r = self.choose(2, label) == 0
        m[key] = r
        if not certain:
            self.path.maybe.append(label)
        return r

    def add_fact(self, p, strict=False):
        self.path.facts.append((p, strict))

    def decide_ge(self, p, strict=False):
        """p >= 0 (or > 0) ? forks when undecided"""
        facts = self.path.facts
        if prove_ge(facts, p, strict):
            return True
        if prove_ge(facts, -p, not strict):
            return False
        if (p.key() in self.path.ne or (-p).key() in self.path.ne):
            # known to differ from zero: both comparisons are strict
            if prove_ge(facts, p):
                return True
            if prove_ge(facts, -p):
                return False
            if self.choose(2, "%s > 0" % p) == 0:
                self.add_fact(p, True)
                return True
            self.add_fact(-p, True)
            return False
        if self.choose(2, "%s %s 0" % (p, ">" if strict else ">=")) == 0:
            self.add_fact(p, strict)
            return True
        self.add_fact(-p, not strict)
        return False

    def decide_eq0(self, p):
        facts = self.path.facts
        if p.is_const():
            return p.cval() == 0
        lo, hi = bounds(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if prove_eq(facts, p):
            return True
        rel = relevant(facts, p)
        eqf = rel + [(p, False), (-p, False)]
        if not feasible(eqf):
            return False
        m = self.path.ne
        if p.key() in m or (-p).key() in m:
            return False
        if self.choose(2, "%s == 0" % p) == 0:
            self.add_fact(p)
            self.add_fact(-p)
            return True
        m[p.key()] = p
        # strengthen the boundary when one side is excluded
        if prove_ge(facts, p):
            self.add_fact(p, True)
        elif prove_ge(facts, -p):
            self.add_fact(-p, True)
        return False

    def bounds(self, p):
        return bounds(p)

    # ------------------------------------------------------------ exceptions
    def exc(self, name, *args):
        c = self.B[name] if isinstance(name, str) else name
        i = self.new(c)
        i.attrs["args"] = tuple(args)
        i.loc = self.where()
        return PyExc(i)

    # ----------------------------------------------------------- module load
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", "/")
        for p in (rel + ".py", rel + "/__init__.py"):
            fp = os.path.join(self.root, p)
            if os.path.isfile(fp):
                break
        else:
            return None
        src = open(fp, encoding="utf-8").read()
        import hashlib
        self.digests[p] = hashlib.sha256(src.encode()).hexdigest()
        tree = ast.parse(src, fp)
        m = ModV(name, {"__name__": name, "__file__": fp, "__doc__": None}, fp)
        m.ns["__package__"] = name if fp.endswith("__init__.py") else name.rpartition(".")[0]
        self.modules[name] = m
        if "." in name:
            par = self.load(name.rpartition(".")[0])
            if par is not None:
                par.ns[name.rpartition(".")[2]] = m
        save = self.mod, self.node, self.stack
        self.mod, self.stack = m, []
        env = Env(m.ns, None, m)
        try:
            for st in tree.body:
                self.exec(st, env)
        finally:
            self.mod, self.node, self.stack = save
        return m

    def import_name(self, name):
        if name.split(".")[0] == "pycaption":
            m = self.load(name)
            if m is None:
                raise self.exc("ModuleNotFoundError", "No module named " + name)
            return m
        if name in self.extmods:
            m = self.extmods[name]
            if m is None:
                raise self.exc("ModuleNotFoundError", "No module named " + name)
            return m
        return self.unknown_module(name)

    def unknown_module(self, name):
        m = self.extmods.get(name)
        if m is None:
            m = self.extmods[name] = ModV(name, {}, None)
        return m

    # ----------------------------------------------------------- path driver
    def explore(self, scenario, budget=None):
        """run scenario(I) on every path; yields (path, result, error)"""
        todo = [[]]
        n = 0
        budget = budget or self.max_paths
        while todo:
            prefix = todo.pop()
            self.gen += 1
            self.path = Path(prefix)
            self.stack, self.mod, self.node = [], None, None
            self.journal = []
            self.hseed = ""
            res = err = None
            try:
                res = scenario(self)
            except PyExc as e:
                err = e
            except Imprecise as e:
                err = e
            except Abort:
                err = Abort()
            except (_Break, _Continue, _Return) as e:
                err = Imprecise("control flow escaped")
            except RecursionError:
                err = Imprecise("recursion depth")
            except (KeyError, TypeError, AttributeError, ValueError, IndexError,
                    AssertionError, NotImplementedError) as e:
                if os.environ.get("SA_DEBUG"):
                    self.rollback()
                    raise
                err = Imprecise("engine: %s %s at %s" % (type(e).__name__, e, self.where()))
            p = self.path
            self.rollback()
            n += 1
            if not isinstance(err, Abort):
                yield p, res, err
            for i in range(len(prefix), len(p.choices)):
                k, cnt = p.choices[i]
                for alt in range(k + 1, cnt):
                    todo.append([c for c, _ in p.choices[:i]] + [alt])
            if n > budget:
                yield p, None, Imprecise("path budget")
                return

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        self.ncalls += 1
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kw)
        if isinstance(f, Bound):
            return self.call(f.f, [f.self] + list(args), kw)
        if isinstance(f, Builtin):
            return f.f(self, *args, **kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, Inst):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw)
            raise self.exc("TypeError", "not callable")
        if isinstance(f, Ext) and hasattr(f, "sa_call"):
            return f.sa_call(self, *args, **kw)
        if f is None or isinstance(f, (int, str, Num)):
            raise self.exc("TypeError", "object is not callable")
        raise Imprecise("call of %r" % (f,))

    def callm(self, o, name, *args, **kw):
        return self.call(self.getattr(o, name), list(args), kw)

    def call_func(self, f, args, kw):
        if len(self.stack) > 150:
            raise Imprecise("recursion in %s" % f.qual)
        a = f.node.args
        vars = {}
        pos = a.posonlyargs + a.args
        npos = len(pos)
        if len(args) > npos and not a.vararg:
            raise self.exc("TypeError", "%s() takes %d positional arguments" % (f.name, npos))
        for x, v in zip(pos, args):
            vars[x.arg] = v
        if a.vararg:
            vars[a.vararg.arg] = tuple(args[npos:])
        kwn = {x.arg for x in a.args + a.kwonlyargs}
        extra = []
        for k, v in kw.items():
            if k in kwn:
                if k in vars:
                    raise self.exc("TypeError", "multiple values for argument " + k)
                vars[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                raise self.exc("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg:
            vars[a.kwarg.arg] = self.mkdict(extra)
        nd = len(f.defaults)
        for i, x in enumerate(pos):
            if x.arg not in vars:
                j = i - (npos - nd)
                if j < 0:
                    raise self.exc("TypeError", "%s() missing argument '%s'" % (f.name, x.arg))
                vars[x.arg] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in vars:
                if x.arg not in f.kwdefaults:
                    raise self.exc("TypeError", "%s() missing argument '%s'" % (f.name, x.arg))
                vars[x.arg] = f.kwdefaults[x.arg]
        env = Env(vars, f.env, f.module, f)
        self.visited.add(f.module.name + ":" + f.qual)
        self.last_site = None
        save = self.mod, self.node
        self.stack.append(f)
        self.mod = f.module
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if f.isgen:
                out = []
                vars["\0yield"] = out
                try:
                    for st in f.node.body:
                        self.exec(st, env)
                except _Return:
                    pass
                return Iter(iter(out))
            try:
                for st in f.node.body:
                    self.exec(st, env)
            except _Return as r:
                return r.v
            return None
        finally:
            if len(self.stack) == 1:
                self.last_site = self.where()
            self.stack.pop()
            self.mod, self.node = save

    def instantiate(self, cls, args, kw):
        if cls.kind == "type" and len(args) == 1:
            return self.type_of(args[0])
        if cls.enum is not None:
            (v,) = args
            for m in cls.enum:
                if self.eq(m.attrs["value"], v):
                    return m
            raise self.exc("ValueError", "not a valid enum value")
        new, _ = cls.lookup("__new__")
        if new is not None:
            if isinstance(new, StaticM):
                new = new.f
            o = self.call(new, [cls] + args, kw)
            if not (isinstance(o, Inst) and o.cls.sub(cls)):
                return o
        else:
            o = None
        k = cls.kind
        if o is None:
            if k in self.ctor and cls is self.B.get(k):
                return self.ctor[k](self, *args, **kw)
            o = self.new(cls)
            if k == "list":
                o.data = []
            elif k in ("dict", "set"):
                o.data = DictData()
            elif k in ("str", "tuple", "int", "float"):
                if cls.fields is not None:
                    o.data = self.nt_args(cls, args, kw)
                else:
                    o.data = self.ctor[k](self, *args, **kw)
            elif k == "frozenset":
                o.data = DictData()
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + args, kw)
        elif k in ("list", "dict", "set"):
            self.builtin_init(o, args, kw)
        elif cls.sub(self.B["BaseException"]):
            o.attrs["args"] = tuple(args)
            o.loc = self.where()
        elif args or kw:
            if k not in ("str", "tuple", "int", "float", "frozenset") and new is None:
                raise self.exc("TypeError", "%s() takes no arguments" % cls.name)
        if cls.sub(self.B["BaseException"]):
            o.attrs.setdefault("args", tuple(args))
            o.loc = self.where()
        return o

    def nt_args(self, cls, args, kw):
        vals = list(args)
        for fld in cls.fields[len(args):]:
            if fld in kw:
                vals.append(kw[fld])
            else:
                dflt = cls.ns.get("_field_defaults", {})
                if fld not in dflt:
                    raise self.exc("TypeError", "missing argument " + fld)
                vals.append(dflt[fld])
        return tuple(vals)

    # -------------------------------------------------------------- attributes
    def type_of(self, v):
        B = self.B
        if isinstance(v, Inst):
            return v.cls
        if v is None:
            return B["NoneType"]
        if isinstance(v, bool):
            return B["bool"]
        if isinstance(v, int):
            return B["int"]
        if isinstance(v, Num):
            return B[{"int": "int", "float": "float", "frac": "Fraction"}[v.kind]]
        if isinstance(v, str):
            return B["str"]
        if isinstance(v, tuple):
            return B["tuple"]
        if isinstance(v, bytes):
            return B["bytes"]
        if isinstance(v, ClassV):
            return B["type"]
        if isinstance(v, (FuncV, Builtin, Bound)):
            return B["function"]
        if isinstance(v, range):
            return B["range"]
        if isinstance(v, Fin):
            ts = {id(self.type_of(x)): self.type_of(x) for x in self.fin_live(v).values()}
            if len(ts) == 1:
                return next(iter(ts.values()))
            return self.type_of(self.split(v))
        if isinstance(v, Ext) and hasattr(v, "sa_type"):
            return v.sa_type(self)
        return B["object"]

    def bind(self, v, obj, cls, owner=None):
        if isinstance(v, FuncV) or (isinstance(v, Builtin) and v.binds):
            return Bound(v, obj)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, Prop):
            return self.call(v.fget, [obj])
        return v

    def getattr(self, o, name, default=NULL):
        try:
            r = self._getattr(o, name)
        except PyExc as e:
            if not isinstance(o, Ext) or not e.inst.cls.sub(self.B["AttributeError"]):
                raise
            if default is not NULL:
                return default
            if real_has(self, o, name):
                raise Imprecise("attribute %s of %s" % (name, type(o).__name__))
            raise
        if r is NULL:
            if default is not NULL:
                return default
            if real_has(self, o, name):
                raise Imprecise("attribute %s of %s" % (name, self.type_of(o).name))
            e = self.exc("AttributeError", "'%s' object has no attribute '%s'"
                         % (self.type_of(o).name, name))
            raise e
        return r

    def _getattr(self, o, name):
        if isinstance(o, Inst):
            v, owner = o.cls.lookup(name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o])
            if name in o.attrs:
                return o.attrs[name]
            if v is not None or owner is not None:
                return self.bind(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.mkdict(list(o.attrs.items()))
            if o.cls.fields is not None and name in o.cls.fields:
                return o.data[o.cls.fields.index(name)]
            m = self.method(o.cls.kind, name)
            if m is not None:
                return Bound(m, o)
            g, _ = o.cls.lookup("__getattr__")
            if g is not None:
                try:
                    return self.call(g, [o, name])
                except PyExc as e:
                    if e.inst.cls.sub(self.B["AttributeError"]):
                        return NULL
                    raise
            if name in ("__init__",):
                return Builtin(lambda I, *a, **k: None, "object.__init__")
            if name == "__eq__":
                return Builtin(lambda I, x: o is x, "__eq__")
            if name == "__hash__":
                return Builtin(lambda I: self.hash(o), "__hash__")
            if name in ("__repr__", "__str__"):
                return Builtin(lambda I: self.str_of(o), name)
            if name == "with_traceback":
                return Builtin(lambda I, tb: o, "with_traceback")
            return NULL
        if isinstance(o, ClassV):
            if name == "__members__" and o.enum is not None:
                return self.mkdict([(m.attrs["name"], m) for m in o.enum])
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                return v
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__module__":
                return o.module
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__doc__":
                return None
            if o.enum is not None:
                for m in o.enum:
                    if m.attrs["name"] == name:
                        return m
            m = self.method(o.kind, name)
            if m is not None:
                return m
            if name == "__new__":
                return Builtin(lambda I, c, *a, **k: I.bare(c, a), "__new__")
            if name == "__init__":
                return Builtin(lambda I, s, *a, **k: None, "__init__")
            if name == "__eq__":
                return Builtin(lambda I, x, y: x is y, "__eq__")
            if name == "__hash__":
                return Builtin(lambda I, x: I.hash(x), "__hash__")
            if name == "mro":
                return Builtin(lambda I: I.mklist(o.mro), "mro")
            return NULL
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            if o.path is None:
                return Unmodelled(o.name + "." + name)
            sub = self.load(o.name + "." + name) if o.path.endswith("__init__.py") else None
            return NULL if sub is None else sub
        if isinstance(o, SuperV):
            obj = o.obj
            cls = obj if isinstance(obj, ClassV) else obj.cls
            mro = cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(obj, ClassV):
                        if isinstance(v, ClassM):
                            return Bound(v.f, obj)
                        return v.f if isinstance(v, StaticM) else v
                    return self.bind(v, obj, cls)
            m = self.method(cls.kind, name)
            if m is not None:
                return Bound(m, obj)
            if name == "__init__":
                if cls.sub(self.B["BaseException"]):
                    def init(I, *a, **k):
                        obj.attrs["args"] = tuple(a)
                    return Builtin(init, "exc.__init__")
                return Builtin(lambda I, *a, **k: None, "object.__init__")
            if name == "__new__":
                return Builtin(lambda I, c, *a, **k: I.bare(c, a), "__new__")
            if name == "__setattr__":
                return Builtin(lambda I, n, v: I.raw_setattr(obj, n, v), "__setattr__")
            if name == "__eq__":
                return Builtin(lambda I, x: obj is x, "__eq__")
            if name == "__hash__":
                return Builtin(lambda I: ("id", id(obj)), "__hash__")
            if name in ("__repr__", "__str__"):
                return Builtin(lambda I: "<object>", name)
            return NULL
        if isinstance(o, Ext):
            if isinstance(o, Fin):
                return FinAttr(o, name)
            return o.sa_getattr(self, name)
        if isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name if name == "__name__" else o.qual
            if name == "__doc__":
                return None
            if name == "__defaults__":
                return tuple(o.defaults)
            if name == "__get__":
                return Builtin(lambda I, obj, c=None: Bound(o, obj), "__get__")
            return NULL
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.f
            return self._getattr(o.f, name)
        if isinstance(o, Builtin):
            if name == "__name__":
                return o.name
            return NULL
        if isinstance(o, Prop):
            if name == "setter":
                return Builtin(lambda I, f: Prop(o.fget, f, o.fdel), "setter")
            if name == "getter":
                return Builtin(lambda I, f: Prop(f, o.fset, o.fdel), "getter")
            if name == "deleter":
                return Builtin(lambda I, f: Prop(o.fget, o.fset, f), "deleter")
            return NULL
        k = self.type_of(o).kind
        m = self.method(k, name)
        if m is not None:
            return Bound(m, o)
        if name == "__class__":
            return self.type_of(o)
        return NULL

    def bare(self, cls, args=()):
        o = self.new(cls)
        if cls.kind == "list":
            o.data = []
        elif cls.kind in ("dict", "set"):
            o.data = DictData()
        elif cls.kind in ("str", "tuple", "int", "float", "frozenset"):
            o.data = self.ctor[cls.kind](self, *args)
        return o

    def method(self, kind, name):
        while kind is not None:
            t = self.methods.get(kind)
            if t is None:
                return None
            m = t.get(name)
            if m is not None:
                return m
            kind = {"bool": "int", "frozenset": "set", "defaultdict": "dict"}.get(kind)
        return None

    def raw_setattr(self, o, name, v):
        old = o.attrs.get(name, NULL)
        self.touch(o, "." + name + " =")
        o.attrs[name] = v

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            d, owner = o.cls.lookup(name)
            if isinstance(d, Prop):
                if d.fset is None:
                    raise self.exc("AttributeError", "can't set attribute")
                self.call(d.fset, [o, v])
                return
            sa, _ = o.cls.lookup("__setattr__")
            if sa is not None:
                self.call(sa, [o, name, v])
                return
            if o.cls.enum is not None:
                raise self.exc("AttributeError", "enum member")
            if o.cls.kind in ("list", "dict", "set", "str", "tuple") and \
                    o.cls is self.B.get(o.cls.kind):
                raise self.exc("AttributeError", "no attribute " + name)
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, (ClassV, ModV)):
            self.touch(o, "." + name + " =")
            o.ns[name] = v
            return
        if isinstance(o, FuncV):
            self.path.events.append(("persist", o, "." + name, self.where()))
            o.attrs[name] = v
            return
        if isinstance(o, Ext) and hasattr(o, "sa_setattr"):
            return o.sa_setattr(self, name, v)
        if isinstance(o, SuperV):
            return self.raw_setattr(o.obj, name, v)
        raise self.exc("AttributeError", "can't set attribute %s" % name)

    def delattr(self, o, name):
        if isinstance(o, Inst):
            if name not in o.attrs:
                raise self.exc("AttributeError", name)
            self.touch(o, "del ." + name)
            del o.attrs[name]
            return
        if isinstance(o, (ClassV, ModV)):
            self.touch(o, "del ." + name)
            if name not in o.ns:
                raise self.exc("AttributeError", name)
            del o.ns[name]
            return
        raise Imprecise("delattr")

    # ------------------------------------------------------------------ values
    def s(self, v):
        """the str payload of v or None"""
        if isinstance(v, str):
            return v
        if isinstance(v, Inst) and isinstance(v.data, str):
            return v.data
        return None

    def unwrap(self, v):
        if isinstance(v, Inst):
            if isinstance(v.data, (str, tuple, int, Num)) and not isinstance(v.data, bool):
                return v.data
            if v.cls.kind in ("str", "int") and "value" in v.attrs:
                return v.attrs["value"]
        return v

    def truth(self, v):
        if v is None or v is False:
            return False
        if v is True:
            return True
        if isinstance(v, int):
            return v != 0
        if isinstance(v, str):
            if v == "":
                return False
            if S.min_len(v) > 0:
                return True
            n = S.length(v)
            return not self.decide_eq0(lift(n).p)
        if isinstance(v, (tuple, bytes, range)):
            return len(v) > 0
        if isinstance(v, Num):
            return not self.decide_eq0(v.p)
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(m, [v]))
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(m, [v]))
            d = v.data
            if isinstance(d, list):
                return len(d) > 0
            if isinstance(d, DictData):
                return len(d.d) > 0
            if d is not None:
                return self.truth(d)
            return True
        if isinstance(v, Fin):
            return self.truth(self.fin_split_by(v, lambda x: self.truth(x)))
        if isinstance(v, Ext):
            return v.sa_truth(self)
        return True

    def hkey(self, k):
        """native key for plain constants, None when abstract"""
        if isinstance(k, str):
            return None if has_atoms(k) else ("s", k)
        if isinstance(k, bool):
            return ("n", int(k))
        if isinstance(k, int):
            return ("n", k)
        if k is None:
            return ("none",)
        if isinstance(k, tuple):
            ks = tuple(self.hkey(x) for x in k)
            return None if None in ks else ("t", ks)
        if isinstance(k, Num):
            if k.p.is_const():
                c = k.p.cval()
                return ("n", int(c) if c.denominator == 1 else c)
            return None
        if isinstance(k, (ClassV, FuncV, Builtin, ModV)):
            return ("o", id(k))
        if isinstance(k, Inst):
            if k.cls.enum is not None:
                return ("o", id(k))
            if isinstance(k.data, (str, int)) and k.cls.kind in ("str", "int"):
                return self.hkey(k.data)
            if k.cls.lookup("__eq__")[0] is None and k.data is None:
                return ("o", id(k))
            if isinstance(k.data, (list, DictData)) and k.cls.kind in ("list", "dict", "set"):
                raise self.exc("TypeError", "unhashable type: '%s'" % k.cls.name)
            if k.cls.kind == "tuple" and isinstance(k.data, tuple):
                return self.hkey(k.data)
            return None
        return None

    def skey(self, k):
        """key usable in DictData.d; abstract keys get an identity-ish key"""
        h = self.hkey(k)
        if h is not None:
            return h, False
        if isinstance(k, str):
            return ("a", k), True
        if isinstance(k, Num):
            return ("p", k.p.key()), True
        if isinstance(k, tuple):
            return ("T", tuple(self.skey(x)[0] for x in k)), True
        return ("i", id(k)), True

    def dict_find(self, d, k):
        """hkey of the entry equal to k, or None"""
        D = d.data
        if isinstance(k, Inst) and k.cls.lookup("__eq__")[0] is not None \
                and k.cls.enum is None:
            hm, ho = k.cls.lookup("__hash__")
            _, eo = k.cls.lookup("__eq__")
            if hm is None or (ho is not eo and k.cls.mro.index(eo) < k.cls.mro.index(ho)):
                raise self.exc("TypeError", "unhashable type: '%s'" % k.cls.name)
        key, sym = self.skey(k)
        if key in D.d:
            return key
        if not sym and not D.sym:
            return None
        for h, (kk, _) in list(D.d.items()):
            if not sym and h[0] not in ("a", "p", "T", "i"):
                continue
            if sym and isinstance(k, str) and self.s(kk) is None:
                continue
            if isinstance(k, Num) and not isinstance(kk, (int, Num)):
                continue
            if k is kk:
                return h
            if isinstance(k, Inst) and isinstance(kk, Inst):
                # hash lookup: equal only if hashes agree and __eq__ holds
                if self.eq(kk, k) and self.hash_agree(k, kk):
                    return h
                continue
            if self.eq(kk, k):
                return h
        return None

    def hash_agree(self, a, b):
        ha, hb = self.hash(a), self.hash(b)
        if ha == hb:
            return True
        if isinstance(ha, (int, Num)) and isinstance(hb, (int, Num)):
            return self.decide_eq0(lift(ha).p - lift(hb).p)
        return True

    def dict_get(self, d, k, default=NULL):
        if isinstance(k, Fin):
            return self.fin_map(lambda kk: self.dict_get(d, kk, default), k)
        ks = self.s(k)
        if ks is not None and len(ks) == 1 and is_atom(ks) and S.A(ks).kind == "fin":
            return self.fin_map(lambda kk: self.dict_get(d, kk, default), self.fin_of(ks))
        h = self.dict_find(d, k)
        if h is None:
            if default is NULL:
                raise self.exc("KeyError", k)
            return default
        return d.data.d[h][1]

    def dict_has(self, d, k):
        ks = self.s(k)
        if isinstance(k, Fin) or (ks is not None and len(ks) == 1 and is_atom(ks)
                                  and S.A(ks).kind == "fin"):
            f = k if isinstance(k, Fin) else self.fin_of(ks)
            return self.fin_map(lambda kk: self.dict_has(d, kk), f)
        return self.dict_find(d, k) is not None

    def dict_set(self, d, k, v):
        k = self.settle(k)
        h = self.dict_find(d, k)
        self.touch(d, "[...] =")
        if h is not None:
            d.data.d[h] = (d.data.d[h][0], v)
            return
        key, sym = self.skey(k)
        d.data.d[key] = (k, v)
        if sym:
            d.data.sym += 1

    def dict_del(self, d, k):
        k = self.settle(k)
        h = self.dict_find(d, k)
        if h is None:
            raise self.exc("KeyError", k)
        self.touch(d, "del [...]")
        v = d.data.d.pop(h)
        if h[0] in ("a", "p", "T", "i"):
            d.data.sym -= 1
        return v[1]

    def hash_varies(self, items):
        """the iteration order of a set of these depends on the hash seed"""
        return any(not isinstance(k, (bool, int, float, F, Num)) for k in items)

    def hash(self, v):
        """symbolic hash: structural"""
        if isinstance(v, Inst):
            if v.cls.enum is not None:
                return Num(Poly.atom(Atom.get("hash%s(%s.%s)" % (self.hseed, v.cls.name, v.attrs["name"]))), "int")
            m, mo = v.cls.lookup("__hash__")
            e, eo = v.cls.lookup("__eq__")
            if m is not None and (e is None or mo is eo or
                                  v.cls.mro.index(mo) <= v.cls.mro.index(eo)):
                return self.call(m, [v])
            if e is not None:
                raise self.exc("TypeError", "unhashable type: '%s'" % v.cls.name)
            if isinstance(v.data, (str, tuple, int, Num)):
                return self.hash(v.data)
            if isinstance(v.data, (list, DictData)):
                raise self.exc("TypeError", "unhashable type: '%s'" % v.cls.name)
            return ("id", id(v))
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Num):
            if v.p.is_const() and v.p.cval().denominator == 1:
                return int(v.p.cval())
            if v.kind == "int":
                return v
            for q in self.path.hashed:
                if q.key() == v.p.key():
                    break
            else:
                for q in self.path.hashed:
                    if prove_eq(self.path.facts, q - v.p):
                        v = Num(q, v.kind)
                        break
                else:
                    self.path.hashed.append(v.p)
            return Num(Poly.atom(Atom.get("hash(%s)" % v.p)), "int")
        if isinstance(v, str):
            return Num(Poly.atom(Atom.get("hash%s(%r)" % (self.hseed, S.show(v)))), "int")
        if isinstance(v, tuple):
            parts = []
            for x in v:
                h = self.hash(x)
                parts.append(repr(h.p) if isinstance(h, Num) else repr(h))
            return Num(Poly.atom(Atom.get("hash(%s)" % ",".join(parts))), "int")
        if v is None:
            return Num(Poly.atom(Atom.get("hash(None)")), "int")
        return ("id", id(v))

    # -------------------------------------------------------------- finite sets
    def finsym(self, name, values):
        """string drawn from the finite set `values` (all the same length)"""
        vals = sorted(set(values))
        if len(vals) == 1:
            return vals[0]
        self.path.dom.setdefault(name, list(vals))
        return self.fin_str(Fin((name,), {(v,): v for v in vals}))

    def fin_str(self, f):
        live = self.fin_live(f)
        vals = set(live.values())
        if len(vals) == 1:
            return vals.pop()
        if all(isinstance(x, str) for x in vals):
            ls = [len(x) for x in vals]
            key = "fin(%s:%s)" % (",".join(f.syms), hash(tuple(sorted(f.table.items()))))
            return S.satom(key, frozenset("".join(vals)), min(ls), max(ls), "fin", f)
        return f

    def fin_of(self, s):
        return S.A(s).arg

    def fin_live(self, f):
        doms = [set(self.path.dom[x]) for x in f.syms]
        return {k: v for k, v in f.table.items()
                if all(r in d for r, d in zip(k, doms))}

    def as_fin(self, v):
        if isinstance(v, Fin):
            return v
        s = self.s(v)
        if s is not None and len(s) == 1 and is_atom(s) and S.A(s).kind == "fin":
            return S.A(s).arg
        return None

    def fin_map(self, fn, *args):
        """apply fn pointwise over the finite symbols of args"""
        fins = [self.as_fin(a) for a in args]
        syms = []
        for f in fins:
            if f is not None:
                for x in f.syms:
                    if x not in syms:
                        syms.append(x)
        import itertools
        doms = [self.path.dom[x] for x in syms]
        n = 1
        for d in doms:
            n *= len(d)
        if n > 30000:
            raise Imprecise("finite product too large")
        table, excs = {}, {}
        for combo in itertools.product(*doms):
            m = dict(zip(syms, combo))
            vals = []
            skip = False
            for a, f in zip(args, fins):
                if f is None:
                    vals.append(a)
                else:
                    k = tuple(m[x] for x in f.syms)
                    if k not in f.table:
                        skip = True
                        break
                    vals.append(f.table[k])
            if skip:
                continue
            try:
                table[combo] = fn(*vals)
            except PyExc as e:
                excs[combo] = e
        if excs:
            if not table:
                raise next(iter(excs.values()))
            groups = {}
            for c, e in excs.items():
                groups.setdefault(e.inst.cls.name, []).append(c)
            names = [None] + sorted(groups)
            if len(syms) > 1:
                # split one symbol fully first
                return self.fin_map(fn, *[self.split_sym(a, syms) for a in args])
            i = self.choose(len(names), "finite %s raises?" % syms[0])
            if names[i] is None:
                self.restrict(syms[0], [c[0] for c in table])
            else:
                g = groups[names[i]]
                self.restrict(syms[0], [c[0] for c in g])
                raise excs[g[0]]
        return self.fin_norm(Fin(tuple(syms), table))

    def split_sym(self, a, syms):
        f = self.as_fin(a)
        if f is None:
            return a
        return self.settle(a)

    def fin_norm(self, f):
        vals = list(f.table.values())
        first = vals[0]
        if isinstance(first, (str, int, type(None))) or isinstance(first, tuple):
            if all(type(v) is type(first) and v == first for v in vals):
                return first
        elif all(v is first for v in vals):
            return first
        if all(isinstance(v, str) and not has_atoms(v) for v in vals):
            return self.fin_str(f)
        return f

    def canon(self, s):
        """finite pieces in terms of the values still possible"""
        out = []
        for c in s:
            if is_atom(c) and S.A(c).kind == "fin":
                f = S.A(c).arg
                live = self.fin_live(f)
                if len(live) < len(f.table):
                    c = self.fin_str(Fin(f.syms, live))
            out.append(c)
        return "".join(out)

    def restrict(self, sym, raws):
        keep = set(raws)
        self.path.dom[sym] = [r for r in self.path.dom[sym] if r in keep]
        if not self.path.dom[sym]:
            raise Abort()

    def fin_split_by(self, f, key):
        """partition the domain by key(value); returns a representative"""
        live = self.fin_live(f)
        groups = {}
        for k, v in live.items():
            groups.setdefault(key(v), []).append((k, v))
        ks = sorted(groups, key=repr)
        if len(ks) == 1:
            return groups[ks[0]][0][1]
        if len(f.syms) > 1:
            # split the first symbol fully
            x = f.syms[0]
            doms = self.path.dom[x]
            i = self.choose(len(doms), "finite %s" % x)
            self.restrict(x, [doms[i]])
            return self.fin_split_by(f, key)
        i = self.choose(len(ks), "finite %s by %s" % (f.syms[0], ks))
        self.restrict(f.syms[0], [k[0] for k, _ in groups[ks[i]]])
        return groups[ks[i]][0][1]

    def split(self, v):
        """concretise a finite value (one branch per distinct value)"""
        f = self.as_fin(v)
        if f is None:
            return v
        return self.fin_split_by(f, lambda x: repr(x))

    def settle(self, v):
        if isinstance(v, Fin):
            return self.split(v)
        return v

    # ------------------------------------------------------------- comparison
    def eq(self, a, b):
        if a is b and not isinstance(a, Fin):
            return True
        if isinstance(a, Fin) or isinstance(b, Fin):
            return self.truth(self.fin_map(lambda x, y: self.eq(x, y), a, b))
        if isinstance(a, Inst):
            m, _ = a.cls.lookup("__eq__")
            if m is not None and a.cls.enum is None:
                r = self.call(m, [a, b])
                if r is not NotImpl:
                    return self.truth(r)
                return False
        if isinstance(b, Inst):
            m, _ = b.cls.lookup("__eq__")
            if m is not None and b.cls.enum is None:
                r = self.call(m, [b, a])
                if r is not NotImpl:
                    return self.truth(r)
                return False
        sa, sb = self.s(a), self.s(b)
        if sa is not None and sb is not None:
            return self.str_eq(sa, sb)
        a, b = self.unwrap(a), self.unwrap(b)
        if isinstance(a, (int, Num)) and isinstance(b, (int, Num)):
            return self.decide_eq0(lift(a).p - lift(b).p)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, Inst) and isinstance(b, Inst):
            if isinstance(a.data, list) and isinstance(b.data, list):
                return len(a.data) == len(b.data) and all(
                    self.eq(x, y) for x, y in zip(a.data, b.data))
            if isinstance(a.data, DictData) and isinstance(b.data, DictData):
                if len(a.data.d) != len(b.data.d):
                    return False
                isd = a.cls.kind == "dict"
                for h, (k, v) in list(a.data.d.items()):
                    h2 = self.dict_find(b, k)
                    if h2 is None:
                        return False
                    if isd and not self.eq(v, b.data.d[h2][1]):
                        return False
                return True
            return False
        if isinstance(a, Ext):
            return a.sa_eq(self, b)
        if isinstance(b, Ext):
            return b.sa_eq(self, a)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.f is b.f and a.self is b.self
        if isinstance(a, (str, int, bytes, type(None), bool, range)) and \
                isinstance(b, (str, int, bytes, type(None), bool, range)):
            return type(a) is type(b) and a == b
        return False

    def str_eq(self, a, b):
        if a == b:
            return True
        if not has_atoms(a) and not has_atoms(b):
            return False
        fa, fb = self.as_fin(a), self.as_fin(b)
        if fa is not None or fb is not None:
            if (fa or not has_atoms(a)) and (fb or not has_atoms(b)):
                return self.truth(self.fin_map(lambda x, y: x == y, a, b))
        if not S.may_equal(a, b):
            return False
        # digit strings against constants of the same length
        if len(a) == len(b) and all(
                x == y or (is_atom(x) and S.A(x).kind == "digit" and not is_atom(y))
                or (is_atom(y) and S.A(y).kind == "digit" and not is_atom(x))
                for x, y in zip(a, b)):
            for x, y in zip(a, b):
                if x == y:
                    continue
                if not is_atom(x):
                    x, y = y, x
                if not self.decide_eq0(S.A(x).arg - Poly.const(int(y))):
                    return False
            return True
        # same shape, numeric pieces
        if len(a) == len(b) and all(x == y or (is_atom(x) and is_atom(y) and
                                    S.A(x).kind == S.A(y).kind == "fmt" and
                                    S.A(x).maxlen == S.A(y).maxlen)
                                    for x, y in zip(a, b)):
            return all(x == y or self.decide_eq0(S.A(x).arg - S.A(y).arg)
                       for x, y in zip(a, b))
        # one formatted number against digits
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and is_atom(x) and S.A(x).kind == "fmt" and \
                    y.isdigit() and not has_atoms(y):
                return self.decide_eq0(S.A(x).arg - Poly.const(int(y)))
        k = ("streq",) + tuple(sorted((a, b)))
        return self.fork(k, "%s == %s" % (S.show(a), S.show(b)))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Fin) or isinstance(b, Fin):
            return self.truth(self.fin_map(lambda x, y: self.is_(x, y), a, b))
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            return False
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return False

    def contains(self, c, x):
        if isinstance(c, Fin):
            return self.truth(self.fin_map(lambda cc: self.contains(cc, x), c))
        cs = self.s(c)
        if cs is not None:
            xs = self.s(x)
            if xs is None:
                f = self.as_fin(x)
                if f is None:
                    raise self.exc("TypeError", "'in <string>' requires string")
                return self.truth(self.fin_map(lambda v: self.contains(cs, v), x))
            return self.str_in(cs, xs)
        if self.as_fin(x) is not None:
            return self.truth(self.fin_map(lambda v: self._contains(c, v), x))
        return self._contains(c, x)

    def _contains(self, c, x):
        if isinstance(c, Inst):
            m, _ = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth(self.call(m, [c, x]))
            if isinstance(c.data, DictData):
                return self.dict_find(c, x) is not None
        if isinstance(c, range) and isinstance(x, Num):
            if c.step == 1:
                return self.decide_ge(x.p - Poly.const(c.start)) and \
                    self.decide_ge(Poly.const(c.stop - 1) - x.p)
        if isinstance(c, range):
            return x in c
        if isinstance(c, ClassV) and c.enum is not None:
            return any(self.is_(m, x) or self.eq(m.attrs["value"], x) for m in c.enum)
        for v in self.iterate(c, ordered=False):
            if v is x or self.eq(v, x):
                return True
        return False

    def str_in(self, cs, xs):
        if xs in cs:
            return True
        if not has_atoms(cs) and not has_atoms(xs):
            return False
        if self.as_fin(xs) is not None:
            return self.truth(self.fin_map(lambda v: self.str_in(cs, v), xs))
        if self.as_fin(cs) is not None:
            return self.truth(self.fin_map(lambda v: self.str_in(v, xs), cs))
        n, m = S.fixed_len(cs), S.fixed_len(xs)
        if n is not None and n == m:
            return self.str_eq(cs, xs)
        if not has_atoms(xs):
            if not S.may_contain(cs, xs):
                return False
        else:
            if not has_atoms(cs):
                if S.min_len(xs) > len(cs):
                    return False
                if m is not None and not any(S.may_equal(cs[o:o + m], xs) for o in range(n - m + 1)):
                    return False
                if any(is_atom(c) and not (S.A(c).cs & set(cs)) and S.A(c).minlen
                       for c in xs):
                    return False
        return self.fork(("in", cs, xs), "%s in %s" % (S.show(xs), S.show(cs)[:80]))

    def lt(self, a, b):
        """a < b"""
        if isinstance(a, Fin) or isinstance(b, Fin):
            return self.truth(self.fin_map(lambda x, y: self.lt(x, y), a, b))
        if isinstance(a, Inst):
            m, _ = a.cls.lookup("__lt__")
            if m is not None:
                return self.truth(self.call(m, [a, b]))
        if isinstance(b, Inst):
            m, _ = b.cls.lookup("__gt__")
            if m is not None:
                return self.truth(self.call(m, [b, a]))
        a, b = self.unwrap(a), self.unwrap(b)
        if isinstance(a, (int, Num)) and isinstance(b, (int, Num)):
            return self.decide_ge(lift(b).p - lift(a).p, True)
        if isinstance(a, str) and isinstance(b, str):
            if not has_atoms(a) and not has_atoms(b):
                return a < b
            if a == b:
                return False
            return self.fork(("lt", a, b), "%s < %s" % (S.show(a), S.show(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if self.eq(x, y):
                    continue
                return self.lt(x, y)
            return len(a) < len(b)
        if isinstance(a, Inst) and isinstance(b, Inst) and isinstance(a.data, list) \
                and isinstance(b.data, list):
            return self.lt(tuple(a.data), tuple(b.data))
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls.kind in ("set", "frozenset"):
            return self.set_le(a, b) and len(a.data.d) < len(b.data.d)
        if isinstance(a, Ext) and hasattr(a, "sa_lt"):
            return a.sa_lt(self, b)
        raise self.exc("TypeError", "'<' not supported")

    def set_le(self, a, b):
        return all(self.dict_find(b, k) is not None for k, _ in list(a.data.d.values()))

    def le(self, a, b):
        if isinstance(a, Fin) or isinstance(b, Fin):
            return self.truth(self.fin_map(lambda x, y: self.le(x, y), a, b))
        if isinstance(a, Inst):
            m, _ = a.cls.lookup("__le__")
            if m is not None:
                return self.truth(self.call(m, [a, b]))
        if isinstance(b, Inst):
            m, _ = b.cls.lookup("__ge__")
            if m is not None:
                return self.truth(self.call(m, [b, a]))
        ua, ub = self.unwrap(a), self.unwrap(b)
        if isinstance(ua, (int, Num)) and isinstance(ub, (int, Num)):
            return self.decide_ge(lift(ub).p - lift(ua).p)
        if isinstance(ua, str) and isinstance(ub, str):
            if not has_atoms(ua) and not has_atoms(ub):
                return ua <= ub
            return ua == ub or self.lt(ua, ub)
        if isinstance(ua, tuple) and isinstance(ub, tuple):
            return self.eq(ua, ub) or self.lt(ua, ub)
        if isinstance(a, Inst) and a.cls.kind in ("set", "frozenset"):
            return self.set_le(a, b)
        if isinstance(a, Ext) and hasattr(a, "sa_lt"):
            return self.eq(a, b) or a.sa_lt(self, b)
        raise self.exc("TypeError", "'<=' not supported between %s and %s" %
                       (self.type_of(a).name, self.type_of(b).name))

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            if isinstance(a, Inst):
                m, _ = a.cls.lookup("__ne__")
                if m is not None:
                    return self.truth(self.call(m, [a, b]))
            return not self.eq(a, b)
        if t is ast.Lt:
            return self.lt(a, b)
        if t is ast.Gt:
            if isinstance(a, Inst):
                m, _ = a.cls.lookup("__gt__")
                if m is not None:
                    return self.truth(self.call(m, [a, b]))
            return self.lt(b, a)
        if t is ast.LtE:
            return self.le(a, b)
        if t is ast.GtE:
            if isinstance(a, Inst):
                m, _ = a.cls.lookup("__ge__")
                if m is not None:
                    return self.truth(self.call(m, [a, b]))
            return self.le(b, a)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.contains(b, a)
        raise Imprecise("compare")

    # -------------------------------------------------------------- arithmetic
    OPM = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__",
           "Div": "__truediv__", "FloorDiv": "__floordiv__", "Mod": "__mod__",
           "Pow": "__pow__", "BitAnd": "__and__", "BitOr": "__or__",
           "BitXor": "__xor__", "LShift": "__lshift__", "RShift": "__rshift__"}
    ROPM = {k: "__r" + v[2:] for k, v in OPM.items()}

    def binop(self, op, a, b, inplace=False):
        t = op if isinstance(op, str) else type(op).__name__
        if isinstance(a, Fin) or isinstance(b, Fin):
            return self.fin_map(lambda x, y: self.binop(t, x, y), a, b)
        if isinstance(a, Inst):
            if inplace:
                m, _ = a.cls.lookup("__i" + self.OPM[t][2:])
                if m is not None:
                    return self.call(m, [a, b])
            m, _ = a.cls.lookup(self.OPM[t])
            if m is not None:
                r = self.call(m, [a, b])
                if r is not NotImpl:
                    return r
        if isinstance(b, Inst):
            m, _ = b.cls.lookup(self.ROPM[t])
            if m is not None:
                r = self.call(m, [b, a])
                if r is not NotImpl:
                    return r
        if isinstance(a, Ext) and hasattr(a, "sa_binop"):
            return a.sa_binop(self, t, b, False)
        if isinstance(b, Ext) and hasattr(b, "sa_binop"):
            return b.sa_binop(self, t, a, True)
        sa, sb = self.s(a), self.s(b)
        if sa is not None:
            if t == "Add":
                if sb is None:
                    raise self.exc("TypeError", "can only concatenate str")
                return sa + sb
            if t == "Mult":
                return self.str_mul(sa, b)
            if t == "Mod":
                return self.percent(sa, b)
            raise self.exc("TypeError", "unsupported operand")
        if sb is not None:
            if t == "Mult":
                return self.str_mul(sb, a)
            raise self.exc("TypeError", "unsupported operand type(s) for %s: %s and str" %
                           (t, self.type_of(a).name))
        a, b = self.unwrap(a), self.unwrap(b)
        if isinstance(a, tuple):
            if t == "Add" and isinstance(b, tuple):
                return a + b
            if t == "Mult" and isinstance(b, int):
                return a * b
            raise self.exc("TypeError", "tuple operand")
        if isinstance(b, tuple) and t == "Mult" and isinstance(a, int):
            return a * b
        if isinstance(a, Inst) and isinstance(a.data, list):
            if t == "Add":
                if not (isinstance(b, Inst) and isinstance(b.data, list)):
                    if inplace:
                        self.touch(a, "+=")
                        a.data.extend(self.iterate(b))
                        return a
                    raise self.exc("TypeError", "can only concatenate list")
                if inplace:
                    self.touch(a, "+=")
                    a.data.extend(list(b.data))
                    return a
                return self.mklist(a.data + b.data)
            if t == "Mult":
                n = self.index(b)
                return self.mklist(a.data * n)
        if isinstance(b, Inst) and isinstance(b.data, list) and t == "Mult":
            return self.mklist(b.data * self.index(a))
        if isinstance(a, Inst) and isinstance(a.data, DictData) and \
                isinstance(b, Inst) and isinstance(b.data, DictData):
            if a.cls.kind == "dict":
                if t == "BitOr":
                    if inplace:
                        for k, v in list(b.data.d.values()):
                            self.dict_set(a, k, v)
                        return a
                    r = self.mkdict(list(a.data.d.values()))
                    for k, v in list(b.data.d.values()):
                        self.dict_set(r, k, v)
                    return r
            else:
                ka = [k for k, _ in a.data.d.values()]
                kb = [k for k, _ in b.data.d.values()]
                if t == "BitOr":
                    r = ka + kb
                elif t == "BitAnd":
                    r = [k for k in ka if self.dict_find(b, k) is not None]
                elif t == "Sub":
                    r = [k for k in ka if self.dict_find(b, k) is None]
                elif t == "BitXor":
                    r = [k for k in ka if self.dict_find(b, k) is None] + \
                        [k for k in kb if self.dict_find(a, k) is None]
                else:
                    raise self.exc("TypeError", "set operand")
                if inplace:
                    ns = self.mkset(r)
                    self.touch(a, t + "=")
                    a.data = ns.data
                    return a
                return self.mkset(r)
        if isinstance(a, bytes) and isinstance(b, bytes) and t == "Add":
            return a + b
        if isinstance(a, (int, Num)) and isinstance(b, (int, Num)):
            return self.arith(t, a, b)
        raise self.exc("TypeError", "unsupported operand type(s) for %s: %s and %s" %
                       (t, self.type_of(a).name, self.type_of(b).name))

    def str_mul(self, s, n):
        n = self.settle(n)
        if isinstance(n, bool):
            n = int(n)
        if isinstance(n, int):
            return s * n
        if isinstance(n, Num) and n.kind == "int":
            if n.p.is_const():
                return s * int(n.p.cval())
            raise Imprecise("symbolic string repetition")
        raise self.exc("TypeError", "can't multiply sequence by non-int")

    def index(self, n):
        n = self.settle(self.unwrap(n))
        if isinstance(n, bool):
            return int(n)
        if isinstance(n, int):
            return n
        if isinstance(n, Num) and n.kind == "int":
            if n.p.is_const():
                return int(n.p.cval())
            lo, hi = bounds(n.p)
            if lo is not None and hi is not None and hi - lo <= 64:
                vals = [v for v in range(int(lo), int(hi) + 1)
                        if feasible(relevant(self.path.facts, n.p) +
                                    [(n.p - Poly.const(v), False), (Poly.const(v) - n.p, False)])]
                if not vals:
                    raise Abort()
                v = vals[self.choose(len(vals), "value of %s" % n.p)]
                self.add_fact(n.p - Poly.const(v))
                self.add_fact(Poly.const(v) - n.p)
                return v
            raise Imprecise("symbolic index %s" % n.p)
        if isinstance(n, Num):
            raise self.exc("TypeError", "'float' object cannot be interpreted as an integer")
        if isinstance(n, Inst):
            m, _ = n.cls.lookup("__index__")
            if m is not None:
                return self.index(self.call(m, [n]))
        raise self.exc("TypeError", "indices must be integers")

    def fl_exact(self, p):
        """is the real number p exactly representable as a float?"""
        if not p.is_int():
            if p.is_const():
                c = p.cval()
                return F(float(c)) == c
            return False
        lo, hi = bounds(p)
        return lo is not None and hi is not None and -2**53 <= lo and hi <= 2**53

    def mknum(self, p, kind, rnd=0):
        if kind == "int" and p.is_const() and p.cval().denominator == 1:
            return int(p.cval())
        self.prov[p.key()] = self.where()
        return Num(p, kind, rnd)

    def arith(self, t, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if t in ("Add", "Sub", "Mult", "FloorDiv", "Mod", "BitAnd", "BitOr",
                     "BitXor", "LShift", "RShift"):
                if t in ("FloorDiv", "Mod") and b == 0:
                    raise self.exc("ZeroDivisionError", "division by zero")
                r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                     "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                     "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                     "BitXor": lambda: a ^ b, "LShift": lambda: a << b,
                     "RShift": lambda: a >> b}[t]()
                return r
        x, y = lift(a), lift(b)
        kind = "float" if "float" in (x.kind, y.kind) else \
            "frac" if "frac" in (x.kind, y.kind) else "int"
        p, q = x.p, y.p

        def rx(v):
            if v.kind == "float":
                return v.rnd if v.rnd else (0 if self.fl_exact(v.p) or not v.p.is_const() else 1)
            return 0 if kind != "float" or self.fl_exact(v.p) else 1
        r1, r2 = rx(x), rx(y)

        def out(poly, k=kind, quotient=False):
            if k != "float":
                return self.mknum(poly, k)
            if r1 == 0 and r2 == 0:
                rnd = 0 if self.fl_exact(poly) else 1
            else:
                rnd = 2
            return Num(poly, k, rnd, (t, leaf(x), leaf(y)))

        def leaf(v):
            return v.e if v.e is not None else (v.kind, v.p)
        if t == "Add":
            return out(p + q)
        if t == "Sub":
            return out(p - q)
        if t == "Mult":
            return out(p * q)
        if t in ("Div", "FloorDiv", "Mod"):
            if q.is_const() and q.cval() == 0:
                raise self.exc("ZeroDivisionError", "division by zero")
            if not q.is_const() and not prove_ge(self.path.facts, q, True) and \
                    not prove_ge(self.path.facts, -q, True):
                if self.decide_eq0(q):
                    raise self.exc("ZeroDivisionError", "division by zero")
        if t == "Div":
            k = "float" if kind == "int" else kind
            d = p.div(q)
            if k == "float":
                def ex(v):
                    return v.rnd == 0 and (v.kind != "float" or True) and \
                        (self.fl_exact(v.p) or v.kind == "float" and not v.p.is_const())
                if ex(x) and ex(y):
                    rnd = 0 if self.fl_exact(d) else 1
                else:
                    rnd = 2
                return Num(d, k, rnd, (t, leaf(x), leaf(y)))
            return self.mknum(d, k)
        if t == "FloorDiv":
            fl = self.floor_num(x, y)
            return self.mknum(fl, "int" if kind in ("int", "frac") else kind)
        if t == "Mod":
            fl = self.floor_num(x, y)
            return out(p - q * fl)
        if t == "Pow":
            if q.is_const() and q.cval().denominator == 1:
                n = int(q.cval())
                if p.is_const():
                    v = p.cval() ** n if (p.cval() or n >= 0) else None
                    if v is None:
                        raise self.exc("ZeroDivisionError", "0 ** negative")
                    k = kind if n >= 0 or kind == "frac" else "float"
                    return self.mknum(Poly.const(v), k)
                if 0 <= n <= 4:
                    r = Poly.const(1)
                    for _ in range(n):
                        r = r * p
                    return out(r)
            raise Imprecise("power")
        if kind == "int":
            if t in ("LShift", "RShift") and q.is_const():
                k = 2 ** int(q.cval())
                return self.mknum(p.scale(k) if t == "LShift" else
                                  pfloor(p.scale(F(1, k)), self.path.facts), "int")
            raise Imprecise("bit operation on symbol")
        raise self.exc("TypeError", "unsupported operand")

    def floor_num(self, x, y):
        q = x.p.div(y.p)
        if "float" in (x.kind, y.kind) and (x.rnd > 1 or y.rnd > 1):
            return self.approx_floor(q, ("Div", x.e or (x.kind, x.p), y.e or (y.kind, y.p)))
        return pfloor(q, self.path.facts)

    def approx_floor(self, q, e=None):
        if q.is_const():
            from math import floor
            return Poly.const(floor(q.cval()))
        if self.exact_floats:
            # the check has declared rounding errors out of its scope
            return pfloor(q, self.path.facts)
        a = Atom.get("approxfloor(%s)%s" % (q, "" if e is None else "@" + repr(e)),
                     None, None, True, "approx", (q, e))
        lo, hi = bounds(q)
        a.lo = None if lo is None else F(int(lo) - 1)
        a.hi = None if hi is None else F(int(hi) + 1)
        if a.lo is not None and lo >= 0:
            a.lo = F(0)
        return Poly.atom(a)

    def to_int(self, v):
        """int(v) for numbers: truncation"""
        if isinstance(v, (bool, int)):
            return int(v)
        if v.kind == "int":
            return v
        p = v.p
        if v.kind == "float" and v.rnd > 1 and not p.is_const():
            return Num(self.approx_floor(p, v.e), "int")
        if v.kind == "float" and v.rnd == 1 and not self.quotient_safe(p) and not p.is_const():
            return Num(self.approx_floor(p, v.e), "int")
        if prove_ge(self.path.facts, p):
            return self.mknum(pfloor(p, self.path.facts), "int")
        if self.decide_ge(p):
            return self.mknum(pfloor(p, self.path.facts), "int")
        return self.mknum(-pfloor(-p, self.path.facts), "int")

    def quotient_safe(self, p):
        """a once-rounded quotient of exact integers floors exactly"""
        if not all(p.integral_mono(m) for m in p.t):
            return False
        d = 1
        for c in p.t.values():
            from math import gcd
            d = d * c.denominator // gcd(d, c.denominator)
        lo, hi = bounds(p.scale(d))
        return lo is not None and hi is not None and -2**53 < lo and hi < 2**53

    def unary(self, op, v):
        t = type(op).__name__
        if t == "Not":
            return not self.truth(v)
        if isinstance(v, Fin):
            return self.fin_map(lambda x: self.unary(op, x), v)
        if isinstance(v, Inst):
            m, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[t])
            if m is not None:
                return self.call(m, [v])
            v = self.unwrap(v)
        if isinstance(v, Ext) and hasattr(v, "sa_neg") and t == "USub":
            return v.sa_neg(self)
        if isinstance(v, (int, Num)):
            if t == "USub":
                if isinstance(v, int):
                    return -v
                return Num(-v.p, v.kind, v.rnd, None if v.e is None else ("Mult", ("int", Poly.const(-1)), v.e))
            if t == "UAdd":
                return +v if isinstance(v, int) else v
            if t == "Invert" and isinstance(v, int):
                return ~v
        raise self.exc("TypeError", "bad operand for unary")

    # ---------------------------------------------------------------- iterate
    def iterate(self, v, ordered=True):
        """python generator over the elements"""
        v = self.settle(v)
        if isinstance(v, str):
            for c in v:
                if is_atom(c):
                    a = S.A(c)
                    if (a.minlen, a.maxlen) != (1, 1):
                        if a.kind == "fin":
                            t = self.split(c)
                            yield from self.iterate(t)
                            continue
                        if not self.path.memo.get("chunked-iteration"):
                            raise Imprecise("iteration over %s" % a)
                yield c
            return
        if isinstance(v, (tuple, range)):
            yield from v
            return
        if isinstance(v, bytes):
            yield from v
            return
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__iter__")
            if m is not None:
                yield from self.iterate(self.call(m, [v]))
                return
            d = v.data
            if isinstance(d, list):
                i = 0
                while i < len(v.data):
                    yield v.data[i]
                    i += 1
                return
            if isinstance(d, DictData):
                items = [k for k, _ in d.d.values()]
                if v.cls.kind in ("set", "frozenset") and ordered and len(items) > 1:
                    self.path.events.append(("setorder", v, "iterates a set", self.where()))
                    if self.hseed and self.hash_varies(items):
                        items.reverse()
                yield from items
                return
            if isinstance(d, (str, tuple)):
                yield from self.iterate(d)
                return
            m, _ = v.cls.lookup("__next__")
            if m is not None:
                for _ in range(500):
                    try:
                        x = self.call(m, [v])
                    except PyExc as e:
                        if e.inst.cls.sub(self.B["StopIteration"]):
                            return
                        raise
                    yield x
                raise Imprecise("long iterator")
            m, _ = v.cls.lookup("__getitem__")
            if m is not None:
                for i in range(500):
                    try:
                        x = self.call(m, [v, i])
                    except PyExc as e:
                        if e.inst.cls.sub(self.B["IndexError"]):
                            return
                        raise
                    yield x
        if isinstance(v, Iter):
            yield from v.it
            return
        if isinstance(v, ClassV) and v.enum is not None:
            yield from v.enum
            return
        if isinstance(v, Ext) and hasattr(v, "sa_iter"):
            yield from v.sa_iter(self)
            return
        if isinstance(v, Unmodelled):
            raise Imprecise("iterate " + v.name)
        raise self.exc("TypeError", "'%s' object is not iterable" % self.type_of(v).name)

    def length(self, v):
        s = self.s(v)
        if s is not None and not (isinstance(v, Inst) and v.cls.lookup("__len__")[0]):
            f = self.as_fin(s)
            if f is not None:
                return self.fin_map(lambda x: len(x), s)
            return S.length(s)
        if isinstance(v, Fin):
            return self.fin_map(lambda x: self.length(x), v)
        if isinstance(v, (tuple, range, bytes)):
            return len(v)
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.call(m, [v])
            d = v.data
            if isinstance(d, (list, tuple)):
                return len(d)
            if isinstance(d, DictData):
                return len(d.d)
        if isinstance(v, ClassV) and v.enum is not None:
            return len(v.enum)
        if isinstance(v, Ext) and hasattr(v, "sa_len"):
            return v.sa_len(self)
        raise self.exc("TypeError", "object of type '%s' has no len()" % self.type_of(v).name)

    # -------------------------------------------------------------- subscripts
    def str_slice(self, s, sl):
        def idx(v):
            return None if v is None else self.index(v)
        lo, hi, st = idx(sl.start), idx(sl.stop), idx(sl.step)
        if not has_atoms(s):
            return s[lo:hi:st]
        f = self.as_fin(s)
        if f is not None:
            return self.fin_map(lambda x: x[lo:hi:st], s)
        if st not in (None, 1):
            if st == -1 and lo is None and hi is None and all(
                    not is_atom(c) or S.A(c).maxlen == 1 for c in s):
                return s[::-1]
            raise Imprecise("stepped slice")
        n = S.fixed_len(s)
        # positions: prefix lengths
        def pos(i, default):
            if i is None:
                return default
            return i
        lo = 0 if lo is None else lo
        if n is not None:
            hi = n if hi is None else hi
            if lo < 0:
                lo = max(0, n + lo)
            if hi < 0:
                hi = max(0, n + hi)
            hi = min(hi, n)
            return self.cut(s, lo, hi) if lo < hi else ""
        # open length: resolve from either end
        if hi is not None and hi >= 0 and lo >= 0:
            # s[lo:hi]: fine if prefix up to hi is fixed or total minimum >= ..
            return self.cut(self.prefix(s, hi), lo, None)
        a = self.drop(s, lo) if lo >= 0 else self.suffix(s, -lo)
        if hi is None:
            return a
        if hi < 0 and lo >= 0:
            # drop |hi| characters at the end
            r = self.drop_end(s, -hi)
            return self.drop(r, lo)
        raise Imprecise("slice of open string")

    def cut(self, s, lo, hi):
        """substring between fixed character offsets"""
        out, pos = [], 0
        for c in s:
            n = 1
            if is_atom(c):
                a = S.A(c)
                n = a.minlen
                if a.maxlen != a.minlen:
                    raise Imprecise("slice through %s" % a)
            b, e = pos, pos + n
            l, h = max(b, lo), e if hi is None else min(e, hi)
            if l < h:
                if l == b and h == e:
                    out.append(c)
                else:
                    out.append(self.cut_atom(c, l - b, h - b))
            pos = e
        return "".join(out)

    def cut_atom(self, c, i, j):
        a = S.A(c)
        if a.kind == "fmt" and a.minlen == a.maxlen and a.cs == S.DIGITS:
            w = a.minlen
            p = pfloor(a.arg.scale(F(1, 10 ** (w - j))), self.path.facts)
            if i > 0:
                k = 10 ** (j - i)
                p = p - pfloor(p.scale(F(1, k)), self.path.facts).scale(k)
            return self.fmt_int(Num(p, "int"), j - i)
        if a.kind == "fin":
            return self.fin_map(lambda x: x[i:j], c)
        if a.kind == "charrun":
            return a.arg(i, j)
        raise Imprecise("slice inside %s" % a)

    def prefix(self, s, n):
        """first n characters (as far as determinable)"""
        pos = 0
        for i, c in enumerate(s):
            if pos == n:
                return s[:i]
            k = 1
            if is_atom(c):
                a = S.A(c)
                if a.maxlen == a.minlen:
                    k = a.minlen
                else:
                    if a.maxlen is not None:
                        # whole rest fits?
                        mx = pos
                        for d in s[i:]:
                            if is_atom(d) and S.A(d).maxlen is None:
                                mx = None
                                break
                            mx += S.A(d).maxlen if is_atom(d) else 1
                        if mx is not None and mx <= n:
                            return s
                    if n - pos == 1 and a.minlen > 0:
                        return s[:i] + self.first_char(c)
                    raise Imprecise("prefix of open string %s" % S.show(s)[:60])
            if pos + k > n:
                return s[:i] + self.cut_atom(c, 0, n - pos)
            pos += k
        return s

    def drop(self, s, n):
        if n == 0:
            return s
        pos = 0
        for i, c in enumerate(s):
            k = 1
            if is_atom(c):
                a = S.A(c)
                if a.maxlen != a.minlen:
                    raise Imprecise("drop into open piece")
                k = a.minlen
            if pos + k > n:
                return self.cut_atom(c, n - pos, k) + s[i + 1:]
            pos += k
            if pos == n:
                return s[i + 1:]
        return ""

    def suffix(self, s, n):
        pos = 0
        for i in range(len(s) - 1, -1, -1):
            c = s[i]
            k = 1
            if is_atom(c):
                a = S.A(c)
                if a.maxlen != a.minlen:
                    if n - pos == 1 and a.minlen > 0:
                        return self.last_char(c) + s[i + 1:]
                    raise Imprecise("suffix of open piece")
                k = a.minlen
            if pos + k > n:
                return self.cut_atom(c, k - (n - pos), k) + s[i + 1:]
            pos += k
            if pos == n:
                return s[i:]
        return s

    def drop_end(self, s, n):
        if n == 0:
            return s
        pos = 0
        for i in range(len(s) - 1, -1, -1):
            c = s[i]
            k = 1
            if is_atom(c):
                a = S.A(c)
                if a.maxlen != a.minlen:
                    raise Imprecise("drop_end into open piece")
                k = a.minlen
            if pos + k > n:
                return s[:i] + self.cut_atom(c, 0, k - (n - pos))
            pos += k
            if pos == n:
                return s[:i]
        return ""

    def getitem(self, o, k):
        if isinstance(o, Fin):
            return self.fin_map(lambda x: self.getitem(x, k), o)
        if isinstance(o, Inst):
            m, _ = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(m, [o, k])
            return self.raw_getitem(o, k)
        if isinstance(o, ClassV):
            if o.enum is not None:
                for m in o.enum:
                    if self.eq(m.attrs["name"], k):
                        return m
                raise self.exc("KeyError", k)
            m, _ = o.lookup("__class_getitem__")
            return o
        if isinstance(o, Ext):
            if hasattr(o, "sa_getitem"):
                return o.sa_getitem(self, k)
            raise Imprecise("subscript of %s" % type(o).__name__)
        return self.raw_getitem(o, k)

    def raw_getitem(self, o, k):
        s = self.s(o)
        if s is not None:
            if isinstance(k, slice):
                return self.str_slice(s, k)
            i = self.index(k)
            n = S.fixed_len(s)
            if n is not None:
                if not -n <= i < n:
                    raise self.exc("IndexError", "string index out of range")
                if i < 0:
                    i += n
                return self.cut(s, i, i + 1) if has_atoms(s) else s[i]
            if i >= 0:
                t = self.drop(s, i)
                if t == "":
                    raise self.exc("IndexError", "string index out of range")
                if S.min_len(t) == 0:
                    raise Imprecise("index into open string")
                if is_atom(t[0]) and S.A(t[0]).maxlen != 1:
                    return self.first_char(t[0])
                return t[0]
            t = self.drop_end(s, -i - 1)
            if t == "":
                raise self.exc("IndexError", "string index out of range")
            if S.min_len(t) == 0:
                raise Imprecise("index into open string")
            if is_atom(t[-1]) and S.A(t[-1]).maxlen != 1:
                return self.last_char(t[-1])
            return t[-1]
        v = self.unwrap(o)
        if isinstance(v, Inst) and isinstance(v.data, list) or isinstance(v, (tuple, range)):
            d = v.data if isinstance(v, Inst) else v
            if isinstance(k, slice):
                sl = slice(*[None if x is None else self.index(x)
                             for x in (k.start, k.stop, k.step)])
                return self.mklist(d[sl]) if isinstance(v, Inst) else d[sl]
            k = self.unwrap(k)
            if isinstance(k, Fin):
                return self.fin_map(lambda kk: self.raw_getitem(o, kk), k)
            if isinstance(k, Num) and k.kind == "int" and not k.p.is_const():
                lo, hi = bounds(k.p)
                ys = self.table_lookup(d, k)
                if ys is not None:
                    return ys
            i = self.index(k)
            if not -len(d) <= i < len(d):
                raise self.exc("IndexError", "index out of range")
            return d[i]
        if isinstance(v, Inst) and isinstance(v.data, DictData):
            if isinstance(k, slice):
                raise self.exc("TypeError", "unhashable type: 'slice'")
            try:
                return self.dict_get(v, k)
            except PyExc as e:
                if e.inst.cls.name == "KeyError":
                    miss, _ = v.cls.lookup("__missing__")
                    if miss is not None:
                        return self.call(miss, [v, k])
                raise
        if isinstance(v, bytes):
            return v[self.index(k)]
        raise self.exc("TypeError", "'%s' object is not subscriptable" % self.type_of(o).name)

    def table_lookup(self, d, k):
        return None

    def first_char(self, c):
        a = S.A(c)
        return S.satom("%s[0]" % a.key, a.cs, 1, 1, "sub", c)

    def last_char(self, c):
        a = S.A(c)
        return S.satom("%s[-1]" % a.key, a.cs, 1, 1, "sub", c)

    def setitem(self, o, k, v):
        if isinstance(o, Inst):
            m, _ = o.cls.lookup("__setitem__")
            if m is not None:
                self.call(m, [o, k, v])
                return
            return self.raw_setitem(o, k, v)
        if isinstance(o, Ext) and hasattr(o, "sa_setitem"):
            return o.sa_setitem(self, k, v)
        raise self.exc("TypeError", "'%s' object does not support item assignment"
                       % self.type_of(o).name)

    def raw_setitem(self, o, k, v):
        if isinstance(o.data, list):
            self.touch(o, "[...] =")
            if isinstance(k, slice):
                sl = slice(*[None if x is None else self.index(x)
                             for x in (k.start, k.stop, k.step)])
                o.data[sl] = list(self.iterate(v))
                return
            i = self.index(k)
            if not -len(o.data) <= i < len(o.data):
                raise self.exc("IndexError", "list assignment index out of range")
            o.data[i] = v
            return
        if isinstance(o.data, DictData):
            self.dict_set(o, k, v)
            return
        raise self.exc("TypeError", "item assignment")

    def delitem(self, o, k):
        if isinstance(o, Inst):
            m, _ = o.cls.lookup("__delitem__")
            if m is not None:
                self.call(m, [o, k])
                return
            if isinstance(o.data, list):
                self.touch(o, "del [...]")
                if isinstance(k, slice):
                    sl = slice(*[None if x is None else self.index(x)
                                 for x in (k.start, k.stop, k.step)])
                    del o.data[sl]
                    return
                i = self.index(k)
                if not -len(o.data) <= i < len(o.data):
                    raise self.exc("IndexError", "list index out of range")
                del o.data[i]
                return
            if isinstance(o.data, DictData):
                self.dict_del(o, k)
                return
        raise self.exc("TypeError", "item deletion")

    # -------------------------------------------------------------- formatting
    def fmt_int(self, n, width):
        """decimal rendering padded with zeros to width"""
        if isinstance(n, Num) and n.p.is_const():
            n = int(n.p.cval())
        if isinstance(n, int):
            return "%0*d" % (width, n)
        lo, hi = bounds(n.p)
        facts = self.path.facts
        if lo is None or lo < 0:
            if prove_ge(facts, n.p):
                lo = F(0)
        if lo is not None and lo >= 0:
            mx = None
            for w in range(1, 21):
                if prove_ge(facts, Poly.const(10 ** w - 1) - n.p):
                    mx = w
                    break
            mn = 1
            w = 1
            while w < 20 and prove_ge(facts, n.p - Poly.const(10 ** w)):
                w += 1
            mn = w
            if mx is not None and mx < mn:
                mx = mn
            lo_len = max(mn, width)
            hi_len = None if mx is None else max(mx, width)
            if width <= mn:
                width = 0
            if hi_len is not None and hi_len == lo_len:
                width = hi_len
            return S.satom("dec(%s,%d|%s-%s)" % (n.p, width, lo_len, hi_len), S.DIGITS,
                           lo_len, hi_len, "fmt", n.p)
        return S.satom("dec(%s,%d)" % (n.p, width), S.DIGITS | {"-"},
                       max(1, width), None, "fmt", n.p)

    def fmt_float(self, n, nd):
        p = pround(n.p, nd, self.path.facts)
        if p.is_const():
            return ("%." + str(nd) + "f") % float(p.cval())
        k = p.scale(10 ** nd)
        if 0 < nd <= 3 and k.is_int():
            facts = self.path.facts
            sign = ""
            if not self.decide_ge(k):
                sign, k = "-", k.scale(-1)
            s = self.fmt_int(Num(pfloor(k.scale(F(1, 10 ** nd)), facts), "int"), 0) + "."
            for i in range(nd - 1, -1, -1):
                hi = pfloor(k.scale(F(1, 10 ** i)), facts)
                d = hi - pfloor(k.scale(F(1, 10 ** (i + 1))), facts).scale(10)
                if d.is_const():
                    s += str(int(d.cval()))
                else:
                    s += S.satom("[%s]" % d, S.DIGITS, 1, 1, "digit", d)
            return sign + s
        return S.satom("fix(%s,%d)" % (p, nd), S.NUMFMT, 1 + (nd + 1 if nd else 0),
                       None, "numtext", p)

    def grid(self, p, top=3):
        """least nd <= top such that 10**nd * p is an integer, or None"""
        for nd in range(top + 1):
            if p.scale(F(10) ** nd).is_int():
                return nd
        return None

    def fmt_minimal(self, p, nd):
        """shortest decimal text of p, a multiple of 10**-nd (no trailing zeros)"""
        if nd == 0:
            return self.fmt_int(Num(p, "int"), 0)
        t = self.callm(self.fmt_float(Num(p, "float"), nd), "rstrip", "0")
        return self.callm(t, "rstrip", ".")

    def fmt_general(self, p, prec):
        """'%.<prec>g' of p, or None when it cannot be expressed"""
        nd = self.grid(p)
        lo, hi = bounds(p)
        if nd is None or lo is None or hi is None or lo < 0 or prec < 1 or nd > 3:
            return None
        k = max(prec - nd, 0)
        if k > 0 and self.decide_ge(C_(F(10) ** k) - p, True):
            return self.fmt_minimal(p, nd)
        while k < prec:
            k += 1
            if hi < F(10) ** k or self.decide_ge(C_(F(10) ** k) - p, True):
                return self.fmt_minimal(pround(p, prec - k, self.path.facts), min(nd, prec - k))
        return None

    def str_of(self, v):
        if isinstance(v, Fin):
            return self.fin_map(lambda x: self.str_of(x), v)
        if isinstance(v, str):
            return v
        if v is None or isinstance(v, bool):
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, Num):
            if v.kind == "int":
                return self.fmt_int(v, 0)
            if v.kind == "float":
                if v.p.is_const():
                    return repr(float(v.p.cval()))
                if v.p.is_int():
                    return self.fmt_int(Num(v.p, "int"), 0) + ".0"
                nd = self.grid(v.p)
                lo, hi = bounds(v.p)
                if nd is not None and lo is not None and hi is not None and max(-lo, hi) < 10 ** 12:
                    r = self.fmt_minimal(v.p, nd)
                    return r if "." in r else r + ".0"
                return S.satom("repr(%s)" % v.p, S.NUMFMT, 1, None, "numtext", v.p)
            if v.p.is_const():
                return str(v.p.cval())
            return S.satom("frac(%s)" % v.p, S.NUMFMT | {"/"}, 1, None, "numtext", v.p)
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__str__")
            if m is not None:
                return self.call(m, [v])
            if isinstance(v.data, str):
                return v.data
            if v.cls.enum is not None:
                return "%s.%s" % (v.cls.name, v.attrs["name"])
            if v.cls.sub(self.B["BaseException"]):
                a = v.attrs.get("args", ())
                if len(a) == 1:
                    return self.str_of(a[0])
                return "" if not a else self.repr_of(a)
            return self.repr_of(v)
        return self.repr_of(v)

    def repr_of(self, v):
        if isinstance(v, str):
            if not has_atoms(v):
                return repr(v)
            q = '"' if "'" in v and '"' not in v else "'"
            return q + v.replace("\\", "\\\\").replace("\n", "\\n") + q
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__repr__")
            if m is not None:
                return self.call(m, [v])
            if v.cls.enum is not None:
                return "<%s.%s: %s>" % (v.cls.name, v.attrs["name"], self.repr_of(v.attrs["value"]))
            if isinstance(v.data, list):
                return "[" + ", ".join(self.repr_of(x) for x in v.data) + "]"
            if isinstance(v.data, DictData):
                if v.cls.kind == "dict":
                    return "{" + ", ".join("%s: %s" % (self.repr_of(k), self.repr_of(x))
                                           for k, x in v.data.d.values()) + "}"
                return "{" + ", ".join(self.repr_of(k) for k in self.iterate(v)) + "}"
            if v.data is not None:
                return self.repr_of(v.data)
            self.path.events.append(("idrepr", v, "identity-dependent repr", self.where()))
            self.idc += 1
            return "<%s object at 0x%x>" % (v.cls.name, self.idc)
        if isinstance(v, tuple):
            if len(v) == 1:
                return "(%s,)" % self.repr_of(v[0])
            return "(" + ", ".join(self.repr_of(x) for x in v) + ")"
        if isinstance(v, (int, Num, Fin)) or v is None:
            return self.str_of(v)
        if isinstance(v, ClassV):
            return "<class '%s'>" % v.name
        if isinstance(v, Ext) and hasattr(v, "sa_str"):
            return v.sa_str(self)
        if isinstance(v, (bytes, range)):
            return repr(v)
        raise Imprecise("repr of %r" % (v,))

    def format(self, v, spec):
        if has_atoms(spec):
            raise Imprecise("symbolic format spec")
        if isinstance(v, Fin):
            return self.fin_map(lambda x: self.format(x, spec), v)
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__format__")
            if m is not None:
                return self.call(m, [v, spec])
            if spec == "":
                return self.str_of(v)
            v = self.unwrap(v)
            if isinstance(v, Inst):
                raise self.exc("TypeError", "unsupported format string")
        if spec == "":
            return self.str_of(v)
        import re
        if isinstance(v, (bool, int)):
            try:
                return format(v, spec)
            except ValueError:
                raise self.exc("ValueError", "format spec")
        if isinstance(v, Num):
            m = re.fullmatch(r"(.?[<>=^])?([+\- ])?(0)?(\d*)(,)?(?:\.(\d+))?([a-zA-Z%]?)", spec)
            if not m:
                raise Imprecise("format spec " + spec)
            al, sign, zero, width, comma, prec, ty = m.groups()
            if sign in ("+", " ") or comma:
                raise Imprecise("format spec " + spec)
            width = int(width or 0)
            if v.kind == "int":
                if ty == "s":
                    raise self.exc("ValueError", "Unknown format code 's' for int")
                if ty in ("", "d", "n"):
                    if v.p.is_const():
                        return format(int(v.p.cval()), spec)
                    if zero and not al or (al and al[0] == "0" and al[1] in ">="):
                        return self.fmt_int(v, width)
                    s = self.fmt_int(v, 0)
                    if S.min_len(s) >= width:
                        return s
                    if width and not al:
                        raise Imprecise("space padded number")
                    raise Imprecise("format spec " + spec)
                if ty in ("x", "X", "o", "b", "c"):
                    if v.p.is_const():
                        return format(int(v.p.cval()), spec)
                    raise Imprecise("format spec " + spec)
            if v.kind != "int" and ty in ("d", "x", "c", "b", "o"):
                raise self.exc("ValueError", "Unknown format code '%s' for object of type 'float'" % ty)
            if v.kind != "int" and ty == "":
                if v.p.is_const() and v.kind == "float":
                    return format(float(v.p.cval()), spec)
                raise Imprecise("format spec %s of float" % spec)
            if ty in ("f", "F"):
                if v.p.is_const():
                    return format(float(v.p.cval()), spec)
                nd = 6 if prec is None else int(prec)
                s = self.fmt_float(v, nd)
                if width > S.min_len(s):
                    lo, hi = bounds(v.p)
                    if nd == 0 and zero:
                        return self.fmt_int(Num(pround(v.p, 0), "int"), width)
                    s = S.satom("pad%s(%s)" % (spec, v.p), S.NUMFMT, width, None,
                                "numtext", pround(v.p, nd))
                return s
            if ty in ("g", "e", "G", "E", "%"):
                if v.p.is_const():
                    return format(float(v.p.cval()), spec)
                if ty == "g" and not width and not zero:
                    r = self.fmt_general(v.p, 6 if prec is None else int(prec))
                    if r is not None:
                        return r
                return S.satom("fmt%s(%s)" % (spec, v.p), S.NUMFMT | {"%"}, 1, None,
                               "floattext", v.p)
            raise self.exc("ValueError", "format spec")
        s = self.s(v)
        if s is not None:
            m = re.fullmatch(r"(?:(.)?([<>^]))?(0)?(\d*)(?:\.(\d+))?s?", spec)
            if not m:
                raise self.exc("ValueError", "Invalid format specifier")
            if not has_atoms(s):
                return format(s, spec)
            fill, al, zero, width, prec = m.groups()
            if prec is not None:
                s = self.str_slice(s, slice(None, int(prec), None))
            width = int(width or 0)
            if S.min_len(s) < width:
                n = S.fixed_len(s)
                if n is None:
                    raise Imprecise("padding of open string")
                pad = (fill or ("0" if zero else " ")) * (width - n)
                s = pad + s if al == ">" else s + pad
                if al == "^":
                    raise Imprecise("centred string")
            return s
        if isinstance(v, Ext) and hasattr(v, "sa_format"):
            return v.sa_format(self, spec)
        raise self.exc("TypeError", "unsupported format string")

    def percent(self, fmt, arg):
        import re
        if has_atoms(fmt):
            # pieces may contain '%': assume charset excludes it
            if S.touches(fmt, "%"):
                raise Imprecise("symbolic % format")
        arg = self.unwrap(arg) if not isinstance(arg, Inst) or isinstance(arg.data, tuple) else arg
        args = list(arg) if isinstance(arg, tuple) else [arg]
        out, i = [], 0
        for m in re.finditer(r"%(?:\((\w+)\))?([-+ 0#]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])", fmt):
            out.append(fmt[i:m.start()])
            i = m.end()
            name, flags, width, prec, ty = m.groups()
            if ty == "%":
                out.append("%")
                continue
            if name is not None:
                v = self.getitem(arg, name)
            else:
                if not args:
                    raise self.exc("TypeError", "not enough arguments for format string")
                v = args.pop(0)
                if width == "*":
                    width = str(self.index(v))
                    v = args.pop(0)
            if ty in "di":
                v = self.unwrap(v)
                if not isinstance(v, (int, Num)):
                    raise self.exc("TypeError", "%d format: a number is required")
                v = self.to_int(v)
                out.append(self.format(v, ("0" if "0" in flags else "") + (width or "") + "d"))
            elif ty in "fF":
                v = self.unwrap(v)
                out.append(self.format(lift(v), ("0" if "0" in flags else "") + (width or "") +
                                       "." + (prec or "6") + "f"))
            elif ty == "s":
                s = self.str_of(v)
                if prec:
                    s = self.str_slice(s, slice(None, int(prec), None))
                if width:
                    s = self.format(s, ("<" if "-" in flags else ">") + width)
                out.append(s)
            elif ty == "r":
                out.append(self.repr_of(v))
            elif ty in "xX" and isinstance(v, int):
                out.append(("%" + flags + (width or "") + ty) % v)
            else:
                raise Imprecise("%%-format %s" % ty)
        out.append(fmt[i:])
        if args and not (len(args) == 1 and isinstance(arg, Inst) and isinstance(arg.data, DictData)):
            if fmt.count("%") == 0 or args:
                raise self.exc("TypeError", "not all arguments converted")
        return "".join(out)

    # ------------------------------------------------------------- name lookup
    def lookup(self, env, name):
        e = env
        fn = env.fn
        if not env.isclass and fn is not None and isinstance(fn, FuncV) and \
                name in fn.locals:
            if name in env.vars:
                return env.vars[name]
            ex = self.exc("UnboundLocalError", "local variable '%s'" % name)
            raise ex
        if name in env.vars and env.parent is None and not env.isclass:
            return env.vars[name]
        if env.isclass and name in env.vars:
            return env.vars[name]
        if fn is not None and isinstance(fn, FuncV) and name in fn.globs:
            e = None
        else:
            e = env.parent
            if fn is None and not env.isclass and name in env.vars:
                return env.vars[name]
        while e is not None:
            if not e.isclass and name in e.vars:
                return e.vars[name]
            e = e.parent
        g = env.mod.ns
        if name in g:
            return g[name]
        if name in self.B:
            return self.B[name]
        if hasattr(_builtins, name):
            raise Imprecise("builtin " + name)
        raise self.exc("NameError", "name '%s' is not defined" % name)

    def store(self, env, name, v):
        fn = env.fn
        if fn is not None and isinstance(fn, FuncV) and not env.isclass:
            if name in fn.globs:
                self.touch(env.mod, "global " + name)
                env.mod.ns[name] = v
                return
            if name in fn.nonl:
                e = env.parent
                while e is not None:
                    if not e.isclass and name in e.vars:
                        e.vars[name] = v
                        return
                    e = e.parent
        if env.fn is None and not env.isclass and env.parent is not None:
            # comprehension scope: walrus handled elsewhere
            env.vars[name] = v
            return
        env.vars[name] = v

    # -------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.node = st
        self.steps += 1
        if self.steps > 40_000_000:
            raise Imprecise("step budget")
        t = type(st)
        f = _DISP.get(t)
        if f is None:
            f = _DISP[t] = getattr(Interp, "s_" + t.__name__, Interp.s_unknown)
        f(self, st, env)

    def s_unknown(self, st, env):
        raise Imprecise("statement " + type(st).__name__)

    def s_Expr(self, st, env):
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)
        if env.isclass and isinstance(st.target, ast.Name):
            env.vars.setdefault("\0ann", []).append(st.target.id)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            r = self.binop(st.op, cur, self.eval(st.value, env), True)
            self.store(env, t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(st.op, cur, self.eval(st.value, env), True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(st.op, cur, self.eval(st.value, env), True))
        else:
            raise Imprecise("augassign")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(vals) < n:
                    raise self.exc("ValueError", "not enough values to unpack")
                k = len(vals) - n
                vals = vals[:i] + [self.mklist(vals[i:i + k])] + vals[i + k:]
            elif len(vals) != len(t.elts):
                raise self.exc("ValueError", "wrong number of values to unpack")
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        else:
            raise Imprecise("assign target")

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_While(self, st, env):
        n = 0
        while True:
            self.node = st
            c0 = len(self.path.choices)
            if not self.truth(self.eval(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            n += 1
            if n > 3000:
                raise Imprecise("loop bound at " + self.where())
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                pass

    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        for v in self.iterate(it):
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                pass
        self.exec_block(st.orelse, env)

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def s_Return(self, st, env):
        raise _Return(None if st.value is None else self.eval(st.value, env))

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise self.exc("RuntimeError", "No active exception to reraise")
            raise PyExc(cur)
        v = self.eval(st.exc, env)
        if isinstance(v, ClassV):
            v = self.instantiate(v, [], {})
        if st.cause is not None:
            self.eval(st.cause, env)
        if not (isinstance(v, Inst) and v.cls.sub(self.B["BaseException"])):
            if isinstance(v, Unmodelled):
                raise Imprecise("raise " + v.name)
            raise self.exc("TypeError", "exceptions must derive from BaseException")
        if v.loc is None:
            v.loc = self.where()
        raise PyExc(v)

    def s_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, env)
                        ts = list(t) if isinstance(t, tuple) else [t]
                        ok = False
                        for x in ts:
                            if isinstance(x, Unmodelled):
                                continue
                            if e.inst.cls.sub(x):
                                ok = True
                    if ok:
                        save = getattr(self, "cur_exc", None)
                        self.cur_exc = e.inst
                        try:
                            if h.name:
                                self.store(env, h.name, e.inst)
                            self.exec_block(h.body, env)
                            if h.name:
                                env.vars.pop(h.name, None)
                        finally:
                            self.cur_exc = save
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            import sys
            et = sys.exc_info()[0]
            if st.finalbody and not (et is not None and issubclass(et, (Imprecise, Abort))):
                self.exec_block(st.finalbody, env)

    def s_With(self, st, env):
        objs = []
        for it in st.items:
            o = self.eval(it.context_expr, env)
            r = self.callm(o, "__enter__")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, env)
            objs.append(o)
        try:
            self.exec_block(st.body, env)
        except PyExc as e:
            for o in reversed(objs):
                if self.truth(self.callm(o, "__exit__", e.inst.cls, e.inst, None)):
                    return
            raise
        except (_Return, _Break, _Continue):
            for o in reversed(objs):
                self.callm(o, "__exit__", None, None, None)
            raise
        for o in reversed(objs):
            self.callm(o, "__exit__", None, None, None)

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise self.exc("AssertionError")

    def s_Global(self, st, env):
        pass

    def s_Nonlocal(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            m = self.import_name(a.name)
            if a.asname:
                self.store(env, a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.store(env, top, self.import_name(top) if top != a.name else m)

    def s_ImportFrom(self, st, env):
        name = st.module or ""
        if st.level:
            pkg = env.mod.ns["__package__"]
            parts = pkg.split(".")
            parts = parts[:len(parts) - (st.level - 1)]
            name = ".".join(parts + ([st.module] if st.module else []))
        m = self.import_name(name)
        for a in st.names:
            if a.name == "*":
                allv = m.ns.get("__all__")
                names = list(self.iterate(allv)) if allv is not None else \
                    [n for n in m.ns if not n.startswith("_")]
                for n in names:
                    self.store(env, n, self.getattr(m, n))
                continue
            v = self._getattr(m, a.name)
            if v is NULL:
                sub = self.load(name + "." + a.name) if name.startswith("pycaption") else None
                if sub is None:
                    raise self.exc("ImportError", "cannot import name '%s'" % a.name)
                v = sub
            self.store(env, a.asname or a.name, v)

    def make_func(self, node, env, name):
        loc, globs, nonl, isgen = self._scan(node)
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults)
               if d is not None}
        qual = name
        if env.isclass:
            qual = env.vars.get("__qualname__", "") + "." + name
        elif env.fn is not None and isinstance(env.fn, FuncV):
            qual = env.fn.qual + "." + name
        for d in list(defaults) + list(kwd.values()):
            if isinstance(d, Inst) and d.tag is None and self.gen == 0 and \
                    isinstance(d.data, (list, DictData)):
                d.tag = None
        return FuncV(node=node, env=env, defaults=defaults, kwdefaults=kwd,
                     module=env.mod, qual=qual, name=name, locals=loc, isgen=isgen,
                     globs=globs, nonl=nonl)

    def _scan(self, node):
        r = getattr(node, "_sa", None)
        if r is None:
            r = node._sa = _local_names(node)
        return r

    def s_FunctionDef(self, st, env):
        f = self.make_func(st, env, st.name)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v])
        self.store(env, st.name, v)

    def s_AsyncFunctionDef(self, st, env):
        raise Imprecise("async")

    def s_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            v = self.eval(b, env)
            if isinstance(v, Unmodelled):
                v = self.opaque_class(v.name)
            bases.append(v)
        ns = {"__qualname__": st.name, "__module__": env.mod.name}
        cenv = Env(ns, env if env.fn is not None or env.isclass else None, env.mod,
                   env.fn if not env.isclass else None, True)
        cenv.parent = env if env.parent is not None or env.fn is not None else None
        for s in st.body:
            self.exec(s, cenv)
        self.finish_class(st, env, bases, ns)

    def finish_class(self, st, env, bases, ns):
        ann = ns.pop("\0ann", [])
        if not bases:
            bases = [self.B["object"]]
        c = ClassV(st.name, bases, ns, None, env.mod.name)
        if c.kind is None:
            c.kind = "object"
        c.gen = self.gen
        for b in c.mro[1:]:
            if b.fields is not None and c.fields is None:
                c.fields = b.fields
        ns["\0ann"] = ann

        def own(v):
            if isinstance(v, FuncV) and v.owner is None:
                v.owner = c
            elif isinstance(v, (StaticM, ClassM)):
                own(v.f)
            elif isinstance(v, Prop):
                for x in (v.fget, v.fset, v.fdel):
                    own(x)
        for v in list(ns.values()):
            own(v)
        for b in c.mro[1:]:
            if b.ns.get("\0enumbase"):
                c.enum = []
        if c.enum is not None:
            auto = 0
            for k in list(ns):
                v = ns[k]
                if k.startswith("_") or isinstance(v, (FuncV, StaticM, ClassM, Prop)) or k == "\0ann":
                    continue
                m = self.new(c)
                if isinstance(v, Ext) and getattr(v, "is_auto", False):
                    auto += 1
                    v = auto
                elif isinstance(v, int):
                    auto = v
                alias = None
                for e in c.enum:
                    if self.eq(e.attrs["value"], v):
                        alias = e
                if alias is not None:
                    ns[k] = alias
                    continue
                m.attrs = {"name": k, "value": v, "_name_": k, "_value_": v}
                if c.kind in ("str", "int"):
                    m.data = v
                c.enum.append(m)
                ns[k] = m
        if c.ns.get("\0nt") is None and any(b.ns.get("\0ntbase") for b in bases):
            c.fields = list(ann)
            c.kind = "tuple"
            c.ns["_field_defaults"] = {k: ns[k] for k in ann if k in ns}
            for k in ann:
                ns.pop(k, None)
        v = c
        isub, _ = (None, None)
        for b in c.mro[1:]:
            if "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                self.call(f.f if isinstance(f, ClassM) else f, [c], {})
                break
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v])
        self.store(env, st.name, v)

    def opaque_class(self, name):
        return ClassV(name, [self.B["object"]], {}, "object")

    def s_Match(self, st, env):
        subj = self.eval(st.subject, env)
        for c in st.cases:
            if self.match_pat(c.pattern, subj, env):
                if c.guard is not None and not self.truth(self.eval(c.guard, env)):
                    continue
                self.exec_block(c.body, env)
                return

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.store(env, p.name, v)
            return True
        if isinstance(p, ast.MatchSequence):
            u = self.unwrap(v)
            if isinstance(u, tuple):
                vals = list(u)
            elif isinstance(v, Inst) and isinstance(v.data, list):
                vals = list(v.data)
            else:
                return False
            stars = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if stars:
                i = stars[0]
                n = len(p.patterns) - 1
                if len(vals) < n:
                    return False
                k = len(vals) - n
                if p.patterns[i].name:
                    self.store(env, p.patterns[i].name, self.mklist(vals[i:i + k]))
                ps = p.patterns[:i] + p.patterns[i + 1:]
                vals = vals[:i] + vals[i + k:]
            else:
                ps = p.patterns
                if len(vals) != len(ps):
                    return False
            return all(self.match_pat(x, y, env) for x, y in zip(ps, vals))
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if not self.type_of(v).sub(c):
                return False
            if p.patterns:
                raise Imprecise("positional class pattern")
            return all(self.match_pat(x, self.getattr(v, a), env)
                       for a, x in zip(p.kwd_attrs, p.kwd_patterns))
        raise Imprecise("match pattern")

    # ------------------------------------------------------------- expressions
    def eval(self, e, env):
        t = type(e)
        f = _DISP.get(t)
        if f is None:
            f = _DISP[t] = getattr(Interp, "e_" + t.__name__, Interp.e_unknown)
        return f(self, e, env)

    def e_unknown(self, e, env):
        raise Imprecise("expression " + type(e).__name__)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return lift(v)
        if isinstance(v, complex):
            raise Imprecise("complex")
        return v

    def e_Name(self, e, env):
        return self.lookup(env, e.id)

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        name = e.attr
        if name.startswith("__") and not name.endswith("__"):
            name = self.mangle(name, env)
        return self.getattr(o, name)

    def mangle(self, name, env):
        return name

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_List(self, e, env):
        return self.mklist(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return self.mkset(self.elts(e.elts, env))

    def e_Dict(self, e, env):
        d = self.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, env)
                for kk in list(self.iterate(self.callm(m, "keys"))):
                    self.dict_set(d, kk, self.getitem(m, kk))
            else:
                kk = self.eval(k, env)
                self.dict_set(d, kk, self.eval(v, env))
        return d

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def e_UnaryOp(self, e, env):
        return self.unary(e.op, self.eval(e.operand, env))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, env)
            t = self.truth(v)
            if t != isand:
                return self.settle(v)
        return self.eval(e.values[-1], env)

    def e_Compare(self, e, env):
        a = self.eval(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r, env)
            v = self.compare(op, a, b)
            if not v:
                return False
            a = b
        return True

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        t = env
        while t.fn is None and not t.isclass and t.parent is not None:
            t = t.parent
        self.store(t, e.target.id, v)
        return v

    def e_Await(self, e, env):
        raise Imprecise("await")

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        t = env
        while "\0yield" not in t.vars:
            t = t.parent
        t.vars["\0yield"].append(v)
        if len(t.vars["\0yield"]) > 2000:
            raise Imprecise("long generator")
        return None

    def e_YieldFrom(self, e, env):
        t = env
        while "\0yield" not in t.vars:
            t = t.parent
        for v in self.iterate(self.eval(e.value, env)):
            t.vars["\0yield"].append(v)
        return None

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v, env)
                out.append(x if isinstance(x, str) else self.piece(x))
        return "".join(out)

    def piece(self, x):
        """a value as string inside a larger string"""
        if isinstance(x, str):
            return x
        if isinstance(x, Inst) and isinstance(x.data, str):
            return x.data
        x = self.settle(x)
        return x if isinstance(x, str) else self.str_of(x)

    def e_FormattedValue(self, e, env):
        v = self.eval(e.value, env)
        spec = "" if e.format_spec is None else self.eval(e.format_spec, env)
        if e.conversion == ord("r"):
            v = self.repr_of(v)
        elif e.conversion == ord("s"):
            v = self.str_of(v)
        elif e.conversion == ord("a"):
            raise Imprecise("!a")
        r = self.format(v, spec)
        return self.piece(r)

    def comp(self, gens, env, body):
        def rec(i, e):
            if i == len(gens):
                body(e)
                return
            g = gens[i]
            for v in self.iterate(self.eval(g.iter, e if i else env)):
                self.assign(g.target, v, e)
                if all(self.truth(self.eval(c, e)) for c in g.ifs):
                    rec(i + 1, e)
        ce = Env({}, env, env.mod, None)
        rec(0, ce)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda ce: out.append(self.eval(e.elt, ce)))
        return self.mklist(out)

    def e_SetComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda ce: out.append(self.eval(e.elt, ce)))
        return self.mkset(out)

    def e_DictComp(self, e, env):
        d = self.mkdict()

        def body(ce):
            k = self.eval(e.key, ce)
            self.dict_set(d, k, self.eval(e.value, ce))
        self.comp(e.generators, env, body)
        return d

    def e_GeneratorExp(self, e, env):
        return Iter(self.lazy_gen(e, env))

    def lazy_gen(self, e, env):
        gens = e.generators
        first = self.eval(gens[0].iter, env)
        ce = Env({}, env, env.mod, None)

        def rec(i):
            if i == len(gens):
                yield self.eval(e.elt, ce)
                return
            g = gens[i]
            for v in self.iterate(first if i == 0 else self.eval(g.iter, ce)):
                self.assign(g.target, v, ce)
                if all(self.truth(self.eval(c, ce)) for c in g.ifs):
                    yield from rec(i + 1)
        return rec(0)

    def e_Starred(self, e, env):
        raise Imprecise("starred")

    def e_Call(self, e, env):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            t = env
            while not (isinstance(t.fn, FuncV)):
                t = t.parent
            fn = t.fn
            while fn.owner is None and t.parent is not None:
                t = t.parent
                if isinstance(t.fn, FuncV):
                    fn = t.fn
            first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
            return SuperV(fn.owner, t.vars[first])
        f = self.eval(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                for kk in list(self.iterate(self.callm(v, "keys"))):
                    kw[self.s(kk)] = self.getitem(v, kk)
            else:
                kw[k.arg] = v
        save = self.node
        r = self.call(f, args, kw)
        self.node = save
        return r


class FinAttr(Ext):
    def __init__(self, f, name):
        self.f, self.name = f, name

    def sa_call(self, I, *args, **kw):
        return I.fin_map(lambda o, *a: I.call(I.getattr(o, self.name), list(a), kw),
                         self.f, *args)


class _NT(_collections.namedtuple("_NT", "")):
    pass


_REAL = {"function": _types.FunctionType, "NoneType": type(None), "Fraction": F,
         "defaultdict": _collections.defaultdict, "OrderedDict": _collections.OrderedDict,
         "Pattern": _re.Pattern, "Match": _re.Match, "timedelta": _datetime.timedelta,
         "DictView": type({}.keys()), "Iter": type(x for x in ())}


def real_has(I, o, name):
    """whether the Python object that o stands for has an attribute that is not modelled here"""
    ts = [object]
    if isinstance(o, ModV):
        ts = [_types.ModuleType]
        if name in ("__file__", "__path__", "__dict__", "__package__", "__spec__"):
            return True
    elif isinstance(o, (Bound, Builtin)):
        ts = [_types.MethodType, _types.BuiltinFunctionType, _types.FunctionType]
    elif isinstance(o, (StaticM, ClassM, Prop)):
        ts = [staticmethod, property]
    elif isinstance(o, SuperV) or isinstance(o, (Inst, ClassV)):
        c = o
        if isinstance(o, SuperV):
            c = o.obj
        if isinstance(c, ClassV):
            ts.append(type)
        else:
            c = c.cls
        for k in c.mro:
            for n in (k.kind, k.name if k.module in ("", None) else None):
                t = n and (_REAL.get(n) or getattr(_builtins, n, None))
                if isinstance(t, type):
                    ts.append(t)
            if k.fields is not None:
                ts.append(_NT)
            if k.enum is not None:
                ts += [_enum.Enum, _enum.EnumMeta]
                if name in ("name", "value", "_name_", "_value_", "names"):
                    return True
    else:
        for n in (I.type_of(o).name, type(o).__name__):
            t = _REAL.get(n) or getattr(_builtins, n, None)
            if isinstance(t, type):
                ts.append(t)
    return any(hasattr(t, name) for t in ts)


class Unmodelled(Ext):
    """a name of an unmodelled external module; using it is imprecise"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<unmodelled %s>" % self.name

    def sa_getattr(self, I, name):
        return Unmodelled(self.name + "." + name)

    def sa_call(self, I, *a, **k):
        raise Imprecise("call of unmodelled " + self.name)

    def sa_truth(self, I):
        raise Imprecise("truth of unmodelled " + self.name)

    def sa_eq(self, I, o):
        raise Imprecise("equality of unmodelled " + self.name)


class _NotImpl(Ext):
    def __repr__(self):
        return "NotImplemented"


NotImpl = _NotImpl()
