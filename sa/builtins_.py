"""Abstract semantics of Python builtins and of the methods of builtin types."""
from fractions import Fraction as F

from . import strs as S
from .strs import Imprecise, ParseFail, has_atoms, is_atom
from .num import Num, Poly, Atom, lift, pfloor, pround, bounds, prove_ge
from .interp import (ClassV, Inst, DictData, FuncV, Bound, Builtin, StaticM,
                     ClassM, Prop, ModV, SuperV, Ext, Iter, Fin, PyExc, NULL,
                     NotImpl, Unmodelled, Abort)

EXC = {
    "BaseException": "object", "Exception": "BaseException",
    "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "GeneratorExit": "BaseException",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception",
    "BufferError": "Exception", "EOFError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "MemoryError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError",
    "OSError": "Exception", "FileNotFoundError": "OSError",
    "ReferenceError": "Exception", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "SyntaxError": "Exception",
    "TypeError": "Exception", "ValueError": "Exception",
    "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError",
    "UnicodeEncodeError": "UnicodeError", "Warning": "Exception",
    "DeprecationWarning": "Warning", "UserWarning": "Warning",
    "FutureWarning": "Warning", "RuntimeWarning": "Warning",
    "PendingDeprecationWarning": "Warning",
}

WS = frozenset(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029")
LINES = frozenset("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")


class DictView(Ext):
    def __init__(self, d, mode):
        self.d, self.mode = d, mode

    def sa_iter(self, I):
        D = self.d.data
        n = len(D.d)
        i = 0
        for k, v in list(D.d.values()):
            if len(self.d.data.d) != n:
                raise I.exc("RuntimeError", "dictionary changed size during iteration")
            yield {"k": k, "v": v, "i": (k, v)}[self.mode]
            i += 1
        if len(self.d.data.d) != n:
            raise I.exc("RuntimeError", "dictionary changed size during iteration")

    def sa_len(self, I):
        return len(self.d.data.d)

    def sa_truth(self, I):
        return len(self.d.data.d) > 0

    def sa_binop(self, I, t, o, refl):
        a = I.mkset(list(self.sa_iter(I)))
        b = I.mkset(list(I.iterate(o)))
        return I.binop(t, b if refl else a, a if refl else b)

    def sa_eq(self, I, o):
        if isinstance(o, DictView) or isinstance(o, Inst):
            return I.eq(I.mkset(list(self.sa_iter(I))), I.mkset(list(I.iterate(o, ordered=False))))
        return False

    def sa_getattr(self, I, name):
        if name == "__len__":
            return Builtin(lambda I: self.sa_len(I), name)
        raise I.exc("AttributeError", name)

    def sa_str(self, I):
        return "dict_view(%s)" % ", ".join(I.repr_of(x) for x in self.sa_iter(I))


def install(I):
    B = I.B
    I.ctor = {}
    I.methods = {}
    obj = ClassV("object", [], {}, "object")
    B["object"] = obj

    def mk(name, bases=("object",), kind=None):
        c = ClassV(name, [B[b] for b in bases], {}, kind or name)
        B[name] = c
        return c
    for n in ("type", "int", "float", "str", "list", "dict", "set", "frozenset",
              "tuple", "NoneType", "bytes", "range", "function", "Fraction", "Decimal",
              "complex", "bytearray", "slice"):
        mk(n)
    mk("bool", ("int",), "bool")
    for n, b in EXC.items():
        B[n] = ClassV(n, [B[b]], {}, "object")
    B["IOError"] = B["OSError"]
    B["EnvironmentError"] = B["OSError"]

    def fn(name):
        def deco(f):
            B[name] = Builtin(f, name)
            return f
        return deco

    def fm(I, f, *a):
        """map over finite values"""
        return I.fin_map(f, *a)

    # ---------------------------------------------------------- constructors
    def c_int(I, x=0, base=None):
        x = I.unwrap(x) if not isinstance(x, Fin) else x
        if I.as_fin(x) is not None:
            return fm(I, lambda v: c_int(I, v, base), x)
        if isinstance(x, str):
            if base is not None:
                b = I.index(base)
                if not has_atoms(x):
                    try:
                        return int(x, b)
                    except ValueError:
                        raise I.exc("ValueError", "invalid literal for int() with base %d" % b)
                if b == 10:
                    return c_int(I, x)
                raise Imprecise("int() of symbolic string, base %d" % b)
            try:
                r = S.parse_int(I.expand_num(x))
                return I.mknum(r.p, "int") if isinstance(r, Num) else r
            except ParseFail:
                raise I.exc("ValueError", "invalid literal for int(): %s" % S.show(x))
        if isinstance(x, (int, Num)):
            return I.to_int(x)
        if isinstance(x, Inst):
            for m in ("__int__", "__index__", "__trunc__"):
                f, _ = x.cls.lookup(m)
                if f is not None:
                    return I.call(f, [x])
        raise I.exc("TypeError", "int() argument must be a string or a number")

    def c_float(I, x=0):
        x = I.unwrap(x) if not isinstance(x, Fin) else x
        if I.as_fin(x) is not None:
            return fm(I, lambda v: c_float(I, v), x)
        if isinstance(x, str):
            if x.strip().lower().lstrip("+-") in ("nan", "inf", "infinity"):
                raise Imprecise("non-finite float")
            try:
                return S.parse_float(I.expand_num(x), "float")
            except ParseFail:
                raise I.exc("ValueError", "could not convert string to float: %s" % S.show(x))
        if isinstance(x, (int, Num)):
            n = lift(x)
            if n.kind == "float":
                return n
            return Num(n.p, "float", 0 if I.fl_exact(n.p) or not n.p.is_const() else 1)
        if isinstance(x, Inst):
            f, _ = x.cls.lookup("__float__")
            if f is not None:
                return I.call(f, [x])
        raise I.exc("TypeError", "float() argument must be a string or a number")

    def c_str(I, x=NULL, *a, **k):
        if x is NULL:
            return ""
        if isinstance(x, bytes):
            if a or k:
                return x.decode()
            return repr(x)
        return I.str_of(x)

    def c_bool(I, x=False):
        return I.truth(x)

    def c_list(I, x=()):
        return I.mklist(list(I.iterate(x)))

    def c_tuple(I, x=()):
        return tuple(I.iterate(x))

    def dict_fill(I, d, args, kw):
        if args:
            src = args[0]
            if isinstance(src, Inst) and (isinstance(src.data, DictData) and src.cls.kind == "dict"):
                for k, v in list(src.data.d.values()):
                    I.dict_set(d, k, v)
            elif not isinstance(src, (str, tuple)) and I.getattr(src, "keys", None) is not None:
                for k in list(I.iterate(I.callm(src, "keys"))):
                    I.dict_set(d, k, I.getitem(src, k))
            else:
                for pair in I.iterate(src):
                    k, v = list(I.iterate(pair))
                    I.dict_set(d, k, v)
        for k, v in kw.items():
            I.dict_set(d, k, v)

    def c_dict(I, *args, **kw):
        d = I.mkdict()
        dict_fill(I, d, args, kw)
        return d

    def c_set(I, x=()):
        return I.mkset(list(I.iterate(x, ordered=False)))

    def c_frozenset(I, x=()):
        s = I.new(B["frozenset"], DictData())
        for k in list(I.iterate(x, ordered=False)):
            I.dict_set(s, k, None)
        return s

    def c_fraction(I, a=0, b=None):
        a = I.unwrap(a)
        if isinstance(a, str):
            try:
                n = S.parse_float(I.expand_num(a), "frac") if "/" not in a else None
            except ParseFail:
                raise I.exc("ValueError", "Invalid literal for Fraction")
            if n is None:
                x, y = a.split("/", 1)
                n = I.arith("Div", Num(lift(c_int(I, x)).p, "frac"), Num(lift(c_int(I, y)).p, "frac"))
        elif isinstance(a, (int, Num)):
            x = lift(a)
            if x.kind == "float" and x.rnd:
                raise Imprecise("Fraction of rounded float")
            n = Num(x.p, "frac")
        else:
            raise I.exc("TypeError", "Fraction argument")
        n = lift(n)
        if b is not None:
            return Num(lift(I.arith("Div", Num(n.p, "frac"), Num(lift(I.unwrap(b)).p, "frac"))).p, "frac")
        return Num(n.p, "frac")

    def c_decimal(I, a=0):
        a = I.unwrap(a)
        if isinstance(a, str):
            try:
                return S.parse_float(I.expand_num(a), "frac")
            except ParseFail:
                raise I.exc("ValueError", "InvalidOperation")
        return Num(lift(a).p, "frac")

    def c_range(I, *a):
        return range(*[I.index(x) for x in a])

    def c_bytes(I, *a):
        if not a:
            return b""
        if isinstance(a[0], str) and not has_atoms(a[0]):
            return a[0].encode("utf-8")
        if isinstance(a[0], bytes):
            return a[0]
        return bytes([I.index(x) for x in I.iterate(a[0])])

    def c_type(I, *a):
        if len(a) == 1:
            return I.type_of(a[0])
        name, bases, ns = a
        c = ClassV(name, list(bases) or [obj], {k: v for k, v in ns.data.d.values()})
        return c

    def c_slice(I, *a):
        return slice(*a)

    I.ctor.update({"int": c_int, "float": c_float, "str": c_str, "bool": c_bool,
                   "list": c_list, "tuple": c_tuple, "dict": c_dict, "set": c_set,
                   "frozenset": c_frozenset, "Fraction": c_fraction,
                   "Decimal": c_decimal, "range": c_range, "bytes": c_bytes,
                   "type": c_type, "slice": c_slice})

    def builtin_init(o, args, kw):
        k = o.cls.kind
        if k == "list":
            o.data = list(I.iterate(args[0])) if args else []
        elif k == "dict":
            dict_fill(I, o, args, kw)
        elif k == "set":
            for x in (list(I.iterate(args[0], ordered=False)) if args else []):
                I.dict_set(o, x, None)
    I.builtin_init = builtin_init

    def expand_num(x):
        """finite pieces inside numeric text are split"""
        if any(is_atom(c) and S.A(c).kind == "fin" for c in x):
            return "".join(I.split(c) if is_atom(c) and S.A(c).kind == "fin" else c for c in x)
        return x
    I.expand_num = expand_num

    # -------------------------------------------------------------- functions
    fn("len")(lambda I, x: I.length(x))

    @fn("print")
    def b_print(I, *a, **k):
        I.path.events.append(("print", None, "print", I.where()))

    @fn("enumerate")
    def b_enum(I, it, start=0):
        s = I.index(start)

        def g():
            for i, v in enumerate(I.iterate(it), s):
                yield (i, v)
        return Iter(g())

    @fn("zip")
    def b_zip(I, *its, strict=False):
        gens = [I.iterate(x) for x in its]

        def g():
            while gens:
                out = []
                for x in gens:
                    try:
                        out.append(next(x))
                    except StopIteration:
                        return
                yield tuple(out)
        return Iter(g())

    @fn("map")
    def b_map(I, f, *its):
        gens = [I.iterate(x) for x in its]
        return Iter(I.call(f, list(vs)) for vs in zip(*gens))

    @fn("filter")
    def b_filter(I, f, it):
        def g():
            for v in I.iterate(it):
                if I.truth(v if f is None else I.call(f, [v])):
                    yield v
        return Iter(g())

    def sort_list(I, vals, key=None, reverse=False):
        keyed = [(v if key is None else I.call(key, [v]), v) for v in vals]
        if I.truth(reverse):
            keyed.reverse()
        out = []
        for kv in keyed:
            i = len(out)
            while i > 0 and I.lt(kv[0], out[i - 1][0]):
                i -= 1
            out.insert(i, kv)
        r = [v for _, v in out]
        if I.truth(reverse):
            r.reverse()
        return r

    @fn("sorted")
    def b_sorted(I, it, key=None, reverse=False):
        return I.mklist(sort_list(I, list(I.iterate(it, ordered=False)), key, reverse))

    @fn("reversed")
    def b_reversed(I, x):
        if isinstance(x, Inst):
            m, _ = x.cls.lookup("__reversed__")
            if m is not None:
                return I.call(m, [x])
        return Iter(iter(list(I.iterate(x))[::-1]))

    def minmax(I, a, key, default, ismin):
        vals = list(I.iterate(a[0], ordered=False)) if len(a) == 1 else list(a)
        if not vals:
            if default is NULL:
                raise I.exc("ValueError", "arg is an empty sequence")
            return default
        best = vals[0]
        bk = best if key is None else I.call(key, [best])
        for v in vals[1:]:
            k = v if key is None else I.call(key, [v])
            if (I.lt(k, bk) if ismin else I.lt(bk, k)):
                best, bk = v, k
        return best
    fn("min")(lambda I, *a, key=None, default=NULL: minmax(I, a, key, default, True))
    fn("max")(lambda I, *a, key=None, default=NULL: minmax(I, a, key, default, False))

    @fn("sum")
    def b_sum(I, it, start=0):
        t = start
        for v in I.iterate(it, ordered=False):
            t = I.binop("Add", t, v)
        return t

    @fn("any")
    def b_any(I, it):
        for v in I.iterate(it, ordered=False):
            if I.truth(v):
                return True
        return False

    @fn("all")
    def b_all(I, it):
        for v in I.iterate(it, ordered=False):
            if not I.truth(v):
                return False
        return True

    @fn("abs")
    def b_abs(I, x):
        if isinstance(x, Inst):
            m, _ = x.cls.lookup("__abs__")
            if m is not None:
                return I.call(m, [x])
        x = I.unwrap(x)
        if isinstance(x, int):
            return abs(x)
        if not isinstance(x, Num):
            raise I.exc("TypeError", "bad operand type for abs()")
        return x if I.decide_ge(x.p) else Num(-x.p, x.kind, x.rnd)

    @fn("round")
    def b_round(I, x, nd=None):
        if isinstance(x, Fin):
            return fm(I, lambda v: b_round(I, v, nd), x)
        if isinstance(x, Inst):
            m, _ = x.cls.lookup("__round__")
            if m is not None:
                return I.call(m, [x] + ([nd] if nd is not None else []))
        x = I.unwrap(x)
        if not isinstance(x, (int, Num)):
            raise I.exc("TypeError", "round")
        n = 0 if nd is None else I.index(nd)
        x = lift(x)
        if x.kind == "int" and n >= 0:
            return I.mknum(x.p, "int")
        p = pround(x.p, n, I.path.facts)
        if nd is None:
            return I.mknum(p, "int")
        return Num(p, x.kind, 1 if x.kind == "float" else 0)

    @fn("isinstance")
    def b_isinstance(I, o, c):
        if isinstance(c, tuple):
            return any(b_isinstance(I, o, x) for x in c)
        if isinstance(c, Unmodelled):
            raise Imprecise("isinstance " + c.name)
        if not isinstance(c, ClassV):
            if isinstance(c, Builtin) or c is None:
                raise I.exc("TypeError", "isinstance() arg 2 must be a type")
            raise Imprecise("isinstance with %r" % (c,))
        if isinstance(o, Fin):
            return I.truth(fm(I, lambda v: b_isinstance(I, v, c), o))
        t = I.type_of(o)
        v = c.ns.get("\0virtual")
        if v is not None:
            return v(I, o, t)
        return t.sub(c)

    @fn("issubclass")
    def b_issub(I, a, c):
        if isinstance(c, tuple):
            return any(b_issub(I, a, x) for x in c)
        return a.sub(c)

    @fn("hasattr")
    def b_hasattr(I, o, n):
        n = I.s(n)
        if isinstance(o, Fin):
            o = I.settle(o)
        try:
            return I.getattr(o, n, None if False else NULL) is not NULL
        except PyExc as e:
            if e.inst.cls.sub(B["AttributeError"]):
                return False
            raise

    @fn("getattr")
    def b_getattr(I, o, n, default=NULL):
        n = I.split(n)
        n = I.s(n)
        if has_atoms(n):
            raise Imprecise("getattr with symbolic name")
        if isinstance(o, Fin):
            o = I.settle(o)
        try:
            return I.getattr(o, n)
        except PyExc as e:
            if default is not NULL and e.inst.cls.sub(B["AttributeError"]):
                return default
            raise
    fn("setattr")(lambda I, o, n, v: I.setattr(o, I.s(n), v))
    fn("delattr")(lambda I, o, n: I.delattr(o, I.s(n)))

    @fn("callable")
    def b_callable(I, x):
        if isinstance(x, (FuncV, Bound, Builtin, ClassV)):
            return True
        if isinstance(x, Inst):
            return x.cls.lookup("__call__")[0] is not None
        return isinstance(x, Ext) and hasattr(x, "sa_call")

    @fn("iter")
    def b_iter(I, x, sentinel=NULL):
        if sentinel is not NULL:
            def g():
                for _ in range(2000):
                    v = I.call(x)
                    if I.eq(v, sentinel):
                        return
                    yield v
                raise Imprecise("long iterator")
            return Iter(g())
        if isinstance(x, Iter):
            return x
        if isinstance(x, Inst):
            m, _ = x.cls.lookup("__iter__")
            if m is not None:
                return I.call(m, [x])
        if isinstance(x, (int, Num)) or x is None:
            raise I.exc("TypeError", "object is not iterable")
        return Iter(I.iterate(x))

    @fn("next")
    def b_next(I, it, default=NULL):
        if isinstance(it, Inst):
            m, _ = it.cls.lookup("__next__")
            if m is None:
                raise I.exc("TypeError", "not an iterator")
            try:
                return I.call(m, [it])
            except PyExc as e:
                if default is not NULL and e.inst.cls.sub(B["StopIteration"]):
                    return default
                raise
        if not isinstance(it, Iter):
            raise I.exc("TypeError", "object is not an iterator")
        try:
            return next(it.it)
        except StopIteration:
            if default is NULL:
                raise I.exc("StopIteration")
            return default

    @fn("divmod")
    def b_divmod(I, a, b):
        if isinstance(a, Ext) and hasattr(a, "sa_divmod"):
            return a.sa_divmod(I, b)
        return (I.binop("FloorDiv", a, b), I.binop("Mod", a, b))

    fn("pow")(lambda I, a, b: I.binop("Pow", a, b))
    fn("hash")(lambda I, x: I.hash(x))

    @fn("id")
    def b_id(I, x):
        I.path.events.append(("idrepr", x, "id()", I.where()))
        return Num(Poly.atom(Atom.get("id(%d)" % id(x))), "int")
    fn("repr")(lambda I, x: I.repr_of(x))
    fn("ascii")(lambda I, x: I.repr_of(x))
    fn("format")(lambda I, x, spec="": I.format(x, spec))

    @fn("ord")
    def b_ord(I, c):
        s = I.s(c)
        if I.as_fin(c) is not None:
            return fm(I, lambda v: ord(v), c)
        if s is None:
            raise I.exc("TypeError", "ord() expected string")
        if len(s) == 1 and is_atom(s):
            a = S.A(s)
            if (a.minlen, a.maxlen) == (1, 1):
                os_ = [ord(x) for x in a.cs]
                return Num(Poly.atom(Atom.get("ord(%s)" % a.key, min(os_), max(os_))), "int")
            raise Imprecise("ord of piece")
        if len(s) != 1:
            raise I.exc("TypeError", "ord() expected a character")
        return ord(s)

    @fn("chr")
    def b_chr(I, n):
        if isinstance(n, Fin):
            return fm(I, lambda v: b_chr(I, v), n)
        i = I.index(n)
        if not 0 <= i < 0x110000:
            raise I.exc("ValueError", "chr() arg not in range")
        return chr(i)
    fn("hex")(lambda I, n: fm(I, lambda v: hex(v), n) if isinstance(n, Fin) else hex(I.index(n)))
    fn("bin")(lambda I, n: fm(I, lambda v: bin(v), n) if isinstance(n, Fin) else bin(I.index(n)))
    fn("oct")(lambda I, n: oct(I.index(n)))

    @fn("super")
    def b_super(I, c=None, o=None):
        return SuperV(c, o)
    fn("property")(lambda I, fget=None, fset=None, fdel=None, doc=None: Prop(fget, fset, fdel))
    fn("staticmethod")(lambda I, f: StaticM(f))
    fn("classmethod")(lambda I, f: ClassM(f))

    @fn("vars")
    def b_vars(I, o):
        return I.getattr(o, "__dict__")

    @fn("dir")
    def b_dir(I, o=None):
        names = set()
        if isinstance(o, Inst):
            names |= set(o.attrs)
            for c in o.cls.mro:
                names |= set(c.ns)
        elif isinstance(o, ClassV):
            for c in o.mro:
                names |= set(c.ns)
        elif isinstance(o, ModV):
            names |= set(o.ns)
        return I.mklist(sorted(n for n in names if not n.startswith("\0")))

    @fn("input")
    def b_input(I, *a):
        raise Imprecise("input")

    @fn("open")
    def b_open(I, *a, **k):
        raise Imprecise("open")

    @fn("globals")
    def b_globals(I):
        raise Imprecise("globals()")
    fn("locals")(b_globals)
    B["NotImplemented"] = NotImpl
    B["Ellipsis"] = Unmodelled("Ellipsis")
    B["__debug__"] = True
    B["__name__"] = "builtins"

    # ------------------------------------------------------------ str methods
    M = I.methods

    def table(kind):
        return M.setdefault(kind, {})

    def meth(kind, *names):
        def deco(f):
            for n in names:
                table(kind)[n] = Builtin(f, "%s.%s" % (kind, n), True)
            return f
        return deco

    def sarg(x, what="str"):
        s = I.s(x)
        if s is None:
            if isinstance(x, Fin):
                v = I.split(x)
                s = I.s(v)
            if s is None:
                raise I.exc("TypeError", "must be str, not %s" % I.type_of(x).name)
        return s

    def smeth(*names):
        """string method taking the payload; finite receivers map pointwise"""
        def deco(f):
            def g(I, self, *a, **k):
                s = I.s(self)
                if s is None:
                    if isinstance(self, Fin):
                        return I.fin_map(lambda v, *aa: f(v, *aa, **k), self, *a)
                    raise I.exc("TypeError", "descriptor requires str")
                if I.as_fin(s) is not None and names[0] not in ("split", "rsplit", "splitlines") and \
                        not any(isinstance(x, (Inst, tuple)) for x in a):
                    return I.fin_map(lambda v, *aa: f(v, *aa, **k), s, *a)
                return f(s, *a, **k)
            for n in names:
                table("str")[n] = Builtin(g, "str." + n, True)
            return f
        return deco

    def rel(c, chars):
        """1 piece within chars, 0 disjoint, None overlapping"""
        cs = S.A(c).cs
        y = cs & chars
        if not y:
            return 0
        return 1 if len(y) == len(cs) else None

    def strip_l(s, chars):
        i = 0
        while i < len(s):
            c = s[i]
            if is_atom(c):
                r = rel(c, chars)
                if r == 0:
                    break
                if r is None:
                    if S.A(c).kind == "fin":
                        return strip_l(s[:i] + I.split(c) + s[i + 1:], chars)
                    if (S.A(c).minlen, S.A(c).maxlen) == (1, 1) and S.A(c).kind == "digit":
                        # e.g. lstrip("0")
                        v = S.A(c).arg
                        ds = [d for d in chars if d in S.DIGITS]
                        if any(I.decide_eq0(v - Poly.const(int(d))) for d in ds):
                            i += 1
                            continue
                        break
                    raise Imprecise("strip at %s" % S.A(c))
            elif c not in chars:
                break
            i += 1
        return s[i:]

    def chars_of(chars):
        if chars is None:
            return WS
        c = sarg(chars)
        if has_atoms(c):
            raise Imprecise("strip of symbolic characters")
        return frozenset(c)

    def strip_r(s, ch):
        return strip_l(s[::-1], ch)[::-1]
    smeth("strip")(lambda s, c=None: strip_r(strip_l(s, chars_of(c)), chars_of(c)))
    smeth("lstrip")(lambda s, c=None: strip_l(s, chars_of(c)))
    smeth("rstrip")(lambda s, c=None: strip_r(s, chars_of(c)))

    def literal_pat(s, p, what):
        """p is searched in s; make sure pieces cannot take part"""
        if has_atoms(p):
            if all(c in s or not is_atom(c) for c in p):
                return
            if not S.may_equal(p, p) or any(is_atom(c) and not any(
                    is_atom(d) and S.A(d).cs & S.A(c).cs for d in s) and
                    not (S.A(c).cs & set(x for x in s if not is_atom(x))) for c in p):
                return
            raise Imprecise("%s with symbolic pattern" % what)
        if S.may_contain(s, p):
            raise Imprecise("%s: %r may occur across pieces of %s" % (what, p, S.show(s)[:60]))

    def resolve(s, p):
        """split finite pieces that interact with p"""
        if any(is_atom(c) and S.A(c).kind == "fin" and S.A(c).cs & set(p) for c in s) \
                and S.may_contain(s, p):
            return "".join(I.split(c) if is_atom(c) and S.A(c).kind == "fin" and
                           S.A(c).cs & set(p) else c for c in s)
        return s

    @smeth("split")
    def m_split(s, sep=None, maxsplit=-1):
        n = I.index(maxsplit)
        if sep is None:
            out, cur = [], ""
            i = 0
            while i < len(s):
                c = s[i]
                ws = c in WS
                if is_atom(c):
                    r = rel(c, WS)
                    if r is None:
                        if S.A(c).kind == "fin":
                            return m_split(s[:i] + I.split(c) + s[i + 1:], None, n)
                        raise Imprecise("split at %s" % S.A(c))
                    ws = r == 1
                if ws:
                    if cur:
                        out.append(cur)
                        cur = ""
                        if n >= 0 and len(out) == n:
                            rest = strip_l(s[i:], WS)
                            if rest:
                                out.append(rest)
                            return I.mklist(out)
                elif n == 0 and not out:
                    out.append(strip_l(s, WS))
                    return I.mklist(out)
                else:
                    cur += c
                i += 1
            if cur:
                out.append(cur)
            return I.mklist(out)
        p = sarg(sep)
        if p == "":
            raise I.exc("ValueError", "empty separator")
        s = resolve(s, p)
        literal_pat(s, p, "split")
        return I.mklist(s.split(p, n))

    @smeth("rsplit")
    def m_rsplit(s, sep=None, maxsplit=-1):
        n = I.index(maxsplit)
        if n < 0:
            return m_split(s, sep)
        if sep is None:
            r = m_split(s[::-1], None, n)
            return I.mklist([x[::-1] for x in r.data][::-1])
        p = sarg(sep)
        literal_pat(s, p, "rsplit")
        return I.mklist(s.rsplit(p, n))

    @smeth("splitlines")
    def m_splitlines(s, keepends=False):
        k = I.truth(keepends)
        for i, c in enumerate(s):
            if is_atom(c) and rel(c, LINES) != 0:
                if S.A(c).kind == "fin":
                    return m_splitlines(s[:i] + I.split(c) + s[i + 1:], keepends)
                raise Imprecise("splitlines at %s" % S.A(c))
        return I.mklist(s.splitlines(k))

    @smeth("replace")
    def m_replace(s, old, new, count=-1):
        o, n = sarg(old), sarg(new)
        s = resolve(s, o)
        if S.may_contain(s, o) and not has_atoms(o):
            if len(o) == 1:
                # a piece that may contain the character becomes a transformed piece
                out = []
                for c in s:
                    if is_atom(c) and o in S.A(c).cs:
                        a = S.A(c)
                        out.append(S.satom("replace(%s,%r,%r)" % (a.key, o, n),
                                           (a.cs - {o}) | frozenset(n), 0 if not n else a.minlen,
                                           None, "replaced", (c, o, n)))
                    else:
                        out.append(n if c == o else c)
                return "".join(out)
            raise Imprecise("replace %r in %s" % (o, S.show(s)[:60]))
        literal_pat(s, o, "replace")
        return s.replace(o, n, I.index(count))

    def find(s, sub, lo, hi, right=False):
        p = sarg(sub)
        if lo is not None or hi is not None:
            base = 0 if lo is None else I.index(lo)
            if base < 0 or hi is not None:
                if has_atoms(s):
                    n = S.fixed_len(s)
                    if n is None:
                        raise Imprecise("find with bounds")
                    hi_ = n if hi is None else I.index(hi)
                    t = I.str_slice(s, slice(base, hi_, None))
                    r = find(t, p, None, None, right)
                    return r if r == -1 else I.binop("Add", r, base if base >= 0 else n + base)
                return (s.rfind if right else s.find)(p, base, None if hi is None else I.index(hi))
            t = I.str_slice(s, slice(base, None, None))
            r = find(t, p, None, None, right)
            return r if r == -1 else I.binop("Add", r, base)
        s = resolve(s, p)
        i = s.rfind(p) if right else s.find(p)
        if not has_atoms(p) and S.touches(s, p):
            # an occurrence using pieces could come first
            t = (s[i:] if right else s[:i + max(len(p) - 1, 0)]) if i >= 0 else s
            if S.may_contain(t, p):
                raise Imprecise("find %r in %s" % (p, S.show(s)[:60]))
        elif has_atoms(p):
            literal_pat(s, p, "find")
        if i < 0:
            return -1
        return I.norm(S.length(s[:i]))
    smeth("find")(lambda s, sub, lo=None, hi=None: find(s, sub, lo, hi))
    smeth("rfind")(lambda s, sub, lo=None, hi=None: find(s, sub, lo, hi, True))

    def index_(s, sub, lo=None, hi=None, right=False):
        r = find(s, sub, lo, hi, right)
        if isinstance(r, int) and r == -1:
            raise I.exc("ValueError", "substring not found")
        return r
    smeth("index")(index_)
    smeth("rindex")(lambda s, sub, lo=None, hi=None: index_(s, sub, lo, hi, True))

    @smeth("count")
    def m_count(s, sub, lo=None, hi=None):
        p = sarg(sub)
        if lo is not None or hi is not None:
            s = I.str_slice(s, slice(lo, hi, None))
        s = resolve(s, p)
        literal_pat(s, p, "count")
        if p == "":
            return I.binop("Add", I.norm(S.length(s)), 1)
        return s.count(p)

    def char_eq(c, d):
        """equality of two single positions: True/False or fork"""
        if c == d:
            return True
        ca, da = is_atom(c), is_atom(d)
        if not ca and not da:
            return False
        return I.str_eq(c, d)

    def starts(s, p):
        i = j = 0
        while j < len(p):
            if i >= len(s):
                return False
            c, d = s[i], p[j]
            if c == d:
                i += 1
                j += 1
                continue
            if not is_atom(c) and not is_atom(d):
                return False
            ac = S.A(c) if is_atom(c) else None
            ad = S.A(d) if is_atom(d) else None
            one = (ac is None or (ac.minlen, ac.maxlen) == (1, 1)) and \
                (ad is None or (ad.minlen, ad.maxlen) == (1, 1))
            cs = ac.cs if ac else frozenset([c])
            ds = ad.cs if ad else frozenset([d])
            if not cs & ds and (ac is None or ac.minlen) and (ad is None or ad.minlen):
                return False
            if ac is not None and ac.kind == "fin":
                return starts(s[:i] + I.split(c) + s[i + 1:], p)
            if one:
                if not char_eq(c, d):
                    return False
                i += 1
                j += 1
                continue
            return I.fork(("starts", s, p), "%s.startswith(%s)" % (S.show(s)[:60], S.show(p)))
        return True

    def starts_any(s, p, lo=None, hi=None, end=False):
        if lo is not None or hi is not None:
            s = I.str_slice(s, slice(lo, hi, None))
        if isinstance(p, tuple):
            return any(starts_any(s, x, None, None, end) for x in p)
        p = sarg(p)
        if end:
            return starts_rev(s, p)
        return starts(s, p)

    def starts_rev(s, p):
        for c in s + p:
            if is_atom(c) and (S.A(c).minlen, S.A(c).maxlen) != (1, 1) and S.A(c).kind == "fin":
                s = "".join(I.split(x) if is_atom(x) and S.A(x).kind == "fin" else x for x in s)
                break
        return starts(s[::-1], p[::-1])
    table("str")["startswith"] = Builtin(
        lambda I, s, p, lo=None, hi=None: I.truth(I.fin_map(lambda v: starts_any(v, p, lo, hi), s))
        if I.as_fin(s) is not None else starts_any(I.s(s), p, lo, hi), "startswith", True)
    table("str")["endswith"] = Builtin(
        lambda I, s, p, lo=None, hi=None: I.truth(I.fin_map(lambda v: starts_any(v, p, lo, hi, True), s))
        if I.as_fin(s) is not None else starts_any(I.s(s), p, lo, hi, True), "endswith", True)

    smeth("removeprefix")(lambda s, p: s[len(sarg(p)):] if starts(s, sarg(p)) else s)
    smeth("removesuffix")(lambda s, p: (s[:len(s) - len(sarg(p))] if sarg(p) and
                                        starts_rev(s, sarg(p)) else s))

    @smeth("partition")
    def m_partition(s, sep):
        p = sarg(sep)
        s = resolve(s, p)
        literal_pat(s, p, "partition")
        return s.partition(p)

    @smeth("rpartition")
    def m_rpartition(s, sep):
        p = sarg(sep)
        s = resolve(s, p)
        literal_pat(s, p, "rpartition")
        return s.rpartition(p)

    def m_join(I, self, it):
        sep = I.s(self)
        out = []
        for x in I.iterate(it):
            s = I.s(x)
            if s is None:
                if isinstance(x, Fin):
                    s = I.s(I.split(x))
                if s is None:
                    raise I.exc("TypeError", "sequence item: expected str instance, %s found"
                                % I.type_of(x).name)
            out.append(s)
        return sep.join(out)
    table("str")["join"] = Builtin(m_join, "str.join", True)

    smeth("lower", "casefold")(lambda s: S.casemap(s, "lower"))
    smeth("upper")(lambda s: S.casemap(s, "upper"))

    def plain_only(name):
        def f(s, *a):
            if has_atoms(s):
                raise Imprecise("str.%s of symbolic string" % name)
            return getattr(s, name)(*a)
        return f
    for n in ("title", "capitalize", "swapcase", "expandtabs"):
        smeth(n)(plain_only(n))

    def pred(name):
        t = getattr(str, name)

        def f(s):
            if s == "":
                return t("")
            if not has_atoms(s):
                return t(s)
            mode = name in ("isdigit", "isdecimal", "isnumeric", "isspace", "isalpha",
                            "isalnum", "isascii", "isprintable")
            if not mode:
                # islower / isupper
                raise Imprecise("%s of symbolic string" % name)
            res = True
            for c in s:
                if is_atom(c):
                    a = S.A(c)
                    v = {t(x) for x in a.cs}
                    if v == {True}:
                        continue
                    if v == {False} and a.minlen > 0:
                        return False
                    if a.kind == "fin":
                        return f(s.replace(c, I.split(c)))
                    res = None
                elif not t(c):
                    return False
            if res is None:
                return I.fork((name, s), "%s.%s()" % (S.show(s)[:60], name))
            return True
        return f
    for n in ("isdigit", "isdecimal", "isnumeric", "isspace", "isalpha", "isalnum",
              "isascii", "isprintable", "islower", "isupper", "isidentifier", "istitle"):
        smeth(n)(pred(n))

    @smeth("zfill")
    def m_zfill(s, w):
        w = I.index(w)
        n = S.fixed_len(s)
        if n is None:
            if S.min_len(s) >= w:
                return s
            if len(s) == 1 and S.A(s).kind == "fmt" and "-" not in S.A(s).cs:
                return I.fmt_int(Num(S.A(s).arg, "int"), w)
            raise Imprecise("zfill of open string")
        if s[:1] in ("+", "-"):
            return s[0] + "0" * max(0, w - n) + s[1:]
        return "0" * max(0, w - n) + s

    def just(s, w, fill, left):
        w = I.index(w)
        f = sarg(fill)
        n = S.fixed_len(s)
        if n is None:
            if S.min_len(s) >= w:
                return s
            if not left and f == "0":
                return m_zfill(s, w)
            raise Imprecise("padding of open string")
        pad = f * max(0, w - n)
        return s + pad if left else pad + s
    smeth("ljust")(lambda s, w, f=" ": just(s, w, f, True))
    smeth("rjust")(lambda s, w, f=" ": just(s, w, f, False))

    @smeth("center")
    def m_center(s, w, f=" "):
        n = S.fixed_len(s)
        if n is None:
            raise Imprecise("center")
        return ("x" * n).center(I.index(w), sarg(f)).replace("x" * n, s, 1) if n else \
            "".center(I.index(w), sarg(f))

    def m_format(I, self, *args, **kw):
        import string
        fmt = I.s(self)
        if has_atoms(fmt) and S.touches(fmt, "{}"):
            raise Imprecise("symbolic format string")
        out = []
        auto = [0]

        def field(name):
            first, rest = "", name
            import _string
            first, rest = _string.formatter_field_name_split(name)
            if first == "":
                v = args[auto[0]] if auto[0] < len(args) else NULL
                auto[0] += 1
            elif isinstance(first, int):
                v = args[first] if first < len(args) else NULL
            else:
                if first not in kw:
                    raise I.exc("KeyError", first)
                v = kw[first]
            if v is NULL:
                raise I.exc("IndexError", "Replacement index out of range")
            for isattr, k in rest:
                v = I.getattr(v, k) if isattr else I.getitem(v, k)
            return v

        def run(f):
            res = []
            try:
                parts = list(string.Formatter().parse(f))
            except ValueError as e:
                raise I.exc("ValueError", str(e))
            for lit, name, spec, conv in parts:
                res.append(lit)
                if name is None:
                    continue
                v = field(name)
                if conv == "r":
                    v = I.repr_of(v)
                elif conv == "s":
                    v = I.str_of(v)
                res.append(I.piece(I.format(v, run(spec) if spec else "")))
            return "".join(res)
        return run(fmt)
    table("str")["format"] = Builtin(m_format, "str.format", True)
    table("str")["format_map"] = Builtin(
        lambda I, s, m: m_format(I, s, **{I.s(k): v for k, v in m.data.d.values()}), "format_map", True)

    @smeth("encode")
    def m_encode(s, *a, **k):
        if has_atoms(s):
            return EncStr(s)
        try:
            return s.encode(*[I.s(x) for x in a], **{n: I.s(v) for n, v in k.items()})
        except UnicodeEncodeError as e:
            raise I.exc("UnicodeEncodeError", str(e))
        except LookupError as e:
            raise I.exc("LookupError", str(e))

    @smeth("translate")
    def m_translate(s, tbl):
        out = []
        for c in s:
            if is_atom(c):
                for x in S.A(c).cs:
                    if I.contains(tbl, ord(x)):
                        if S.A(c).kind == "fin":
                            return m_translate(s.replace(c, I.split(c)), tbl)
                        raise Imprecise("translate of piece")
                out.append(c)
                continue
            try:
                v = I.getitem(tbl, ord(c))
            except PyExc as e:
                if e.inst.cls.sub(B["LookupError"]):
                    out.append(c)
                    continue
                raise
            if v is None:
                continue
            out.append(chr(v) if isinstance(v, int) else I.s(v))
        return "".join(out)

    def maketrans(I, *a):
        if a and isinstance(a[0], (ClassV,)):
            a = a[1:]
        d = I.mkdict()
        if len(a) == 1:
            for k, v in list(a[0].data.d.values()):
                I.dict_set(d, ord(k) if isinstance(k, str) else k, v)
        else:
            for x, y in zip(I.s(a[0]), I.s(a[1])):
                I.dict_set(d, ord(x), ord(y))
            if len(a) == 3:
                for x in I.s(a[2]):
                    I.dict_set(d, ord(x), None)
        return d
    B["str"].ns["maketrans"] = StaticM(Builtin(maketrans, "maketrans"))
    meth("str", "__len__")(lambda I, s: I.length(s))
    meth("str", "__getitem__")(lambda I, s, k: I.raw_getitem(s, k))
    meth("str", "__contains__")(lambda I, s, x: I.str_in(I.s(s), I.s(x)))
    meth("str", "__iter__")(lambda I, s: Iter(I.iterate(I.s(s))))
    meth("str", "__add__")(lambda I, s, o: I.binop("Add", I.s(s), o))
    meth("str", "__eq__")(lambda I, s, o: I.eq(I.s(s), o) if I.s(o) is not None else NotImpl)
    meth("str", "__hash__")(lambda I, s: I.hash(I.s(s)))
    meth("str", "__str__")(lambda I, s: I.s(s))
    meth("str", "__format__")(lambda I, s, spec: I.format(I.s(s), spec))

    # ------------------------------------------------------------ list methods
    def L(o):
        if not (isinstance(o, Inst) and isinstance(o.data, list)):
            raise I.exc("TypeError", "descriptor requires a 'list'")
        return o.data

    @meth("list", "append")
    def l_append(I, o, v):
        I.touch(o, "append")
        L(o).append(v)

    @meth("list", "extend")
    def l_extend(I, o, it):
        I.touch(o, "extend")
        L(o).extend(list(I.iterate(it)))

    @meth("list", "__iadd__")
    def l_iadd(I, o, it):
        l_extend(I, o, it)
        return o

    @meth("list", "insert")
    def l_insert(I, o, i, v):
        I.touch(o, "insert")
        L(o).insert(I.index(i), v)

    @meth("list", "pop")
    def l_pop(I, o, i=-1):
        d = L(o)
        if not d:
            raise I.exc("IndexError", "pop from empty list")
        i = I.index(i)
        if not -len(d) <= i < len(d):
            raise I.exc("IndexError", "pop index out of range")
        I.touch(o, "pop")
        return o.data.pop(i)

    @meth("list", "remove")
    def l_remove(I, o, v):
        for i, x in enumerate(L(o)):
            if x is v or I.eq(x, v):
                I.touch(o, "remove")
                del o.data[i]
                return
        raise I.exc("ValueError", "list.remove(x): x not in list")

    @meth("list", "index")
    def l_index(I, o, v, lo=0, hi=None):
        d = L(o)
        for i in range(I.index(lo), len(d) if hi is None else I.index(hi)):
            if d[i] is v or I.eq(d[i], v):
                return i
        raise I.exc("ValueError", "is not in list")

    @meth("list", "count")
    def l_count(I, o, v):
        return sum(1 for x in L(o) if x is v or I.eq(x, v))

    @meth("list", "sort")
    def l_sort(I, o, key=None, reverse=False):
        r = sort_list(I, list(L(o)), key, reverse)
        I.touch(o, "sort")
        o.data = r

    @meth("list", "reverse")
    def l_reverse(I, o):
        I.touch(o, "reverse")
        L(o).reverse()

    @meth("list", "clear")
    def l_clear(I, o):
        I.touch(o, "clear")
        L(o).clear()
    meth("list", "copy", "__copy__")(lambda I, o: I.mklist(list(L(o))))

    @meth("list", "__init__")
    def l_init(I, o, it=()):
        vals = list(I.iterate(it))
        I.touch(o, "__init__")
        o.data = vals
    meth("list", "__getitem__")(lambda I, o, k: I.raw_getitem(o, k))
    meth("list", "__setitem__")(lambda I, o, k, v: I.raw_setitem(o, k, v))

    @meth("list", "__delitem__")
    def l_del(I, o, k):
        I.touch(o, "del")
        if isinstance(k, slice):
            del o.data[slice(*[None if x is None else I.index(x) for x in (k.start, k.stop, k.step)])]
        else:
            i = I.index(k)
            if not -len(o.data) <= i < len(o.data):
                raise I.exc("IndexError", "list index out of range")
            del o.data[i]
    meth("list", "__len__")(lambda I, o: len(L(o)))
    meth("list", "__iter__")(lambda I, o: Iter(x for x in L(o)))
    meth("list", "__reversed__")(lambda I, o: Iter(iter(L(o)[::-1])))
    meth("list", "__contains__")(lambda I, o, x: any(v is x or I.eq(v, x) for v in list(L(o))))

    @meth("list", "__add__")
    def l_add(I, o, x):
        if not (isinstance(x, Inst) and isinstance(x.data, list)):
            raise I.exc("TypeError", "can only concatenate list")
        return I.mklist(L(o) + x.data)
    meth("list", "__mul__", "__rmul__")(lambda I, o, n: I.mklist(L(o) * I.index(n)))

    @meth("list", "__eq__")
    def l_eq(I, o, x):
        if not (isinstance(x, Inst) and isinstance(x.data, list)):
            return NotImpl
        return len(o.data) == len(x.data) and all(I.eq(a, b) for a, b in zip(o.data, x.data))

    # ------------------------------------------------------------ dict methods
    def D(o):
        if not (isinstance(o, Inst) and isinstance(o.data, DictData)):
            raise I.exc("TypeError", "descriptor requires a 'dict'")
        return o.data

    @meth("dict", "get")
    def d_get(I, o, k, default=None):
        if isinstance(k, Inst) and isinstance(k.data, (list, DictData)) and not isinstance(k.data, str):
            if k.cls.kind in ("list", "dict", "set"):
                raise I.exc("TypeError", "unhashable type")
        return I.dict_get(o, k, default)
    meth("dict", "items")(lambda I, o: DictView(o, "i"))
    meth("dict", "keys")(lambda I, o: DictView(o, "k"))
    meth("dict", "values")(lambda I, o: DictView(o, "v"))

    @meth("dict", "pop")
    def d_pop(I, o, k, default=NULL):
        k = I.settle(k)
        h = I.dict_find(o, k)
        if h is None:
            if default is NULL:
                raise I.exc("KeyError", k)
            return default
        return I.dict_del(o, k)

    @meth("dict", "popitem")
    def d_popitem(I, o, last=True):
        d = D(o).d
        if not d:
            raise I.exc("KeyError", "dictionary is empty")
        I.touch(o, "popitem")
        d = D(o).d
        h = list(d)[-1 if last else 0]
        k, v = d.pop(h)
        if h[0] in ("a", "p", "T", "i"):
            o.data.sym -= 1
        return (k, v)

    @meth("dict", "setdefault")
    def d_setdefault(I, o, k, v=None):
        k = I.settle(k)
        h = I.dict_find(o, k)
        if h is not None:
            return o.data.d[h][1]
        I.dict_set(o, k, v)
        return v

    @meth("dict", "update", "__ior__")
    def d_update(I, o, *a, **kw):
        I.touch(o, "update")
        dict_fill(I, o, a, kw)

    @meth("dict", "clear")
    def d_clear(I, o):
        I.touch(o, "clear")
        o.data = DictData()

    @meth("dict", "copy", "__copy__")
    def d_copy(I, o):
        d = I.new(B["dict"] if o.cls.module else o.cls, D(o).copy())
        if not o.cls.module and o.cls is not B["dict"]:
            d.attrs = dict(o.attrs)
        return d

    @meth("dict", "__init__")
    def d_init(I, o, *a, **kw):
        I.touch(o, "__init__")
        dict_fill(I, o, a, kw)
    meth("dict", "__getitem__")(lambda I, o, k: I.raw_getitem(o, k))
    meth("dict", "__setitem__")(lambda I, o, k, v: I.dict_set(o, k, v))
    meth("dict", "__delitem__")(lambda I, o, k: I.dict_del(o, k) and None)
    meth("dict", "__contains__", "has_key")(lambda I, o, k: I.truth(I.dict_has(o, k)))
    meth("dict", "__len__")(lambda I, o: len(D(o).d))
    meth("dict", "__iter__")(lambda I, o: Iter(k for k, _ in list(D(o).d.values())))

    def d_fromkeys(I, *a):
        if a and isinstance(a[0], ClassV):
            a = a[1:]
        d = I.mkdict()
        for k in I.iterate(a[0]):
            I.dict_set(d, k, a[1] if len(a) > 1 else None)
        return d
    B["dict"].ns["fromkeys"] = StaticM(Builtin(d_fromkeys, "fromkeys"))

    # ------------------------------------------------------------- set methods
    @meth("set", "add")
    def s_add(I, o, v):
        I.touch(o, "add")
        I.dict_set(o, v, None)

    @meth("set", "discard")
    def s_discard(I, o, v):
        if I.dict_find(o, I.settle(v)) is not None:
            I.dict_del(o, v)

    @meth("set", "remove")
    def s_remove(I, o, v):
        I.dict_del(o, v)

    @meth("set", "pop")
    def s_pop(I, o):
        d = D(o).d
        if not d:
            raise I.exc("KeyError", "pop from an empty set")
        if len(d) > 1:
            I.path.events.append(("setorder", o, "set.pop", I.where()))
        I.touch(o, "pop")
        d = o.data.d
        h = next(iter(d))
        if I.hseed and I.hash_varies([k for k, _ in d.values()]):
            h = list(d)[-1]
        return d.pop(h)[0]

    @meth("set", "update", "__ior__")
    def s_update(I, o, *its):
        I.touch(o, "update")
        for it in its:
            for v in list(I.iterate(it, ordered=False)):
                I.dict_set(o, v, None)

    @meth("set", "clear")
    def s_clear(I, o):
        I.touch(o, "clear")
        o.data = DictData()
    meth("set", "copy")(lambda I, o: I.new(o.cls, D(o).copy()))

    def setop(t):
        def f(I, o, *its):
            r = o
            for it in its:
                r = I.binop(t, r, I.mkset(list(I.iterate(it, ordered=False))))
            return r if r is not o else I.new(o.cls, o.data.copy())
        return f
    meth("set", "union")(setop("BitOr"))
    meth("set", "intersection")(setop("BitAnd"))
    meth("set", "difference")(setop("Sub"))
    meth("set", "symmetric_difference")(setop("BitXor"))
    meth("set", "issubset")(lambda I, o, x: I.set_le(o, I.mkset(list(I.iterate(x, ordered=False)))))
    meth("set", "issuperset")(lambda I, o, x: I.set_le(I.mkset(list(I.iterate(x, ordered=False))), o))
    meth("set", "isdisjoint")(lambda I, o, x: not any(
        I.dict_find(o, k) is not None for k in I.iterate(x, ordered=False)))
    meth("set", "__len__")(lambda I, o: len(D(o).d))
    meth("set", "__contains__")(lambda I, o, k: I.truth(I.dict_has(o, k)))
    meth("set", "__iter__")(lambda I, o: Iter(I.iterate(o)))

    # ----------------------------------------------------------- tuple methods
    def tup(o):
        return o if isinstance(o, tuple) else o.data

    @meth("tuple", "index")
    def t_index(I, o, v):
        for i, x in enumerate(tup(o)):
            if x is v or I.eq(x, v):
                return i
        raise I.exc("ValueError", "tuple.index(x): x not in tuple")
    meth("tuple", "count")(lambda I, o, v: sum(1 for x in tup(o) if x is v or I.eq(x, v)))
    meth("tuple", "__len__")(lambda I, o: len(tup(o)))
    meth("tuple", "__iter__")(lambda I, o: Iter(iter(tup(o))))
    meth("tuple", "__getitem__")(lambda I, o, k: I.raw_getitem(o, k))
    meth("tuple", "__contains__")(lambda I, o, v: any(x is v or I.eq(x, v) for x in tup(o)))

    @meth("tuple", "_replace")
    def t_replace(I, o, **kw):
        vals = list(o.data)
        for k, v in kw.items():
            if k not in o.cls.fields:
                raise I.exc("ValueError", "Got unexpected field names")
            vals[o.cls.fields.index(k)] = v
        n = I.new(o.cls, tuple(vals))
        return n
    meth("tuple", "_asdict")(lambda I, o: I.mkdict(list(zip(o.cls.fields, o.data))))

    # ---------------------------------------------------------- number methods
    def n_isint(I, o):
        n = lift(o)
        if n.p.is_const():
            return n.p.cval().denominator == 1
        if n.p.is_int():
            return True
        return I.decide_eq0(n.p - pfloor(n.p, I.path.facts))
    meth("float", "is_integer")(n_isint)
    meth("int", "is_integer")(lambda I, o: True)
    meth("int", "bit_length")(lambda I, o: I.index(o).bit_length())
    meth("int", "bit_count")(lambda I, o: bin(I.index(o)).count("1"))
    meth("int", "conjugate")(lambda I, o: o)

    @meth("int", "to_bytes")
    def i_tobytes(I, o, n=1, order="big"):
        return I.index(o).to_bytes(I.index(n), order)
    meth("float", "as_integer_ratio")(lambda I, o: (_ for _ in ()).throw(Imprecise("ratio")))
    for k in ("int", "float", "Fraction", "Decimal"):
        meth(k, "__int__", "__trunc__")(lambda I, o: I.to_int(I.unwrap(o)))
        meth(k, "__float__")(lambda I, o: c_float(I, o))
        meth(k, "__abs__")(lambda I, o: b_abs(I, I.unwrap(o)))
        meth(k, "__eq__")(lambda I, o, x: I.eq(I.unwrap(o), x) if isinstance(I.unwrap(x), (int, Num)) else NotImpl)
        meth(k, "__hash__")(lambda I, o: I.hash(I.unwrap(o)))
        meth(k, "__add__")(lambda I, o, x: I.binop("Add", I.unwrap(o), x))
        meth(k, "__mul__")(lambda I, o, x: I.binop("Mult", I.unwrap(o), x))
        meth(k, "__format__")(lambda I, o, spec: I.format(I.unwrap(o), spec))
    meth("Decimal", "quantize")(lambda I, o, *a, **k: (_ for _ in ()).throw(Imprecise("quantize")))
    M.setdefault("bytes", {})
    meth("bytes", "decode")(lambda I, b, *a, **k: b.decode(*[I.s(x) for x in a]))
    meth("bytes", "hex")(lambda I, b, *a: b.hex())
    B["bytes"].ns["fromhex"] = StaticM(Builtin(
        lambda I, s: bytes.fromhex(I.s(I.split(s))), "fromhex"))
    B["int"].ns["from_bytes"] = StaticM(Builtin(
        lambda I, b, order="big": int.from_bytes(b, order), "from_bytes"))

    class EncStr(Ext):
        """bytes of an abstract string"""

        def __init__(self, s):
            self.s = s

        def sa_type(self, I):
            return B["bytes"]

        def sa_getattr(self, I, name):
            if name == "decode":
                return Builtin(lambda I, *a, **k: self.s, "decode")
            raise Imprecise("bytes.%s" % name)

    # generator objects
    def gen_send(I, *a):
        raise Imprecise("generator.send")

    def iter_getattr(self, I, name):
        if name in ("__next__", "next"):
            return Builtin(lambda I: b_next(I, self), "next")
        if name == "__iter__":
            return Builtin(lambda I: self, "iter")
        if name == "send":
            return Builtin(gen_send, "send")
        if name == "close":
            return Builtin(lambda I: None, "close")
        raise I.exc("AttributeError", name)
    Iter.sa_getattr = iter_getattr
    Iter.sa_iter = lambda self, I: self.it

    def norm(v):
        if isinstance(v, Num) and v.kind == "int" and v.p.is_const():
            return int(v.p.cval())
        return v
    I.norm = norm
    # object.__setattr__, object.__new__ and friends reached by class access
    obj.ns["__setattr__"] = None
    del obj.ns["__setattr__"]
    meth("object", "__setattr__")(lambda I, o, n, v: I.raw_setattr(o, I.s(n), v))
    meth("object", "__delattr__")(lambda I, o, n: I.delattr(o, I.s(n)))

    @meth("object", "__getattribute__")
    def o_getattribute(I, o, n):
        return I.getattr(o, I.s(n))
