"""Models of the Python builtins and of the libraries PyRayT uses (everything except numpy, see npmodel.py)."""
import itertools
import json
import os

import numpy as np

from . import terms as tm
from . import arrays as ar
from . import npmodel as npm
from .arrays import AArray, LDim, PyRaise, Unsupported, as_pyint
from .interp import (
    _MISSING, ABC, BASEEXC, BOOLC, BYTESC, COMPLEXC, DFC, DICTC, ENUM, EXC, EXCS, FLOATC, FSETC, FUNCC, GENERIC, INTC,
    LISTC, NDARRAY, NONEC, NUMBERC, OBJECT, PROPERTY, SERIESC, SETC, SLICEC, STRC, TUPLEC, TYPE,
    AClass, AFunc, AModule, AObj, Bound, CachedProp, ClassM, Iter, NClass, NFunc, NModule, NObj, Prop, StaticM, Super, Suspended, Unk, MODC)
from .terms import T

NAMES = npm.NAMES


class DefaultDict(dict):
    factory = None


class AFrame(object):
    def __init__(self, cols, index=None):
        self.cols = cols
        self.index = index  # row labels; None: numbered from 0


class ASeries(object):
    def __init__(self, arr, name=None):
        self.arr = arr
        self.name = name


def isnum(v):
    return isinstance(v, (T, int, bool))


# ---------------------------------------------------------------- hashing and caches
def unhashable(it, v):
    if isinstance(v, (list, dict, set, AArray, AFrame, ASeries)):
        return it.type_of(v).name
    if isinstance(v, tuple):
        for x in v:
            r = unhashable(it, x)
            if r:
                return r
    if isinstance(v, AObj):
        for c in v.cls.mro:
            if "__hash__" in c.ns:
                return v.cls.name if c.ns["__hash__"] is None else None
            if "__eq__" in c.ns and c is not OBJECT:
                return v.cls.name
    return None


def hash_key(it, v):
    """structural key under which the cache treats two arguments as the same"""
    if isinstance(v, tuple):
        return ("t",) + tuple(hash_key(it, x) for x in v)
    if isinstance(v, T):
        i = as_pyint(v)
        return ("n", i) if i is not None else ("n", v)
    if isinstance(v, (bool, int)):
        return ("n", int(v))
    if isinstance(v, (str, type(None))):
        return v
    if isinstance(v, AObj):
        f, _ = v.cls.lookup("__hash__")
        if isinstance(f, AFunc):
            h = it.call(Bound(f, v), [], {})
            return ("h", v.cls.name, hash_key(it, h))
        return ("o", v)
    if isinstance(v, Bound):
        return ("m", v.func, hash_key(it, v.self))
    if isinstance(v, frozenset):
        return ("fs", v)
    return ("o", id(v), v)


class Lru(object):
    """functools.lru_cache / cache: results are stored under the (hashed) arguments for the life of the process"""

    def __init__(self, f, maxsize=128):
        self.f = f
        self.cache = {}
        self.maxsize = maxsize
        self.attrs = {}

    def call(self, it, args, kwargs):
        for v in list(args) + list(kwargs.values()):
            u = unhashable(it, v)
            if u:
                raise PyRaise("TypeError", "unhashable type: '%s'" % u)
        key = (tuple(hash_key(it, a) for a in args), tuple(sorted((k, hash_key(it, v)) for k, v in kwargs.items())))
        if key in self.cache:
            return self.cache[key]
        r = it.call(self.f, list(args), dict(kwargs))
        if self.maxsize == 0:
            return r
        self.cache[key] = r
        if self.maxsize is not None and len(self.cache) > self.maxsize:
            self.cache.pop(next(iter(self.cache)))
        return r


# ---------------------------------------------------------------- builtins
def pylen(it, v):
    if isinstance(v, (list, tuple, dict, set, frozenset, str, range)):
        return len(v)
    if isinstance(v, AArray):
        if v.ndim == 0:
            raise PyRaise("TypeError", "len() of unsized object")
        return ar.dim_size(v.dims[0])
    if isinstance(v, AObj):
        f, _ = v.cls.lookup("__len__")
        if f is not None:
            return it.call(it.bind(f, v), [], {})
    if isinstance(v, AClass) and ENUM in v.mro:
        return len(v.ns["__members_list__"])
    if isinstance(v, AFrame):
        return frame_len(v)
    if isinstance(v, ASeries):
        return ar.dim_size(v.arr.dims[0])
    if isinstance(v, Unk):
        return v
    if isinstance(v, NObj) and "__len__" in v.ns:
        return it.call(v.ns["__len__"], [], {})
    raise PyRaise("TypeError", "object of type %s has no len()" % it.describe(v))


def to_float(it, v=0):
    if isinstance(v, T):
        return tm.num(v)
    if isinstance(v, (bool, int)):
        return tm.const(int(v))
    if isinstance(v, AArray):
        if v.has_lane() or int(np.prod(v.idx.shape)) != 1:
            raise PyRaise("TypeError", "only length-1 arrays can be converted to Python scalars")
        return to_float(it, v.cells()[0])
    if isinstance(v, str):
        s = v.strip().lower()
        if s in ("inf", "+inf", "infinity"):
            return tm.INF
        if s in ("-inf", "-infinity"):
            return tm.NINF
        if s == "nan":
            return tm.NAN
        try:
            return tm.const(float(s))
        except ValueError:
            raise PyRaise("ValueError", "could not convert string to float: %r" % v)
    if isinstance(v, Unk):
        return v
    if isinstance(v, AObj):
        f, _ = v.cls.lookup("__float__")
        if f is not None:
            return it.call(it.bind(f, v), [], {})
    if isinstance(v, ASeries):
        return to_float(it, v.arr)
    raise PyRaise("TypeError", "float() argument must be a string or a number, not %s" % it.describe(v))


def to_int(it, v=0, base=None):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, T):
        f = tm.fv(v)
        if f is not None:
            return int(f)
        if v is tm.INF or v is tm.NINF:
            raise PyRaise("OverflowError", "cannot convert float infinity to integer")
        if v is tm.NAN:
            raise PyRaise("ValueError", "cannot convert float NaN to integer")
        return ar.store_conv(v, "i")
    if isinstance(v, AArray):
        if v.has_lane() or int(np.prod(v.idx.shape)) != 1:
            raise PyRaise("TypeError", "only length-1 arrays can be converted to Python scalars")
        return to_int(it, v.cells()[0])
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise("ValueError", "invalid literal for int(): %r" % v)
    if isinstance(v, AObj):
        for n in ("__int__", "__index__"):
            f, _ = v.cls.lookup(n)
            if f is not None:
                return it.call(it.bind(f, v), [], {})
    if isinstance(v, Unk):
        return v
    raise PyRaise("TypeError", "int() argument must be a string or a number, not %s" % it.describe(v))


def need_int(it, v):
    i = as_pyint(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, T):
        if tm.fv(v) is not None or not ar.isint(v):
            raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
        raise Unsupported("a loop over a symbolic count")
    if isinstance(v, AArray) and v.ndim == 0:
        return need_int(it, v.item())
    if isinstance(v, Unk):
        raise Unsupported("unknown count: %s" % v.reason)
    raise PyRaise("TypeError", "%s cannot be interpreted as an integer" % it.describe(v))


def b_range(it, *a):
    try:
        return range(*[need_int(it, x) for x in a])
    except Unsupported:
        if any(isinstance(x, Unk) for x in a):
            raise
        return npm.arange(*[x.item() if isinstance(x, AArray) and x.ndim == 0 else x for x in a])


def b_enumerate(it, seq, start=0):
    return Iter(enumerate(it.iterate_lazy(seq), start))


def b_zip(it, *seqs, **kw):
    return Iter(zip(*[it.iterate_lazy(s) for s in seqs]))


def b_map(it, f, *seqs):
    def g():
        for xs in zip(*[it.iterate_lazy(s) for s in seqs]):
            yield it.call(f, list(xs), {})
    return Iter(g())


def b_filter(it, f, seq):
    def g():
        for x in it.iterate_lazy(seq):
            if it.truth(x if f is None else it.call(f, [x], {})):
                yield x
    return Iter(g())


def b_sum(it, seq, start=0):
    import ast
    acc = start
    for x in it.iterate_lazy(seq):
        acc = it.binop(ast.Add(), acc, x)
    return acc


def _extreme(name):
    def f(it, *args, key=None, default=_MISSING):
        xs = it.iterate(args[0]) if len(args) == 1 else list(args)
        if not xs:
            if default is not _MISSING:
                return default
            raise PyRaise("ValueError", "%s() arg is an empty sequence" % name)
        ks = [it.call(key, [x], {}) for x in xs] if key is not None and key is not None else xs
        if all(isnum(k) for k in ks):
            cs = [tm.cfloat(tm.const(k)) for k in ks]
            if all(c is not None for c in cs):
                best = 0
                for i in range(1, len(cs)):
                    if (cs[i] < cs[best]) if name == "min" else (cs[i] > cs[best]):
                        best = i
                return xs[best]
            if key is None:
                return tm.minmax(name, *[tm.num(tm.const(x)) for x in xs])
            if all(isnum(x) for x in xs):
                best_k, best = tm.const(ks[0]), tm.const(xs[0])
                for k, x in zip(ks[1:], xs[1:]):
                    c = tm.lt(tm.const(k), best_k) if name == "min" else tm.lt(best_k, tm.const(k))
                    best, best_k = tm.ite(c, tm.const(x), best), tm.ite(c, tm.const(k), best_k)
                return best
            best = 0
            for i in range(1, len(ks)):
                c = tm.lt(tm.const(ks[i]), tm.const(ks[best])) if name == "min" else tm.lt(tm.const(ks[best]), tm.const(ks[i]))
                if it.truth(c):
                    best = i
            return xs[best]
        import ast
        best = 0
        for i in range(1, len(ks)):
            if it.truth(it.compare(ast.Lt() if name == "min" else ast.Gt(), ks[i], ks[best])):
                best = i
        return xs[best]
    return f


def b_sorted(it, seq, key=None, reverse=False):
    xs = it.iterate(seq)
    ks = [it.call(key, [x], {}) for x in xs] if key is not None else list(xs)
    rev = it.truth(reverse)

    def conv(k):
        if isnum(k):
            c = tm.cfloat(tm.const(k))
            if c is None:
                raise _Sym()
            return c
        if isinstance(k, str):
            return k
        if isinstance(k, tuple):
            return tuple(conv(x) for x in k)
        raise _Sym()
    try:
        cs = [conv(k) for k in ks]
        order = sorted(range(len(xs)), key=lambda i: cs[i], reverse=rev)
        return [xs[i] for i in order]
    except _Sym:
        pass
    if key is None and all(isnum(x) for x in xs):
        r = tm.sort_terms([tm.num(tm.const(x)) for x in xs])
        return list(reversed(r)) if rev else list(r)
    # insertion sort, comparisons decided by the partition
    import ast
    out = []
    for x, k in zip(xs, ks):
        i = len(out)
        while i > 0 and it.truth(it.compare(ast.Gt() if rev else ast.Lt(), k, out[i - 1][1])):
            i -= 1
        out.insert(i, (x, k))
    return [x for x, _ in out]


class _Sym(Exception):
    pass


def b_reversed(it, seq):
    if isinstance(seq, AObj):
        f, _ = seq.cls.lookup("__reversed__")
        if f is not None:
            return it.call(it.bind(f, seq), [], {})
    return Iter(iter(list(reversed(it.iterate(seq)))))


def b_any(it, seq):
    acc = tm.FALSE
    for x in it.iterate_lazy(seq):
        if isinstance(x, T):
            t = tm.truth(x)
            if t.k == "b":
                if t.a[0]:
                    return True
                continue
            acc = tm.or_(acc, t)
        elif it.truth(x):
            return True
    return acc if acc.k != "b" else acc.a[0]


def b_all(it, seq):
    acc = tm.TRUE
    for x in it.iterate_lazy(seq):
        if isinstance(x, T):
            t = tm.truth(x)
            if t.k == "b":
                if not t.a[0]:
                    return False
                continue
            acc = tm.and_(acc, t)
        elif not it.truth(x):
            return False
    return acc if acc.k != "b" else acc.a[0]


def b_iter(it, v, *a):
    if isinstance(v, Iter):
        return v
    if isinstance(v, AObj):
        f, _ = v.cls.lookup("__iter__")
        if f is not None:
            return it.call(it.bind(f, v), [], {})
    if isinstance(v, NObj) and "__next__" in v.ns:
        return v
    return Iter(iter(it.iterate_lazy(v)))


def suspended_attr(g, name):
    def ask(msg):
        try:
            return g.resume(msg)
        except StopIteration as stop:
            raise PyRaise("StopIteration", getattr(stop, "value", None))

    def throw(it, cls, *a):
        e = a[0] if a and a[0] is not None else cls
        if isinstance(e, (NClass, AClass)):
            e = it.call(e, [], {})
        return ask(("throw", PyRaise(e.cls.name, (e.attrs.get("args") or ("",))[0], e)))

    def close(it):
        if g.thread is None:
            g.done = True
        elif not g.done:
            try:
                g.resume(("throw", PyRaise("GeneratorExit", "")))
            except StopIteration:
                return
            except PyRaise as e:
                if e.cls != "GeneratorExit":
                    raise
                return
            raise PyRaise("RuntimeError", "generator ignored GeneratorExit")
    m = {"send": lambda it, v: ask(("send", v)), "throw": throw, "close": close}
    return NFunc(name, m[name]) if name in m else _MISSING


def b_next(it, v, *default):
    if isinstance(v, Iter):
        try:
            return next(v.gen)
        except StopIteration:
            if default:
                return default[0]
            raise PyRaise("StopIteration", "")
    if isinstance(v, NObj) and "__next__" in v.ns:
        return it.call(v.ns["__next__"], [], {})
    if isinstance(v, AObj):
        f, _ = v.cls.lookup("__next__")
        if f is not None:
            try:
                return it.call(it.bind(f, v), [], {})
            except PyRaise as e:
                if e.cls == "StopIteration" and default:
                    return default[0]
                raise
    raise PyRaise("TypeError", "%s is not an iterator" % it.describe(v))


def b_getattr(it, o, name, *default):
    if not default:
        return it.getattr(o, name)
    try:
        return it.getattr(o, name)
    except PyRaise as e:
        if e.cls == "AttributeError":
            return default[0]
        raise


def b_hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except PyRaise as e:
        if e.cls == "AttributeError":
            return False
        raise


def b_setattr(it, o, name, v):
    it.setattr(o, name, v)


def b_delattr(it, o, name):
    if isinstance(o, AObj) and name in o.attrs:
        del o.attrs[name]
        return
    raise PyRaise("AttributeError", name)


def b_callable(it, v):
    if isinstance(v, AObj):
        return v.cls.lookup("__call__")[0] is not None
    return isinstance(v, (AFunc, NFunc, Bound, AClass, NClass, Lru, StaticM)) or (isinstance(v, NObj) and "__call__" in v.ns)


def b_type(it, o, *rest):
    if rest:
        bases, ns = rest
        return AClass(o, list(bases), dict(ns), None)
    return it.type_of(o)


def b_issubclass(it, c, p):
    ps = p if isinstance(p, tuple) else (p,)
    return any(x in c.mro for x in ps)


def b_abs(it, v):
    if isinstance(v, (bool, int)):
        return abs(int(v))
    if isinstance(v, T):
        return tm.abs_(tm.num(v))
    if isinstance(v, AObj):
        f, _ = v.cls.lookup("__abs__")
        if f is not None:
            return it.call(it.bind(f, v), [], {})
    if isinstance(v, Unk):
        return v
    if isinstance(v, ASeries):
        return ASeries(asarr(npm.call(it, "abs", v.arr)), v.name)
    if isinstance(v, AArray):
        return npm.call(it, "abs", v)
    raise PyRaise("TypeError", "bad operand type for abs(): %s" % it.describe(v))


def asarr(x):
    return npm.asarray(x)


def b_round(it, v, n=None):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, T):
        f = tm.fv(v)
        if f is not None and n is None:
            return round(f)
        if n is None:
            return tm.fn("rint", v)
        return npm.wrap(npm.round_(asarr(v), n))
    return npm.round_(asarr(v), 0 if n is None else n)


def b_divmod(it, a, b):
    import ast
    return (it.binop(ast.FloorDiv(), a, b), it.binop(ast.Mod(), a, b))


def b_pow(it, a, b, m=None):
    import ast
    if m is not None:
        return pow(a, b, m)
    return it.binop(ast.Pow(), a, b)


def b_list(it, seq=()):
    return list(it.iterate(seq))


def b_tuple(it, seq=()):
    return tuple(it.iterate(seq))


def b_set(it, seq=()):
    return set(it.hashable(x) for x in it.iterate(seq))


def b_frozenset(it, seq=()):
    return frozenset(it.hashable(x) for x in it.iterate(seq))


def b_dict(it, *a, **kw):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for x in it.iterate(a[0]):
                k, v = it.iterate(x)
                d[it.hashable(k)] = v
    d.update(kw)
    return d


def b_str(it, v="", *a):
    return b_repr(it, v, "__str__")


def b_repr(it, v, meth="__repr__"):
    if isinstance(v, AObj):
        for m in (meth, "__repr__"):
            f, _ = v.cls.lookup(m)
            if f is not None:
                return it.call(it.bind(f, v), [], {})
        args = v.attrs.get("args")
        if meth == "__str__" and isinstance(args, tuple) and any(c.name == "BaseException" for c in v.cls.mro):
            return "" if not args else it.tostr(args[0] if len(args) == 1 else args)
    return it.tostr(v)


def b_bool(it, v=False):
    if isinstance(v, T):
        t = tm.truth(v)
        return t.a[0] if t.k == "b" else t
    return it.truth(v)


def b_hash(it, v):
    u = unhashable(it, v)
    if u:
        raise PyRaise("TypeError", "unhashable type: '%s'" % u)
    if isinstance(v, AObj):
        f, _ = v.cls.lookup("__hash__")
        if isinstance(f, AFunc):
            return it.call(Bound(f, v), [], {})
    return hash(str(hash_key(it, v)))


def b_vars(it, o):
    if isinstance(o, AObj):
        return o.attrs
    raise Unsupported("vars")


def b_slice(it, *a):
    if len(a) == 1:
        return slice(a[0])
    return slice(*a)


def b_print(it, *a, **k):
    return None


def b_dir(it, o):
    if isinstance(o, AObj):
        return sorted(set(o.attrs) | {n for c in o.cls.mro for n in c.ns})
    raise Unsupported("dir")


def b_complex(it, *a):
    raise Unsupported("complex numbers")


def b_super(it, *a):
    return Super(a[0], a[1])


def _property(it, fget=None, fset=None, fdel=None, doc=None):
    return Prop(fget, fset, fdel)


def _object(it, *a, **k):
    from .interp import _OBJ_A
    return AObj(_OBJ_A)


PROPERTY.call = _property
FLOATC.call = to_float
INTC.call = to_int
BOOLC.call = b_bool
STRC.call = b_str
LISTC.call = b_list
TUPLEC.call = b_tuple
DICTC.call = b_dict
SETC.call = b_set
FSETC.call = b_frozenset
SLICEC.call = b_slice
TYPE.call = b_type
COMPLEXC.call = b_complex
STATICC = NClass("staticmethod", (OBJECT,), lambda it, f: StaticM(f))
CLASSMC = NClass("classmethod", (OBJECT,), lambda it, f: ClassM(f))
DICTC.ns["fromkeys"] = NFunc("fromkeys", lambda it, seq, v=None: {it.hashable(k): v for k in it.iterate(seq)})


def _str_maketrans(it, *a):
    raise Unsupported("str.maketrans")


def builtins(it):
    d = dict(EXCS)
    d.pop("AxisError", None)
    d.pop("LinAlgError", None)
    d.pop("UFuncTypeError", None)
    d.pop("FrozenInstanceError", None)
    fs = {
        "len": pylen, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "filter": b_filter, "sum": b_sum,
        "min": _extreme("min"), "max": _extreme("max"), "abs": b_abs, "round": b_round, "sorted": b_sorted, "reversed": b_reversed,
        "isinstance": lambda it, o, c: it.isinstance(o, c), "issubclass": b_issubclass, "hasattr": b_hasattr, "getattr": b_getattr,
        "setattr": b_setattr, "delattr": b_delattr, "callable": b_callable, "any": b_any, "all": b_all, "iter": b_iter, "next": b_next,
        "id": lambda it, o: id(o), "repr": b_repr, "hash": b_hash, "divmod": b_divmod, "pow": b_pow, "vars": b_vars, "print": b_print,
        "dir": b_dir, "super": b_super, "format": lambda it, v, *a: it.tostr(v), "locals": lambda it: {}, "globals": lambda it: {},
        "chr": lambda it, i: chr(i), "ord": lambda it, s: ord(s), "input": lambda it, *a: Unk("input()"), "open": lambda it, *a, **k: Unk("open()"),
    }
    for n, f in fs.items():
        d[n] = NFunc(n, f)
    d.update({"list": LISTC, "tuple": TUPLEC, "dict": DICTC, "set": SETC, "frozenset": FSETC, "str": STRC, "int": INTC, "float": FLOATC,
              "bool": BOOLC, "type": TYPE, "property": PROPERTY, "staticmethod": STATICC, "classmethod": CLASSMC, "object": OBJECT,
              "slice": SLICEC, "complex": COMPLEXC, "bytes": BYTESC, "NotImplemented": NotImplemented, "Ellipsis": Ellipsis, "__debug__": True,
              "__name__": "builtins"})
    return d


# ---------------------------------------------------------------- methods of native values
def str_method(it, s, name):
    if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "split", "rsplit", "splitlines", "replace", "startswith", "endswith",
                "find", "rfind", "index", "count", "isdigit", "isalpha", "isalnum", "isnumeric", "isidentifier", "zfill", "ljust", "rjust", "center", "partition", "rpartition",
                "casefold", "swapcase", "islower", "isupper", "isspace", "removeprefix", "removesuffix"):
        def f(it, *a, **k):
            try:
                return getattr(s, name)(*[as_pyint(x) if isinstance(x, T) else x for x in a], **k)
            except ValueError as e:
                raise PyRaise("ValueError", str(e))
            except TypeError as e:
                raise PyRaise("TypeError", str(e))
        return NFunc("str." + name, f)
    if name == "format":
        return NFunc("str.format", lambda it, *a, **k: s)
    if name == "join":
        return NFunc("str.join", lambda it, seq: s.join(it.iterate(seq)))
    if name in NAMES["str"]:
        raise Unsupported("str.%s" % name)
    return _MISSING


def list_method(it, l, name):
    def index(it, x, *a):
        for i, y in enumerate(l):
            if y is x or it.py_eq(y, x):
                return i
        raise PyRaise("ValueError", "%r is not in list" % (x,))

    def remove(it, x):
        del l[index(it, x)]

    def pop(it, i=-1):
        try:
            return l.pop(as_pyint(i))
        except IndexError:
            raise PyRaise("IndexError", "pop from empty list")

    def sort(it, key=None, reverse=False):
        l[:] = b_sorted(it, list(l), key, reverse)

    def extend(it, seq):
        l.extend(it.iterate(seq))

    def setdel(it, k):
        del l[as_pyint(k) if not isinstance(k, slice) else k]
    m = {"append": lambda it, x: l.append(x), "extend": extend, "insert": lambda it, i, x: l.insert(as_pyint(i), x), "pop": pop,
         "remove": remove, "index": index, "count": lambda it, x: sum(1 for y in l if y is x or it.py_eq(y, x)), "clear": lambda it: l.clear(),
         "copy": lambda it: list(l), "reverse": lambda it: l.reverse(), "sort": sort, "__len__": lambda it: len(l),
         "__getitem__": lambda it, k: it.getitem(l, k), "__setitem__": lambda it, k, v: it.setitem(l, k, v), "__iter__": lambda it: Iter(iter(list(l))),
         "__contains__": lambda it, x: it.contains(l, x), "__delitem__": setdel}
    if name in m:
        return NFunc("list." + name, m[name])
    return _MISSING


def tuple_method(it, l, name):
    r = list_method(it, list(l), name)
    return r if name in ("index", "count", "__len__", "__getitem__", "__iter__", "__contains__") else _MISSING


def dict_method(it, d, name):
    def get(it, k, default=None):
        return d.get(it.hashable(k), default)

    def pop(it, k, *default):
        k = it.hashable(k)
        if k in d:
            return d.pop(k)
        if default:
            return default[0]
        raise PyRaise("KeyError", repr(k))

    def update(it, *a, **kw):
        d.update(b_dict(it, *a, **kw))

    def setdefault(it, k, v=None):
        return d.setdefault(it.hashable(k), v)
    m = {"get": get, "pop": pop, "update": update, "setdefault": setdefault, "keys": lambda it: list(d), "values": lambda it: list(d.values()),
         "items": lambda it: [(k, v) for k, v in d.items()], "clear": lambda it: d.clear(), "copy": lambda it: dict(d), "popitem": lambda it: d.popitem(),
         "__contains__": lambda it, k: it.contains(d, k), "__getitem__": lambda it, k: it.getitem(d, k), "__len__": lambda it: len(d),
         "move_to_end": lambda it, k, last=True: d.__setitem__(k, d.pop(k))}
    if name in m:
        return NFunc("dict." + name, m[name])
    return _MISSING


def set_method(it, s, name):
    hs = it.hashable
    m = {"add": lambda it, x: s.add(hs(x)), "discard": lambda it, x: s.discard(hs(x)), "clear": lambda it: s.clear(), "copy": lambda it: set(s),
         "update": lambda it, *q: [s.update(b_set(it, x)) for x in q] and None, "union": lambda it, *q: s.union(*[b_set(it, x) for x in q]),
         "intersection": lambda it, *q: s.intersection(*[b_set(it, x) for x in q]), "difference": lambda it, *q: s.difference(*[b_set(it, x) for x in q]),
         "issubset": lambda it, q: s.issubset(b_set(it, q)), "issuperset": lambda it, q: s.issuperset(b_set(it, q)), "isdisjoint": lambda it, q: s.isdisjoint(b_set(it, q)),
         "pop": lambda it: s.pop(), "remove": lambda it, x: s.remove(hs(x))}
    if name in m:
        return NFunc("set." + name, m[name])
    return _MISSING


def native_attr(it, o, name):
    if isinstance(o, str):
        return str_method(it, o, name)
    if isinstance(o, list):
        return list_method(it, o, name)
    if isinstance(o, tuple):
        return tuple_method(it, o, name)
    if isinstance(o, dict):
        return dict_method(it, o, name)
    if isinstance(o, (set, frozenset)):
        return set_method(it, o, name)
    if isinstance(o, Iter):
        if name == "__next__":
            return NFunc("next", lambda it: b_next(it, o))
        if name == "__iter__":
            return NFunc("iter", lambda it: o)
        if isinstance(o.gen, Suspended):
            return suspended_attr(o.gen, name)
        return _MISSING
    if isinstance(o, AFrame):
        return frame_attr(it, o, name)
    if isinstance(o, ASeries):
        return series_attr(it, o, name)
    if isinstance(o, Lru):
        if name == "cache_clear":
            return NFunc("cache_clear", lambda it: o.cache.clear())
        if name == "cache_info":
            return NFunc("cache_info", lambda it: (0, 0, 0, 0))
        if name == "__wrapped__":
            return o.f
        if name in o.attrs:
            return o.attrs[name]
        if name in ("__name__", "__qualname__"):
            return it.getattr(o.f, name)
        return _MISSING
    if isinstance(o, (bool, int)):
        if name in ("real", "numerator"):
            return int(o)
        if name == "imag":
            return 0
        if name in ("shape",):
            return ()
        if name in ("ndim",):
            return 0
        if name == "size":
            return 1
        if name == "__class__":
            return it.type_of(o)
        if name in ("item", "copy", "tolist"):
            return NFunc(name, lambda it: o)
        if name == "dtype":
            return INTC
        if name in ("astype", "sum", "max", "min", "round", "flatten", "ravel", "reshape", "any", "all"):
            return npm.array_attr(it, npm.asarray(o), name)
        if name == "bit_length":
            return NFunc(name, lambda it: int(o).bit_length())
        return _MISSING
    if isinstance(o, slice):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        return _MISSING
    if isinstance(o, CachedProp):
        if name == "func":
            return o.f
        return _MISSING
    if isinstance(o, range):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        if name in ("index", "count"):
            return NFunc(name, lambda it, x: getattr(o, name)(as_pyint(x)))
        return _MISSING
    if isinstance(o, StaticM):
        if name == "__func__":
            return o.f
        return _MISSING
    if name == "__class__":
        return it.type_of(o)
    return _MISSING


# ---------------------------------------------------------------- abstract base classes
ABCS = {}


def abc_instance(it, o, cls):
    f = ABCS.get(cls)
    if f is None:
        return None
    if f is True:
        return None
    return f(it, o)


def _has(*names):
    def f(it, o):
        if isinstance(o, AObj):
            return all(o.cls.lookup(n)[0] is not None for n in names)
        if isinstance(o, AArray):
            return names[0] != "__call__" and names[0] != "__reversed__"
        if isinstance(o, (list, tuple, dict, set, frozenset, str, range)):
            return "__call__" not in names
        if isinstance(o, Iter):
            return set(names) <= {"__iter__", "__next__"}
        if isinstance(o, (AFunc, NFunc, Bound, AClass, NClass, Lru)):
            return names == ("__call__",)
        if isinstance(o, (AFrame, ASeries)):
            return "__call__" not in names
        return False
    return f


def _types(*ts):
    return lambda it, o: isinstance(o, ts)


def _mkabc(name, f):
    c = NClass(name, (OBJECT,))
    ABCS[c] = f
    return c


# ---------------------------------------------------------------- copy
def shallow_copy(it, o):
    if isinstance(o, AObj):
        f, _ = o.cls.lookup("__copy__")
        if f is not None:
            return it.call(it.bind(f, o), [], {})
        n = AObj(o.cls)
        n.attrs = dict(o.attrs)
        n.payload = o.payload
        return n
    if isinstance(o, AArray):
        n = ar.copy_array(o)
        return n
    if isinstance(o, list):
        return list(o)
    if isinstance(o, DefaultDict):
        n = DefaultDict(o)
        n.factory = o.factory
        return n
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, set):
        return set(o)
    if isinstance(o, AFrame):
        return AFrame({k: ar.copy_array(v) for k, v in o.cols.items()}, o.index)
    if isinstance(o, ASeries):
        return ASeries(ar.copy_array(o.arr), o.name)
    return o


def deep_copy(it, o, memo=None):
    memo = {} if memo is None else memo
    if id(o) in memo:
        return memo[id(o)][0]

    def keep(n):
        memo[id(o)] = (n, o)
        return n
    if isinstance(o, AObj):
        if ENUM in o.cls.mro:
            return o
        f, _ = o.cls.lookup("__deepcopy__")
        if f is not None:
            return keep(it.call(it.bind(f, o), [{}], {}))
        n = keep(AObj(o.cls))
        for k, v in o.attrs.items():
            n.attrs[k] = deep_copy(it, v, memo)
        n.payload = o.payload
        return n
    if isinstance(o, AArray):
        return keep(ar.copy_array(o))
    if isinstance(o, list):
        n = keep([])
        n.extend(deep_copy(it, x, memo) for x in o)
        return n
    if isinstance(o, tuple):
        return tuple(deep_copy(it, x, memo) for x in o)
    if isinstance(o, dict):
        n = keep({})
        for k, v in o.items():
            n[k] = deep_copy(it, v, memo)
        return n
    if isinstance(o, set):
        return set(deep_copy(it, x, memo) for x in o)
    if isinstance(o, Bound) and isinstance(o.self, AObj):
        return Bound(o.func, deep_copy(it, o.self, memo))
    if isinstance(o, AFrame):
        return AFrame({k: ar.copy_array(v) for k, v in o.cols.items()}, o.index)
    return o


# ---------------------------------------------------------------- dataclasses
class Field(object):
    def __init__(self, default, factory, init, compare):
        self.default, self.factory, self.init, self.compare = default, factory, init, compare


def dc_field(it, default=_MISSING, default_factory=_MISSING, init=True, repr=True, hash=None, compare=True, metadata=None, kw_only=False):
    o = NObj("field")
    o.field = Field(default, default_factory, init, compare)
    return o


def dataclass_(it, cls=None, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, **kw):
    def deco(it, c):
        fields = {}
        for b in reversed(c.mro[1:]):
            fields.update(b.ns.get("__dc_fields__", {}))
        for n, ann in c.ns.get("__annotations__", {}).items():
            if "ClassVar" in ann:
                continue
            d = c.ns.get(n, _MISSING)
            if isinstance(d, NObj) and d.kind == "field":
                f = d.field
                if f.default is not _MISSING:
                    c.ns[n] = f.default
                else:
                    c.ns.pop(n, None)
            else:
                if isinstance(d, (list, dict, set)):
                    raise PyRaise("ValueError", "mutable default %r for field %s is not allowed: use default_factory" % (type(d), n))
                f = Field(d, _MISSING, True, True)
            fields[n] = f
        c.ns["__dc_fields__"] = fields
        seen_default = None
        for n, f in fields.items():
            has = f.default is not _MISSING or f.factory is not _MISSING
            if f.init and not has and seen_default:
                raise PyRaise("TypeError", "non-default argument %r follows default argument" % n)
            if f.init and has:
                seen_default = n

        def ctor(it, self, *args, **kwargs):
            names = [n for n, f in fields.items() if f.init]
            if len(args) > len(names):
                raise PyRaise("TypeError", "__init__() takes %d positional arguments but %d were given" % (len(names) + 1, len(args) + 1))
            vals = dict(zip(names, args))
            for k, v in kwargs.items():
                if k not in names:
                    raise PyRaise("TypeError", "__init__() got an unexpected keyword argument %r" % k)
                if k in vals:
                    raise PyRaise("TypeError", "__init__() got multiple values for argument %r" % k)
                vals[k] = v
            for n, f in fields.items():
                if n in vals:
                    v = vals[n]
                elif f.factory is not _MISSING:
                    v = it.call(f.factory, [], {})
                elif f.default is not _MISSING:
                    v = f.default
                elif not f.init:
                    continue
                else:
                    raise PyRaise("TypeError", "__init__() missing required argument: %r" % n)
                it.setattr(self, n, v, raw=True)
            p, _ = self.cls.lookup("__post_init__")
            if p is not None:
                it.call(it.bind(p, self), [], {})

        def eqf(it, self, o):
            if not isinstance(o, AObj) or o.cls is not self.cls:
                return NotImplemented
            return all(it.py_eq(self.attrs.get(n), o.attrs.get(n)) for n, f in fields.items() if f.compare)
        if init and "__init__" not in c.ns:
            c.ns["__init__"] = NFunc("__init__", ctor, binds=True)
        if eq and "__eq__" not in c.ns:
            c.ns["__eq__"] = NFunc("__eq__", eqf, binds=True)
            if not frozen and not unsafe_hash and "__hash__" not in c.ns:
                c.ns["__hash__"] = None
        if frozen:
            def fs(it, self, n, v):
                raise PyRaise("FrozenInstanceError", "cannot assign to field %r" % n)
            c.ns["__setattr__"] = NFunc("__setattr__", fs)
        return c
    if cls is not None:
        return deco(it, cls)
    return NFunc("dataclass", deco)


# ---------------------------------------------------------------- itertools / functools / ...
def mk_count(it, start=0, step=1):
    import ast
    st = [start]

    def nx(it):
        v = st[0]
        st[0] = it.binop(ast.Add(), v, step)
        return v
    o = NObj("count", {"__next__": NFunc("next", nx)})
    it.counters = getattr(it, "counters", []) + [st]

    def iterf(it):
        def g():
            while True:
                yield nx(it)
        return Iter(g())
    o.ns["__iter__"] = NFunc("iter", iterf)
    return o


def itertools_ns(it):
    L = lambda s: it.iterate_lazy(s)
    I = it.iterate

    def repeat(it, v, n=None):
        if n is None:
            return Iter(itertools.repeat(v))
        return Iter(itertools.repeat(v, need_int(it, n)))

    def starmap(it, f, seq):
        return Iter((it.call(f, I(x), {}) for x in L(seq)))

    def accumulate(it, seq, func=None, initial=None):
        import ast

        def g():
            acc = initial
            first = acc is None
            if not first:
                yield acc
            for x in L(seq):
                if first:
                    acc, first = x, False
                else:
                    acc = it.call(func, [acc, x], {}) if func is not None else it.binop(ast.Add(), acc, x)
                yield acc
        return Iter(g())

    def takewhile(it, f, seq):
        return Iter(itertools.takewhile(lambda x: it.truth(it.call(f, [x], {})), L(seq)))

    def dropwhile(it, f, seq):
        return Iter(itertools.dropwhile(lambda x: it.truth(it.call(f, [x], {})), L(seq)))

    def groupby(it, seq, key=None):
        out = []
        for x in L(seq):
            k = it.call(key, [x], {}) if key is not None else x
            if out and it.py_eq(out[-1][0], k):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return Iter(iter(out))

    def islice(it, seq, *a):
        return Iter(itertools.islice(L(seq), *[None if x is None else need_int(it, x) for x in a]))
    chain = NFunc("chain", lambda it, *s: Iter(itertools.chain(*[L(x) for x in s])))
    chain.attrs["from_iterable"] = NFunc("from_iterable", lambda it, s: Iter(itertools.chain.from_iterable(L(x) for x in L(s))))

    def pairwise(it, s):
        l = I(s)
        return Iter(iter(list(zip(l, l[1:]))))
    return {
        "chain": chain, "count": NFunc("count", mk_count),
        "product": NFunc("product", lambda it, *s, repeat=1: Iter(itertools.product(*[I(x) for x in s], repeat=repeat))),
        "repeat": NFunc("repeat", repeat), "starmap": NFunc("starmap", starmap), "accumulate": NFunc("accumulate", accumulate),
        "combinations": NFunc("combinations", lambda it, s, r: Iter(itertools.combinations(I(s), need_int(it, r)))),
        "permutations": NFunc("permutations", lambda it, s, r=None: Iter(itertools.permutations(I(s), r))),
        "zip_longest": NFunc("zip_longest", lambda it, *s, fillvalue=None: Iter(itertools.zip_longest(*[L(x) for x in s], fillvalue=fillvalue))),
        "takewhile": NFunc("takewhile", takewhile), "dropwhile": NFunc("dropwhile", dropwhile), "groupby": NFunc("groupby", groupby),
        "islice": NFunc("islice", islice), "cycle": NFunc("cycle", lambda it, s: Iter(itertools.cycle(I(s)))),
        "tee": NFunc("tee", lambda it, s, n=2: tuple(Iter(x) for x in itertools.tee(L(s), n))), "pairwise": NFunc("pairwise", pairwise),
        "compress": NFunc("compress", lambda it, a, b: Iter(iter([x for x, y in zip(I(a), I(b)) if it.truth(y)]))),
    }


def lru_cache_(it, maxsize=128, typed=False):
    if isinstance(maxsize, (AFunc, NFunc)):
        return Lru(maxsize)
    return NFunc("lru_cache", lambda it, f: Lru(f, maxsize))


def functools_ns(it):
    def wraps(it, f, *a, **k):
        def deco(it, g):
            if isinstance(g, (AFunc, NFunc)):
                g.attrs["__wrapped__"] = f
                g.attrs["__name__"] = it.getattr(f, "__name__") if isinstance(f, (AFunc, NFunc, AClass)) else ""
                if isinstance(f, AFunc):
                    for kk, v in f.attrs.items():
                        g.attrs.setdefault(kk, v)
            return g
        return NFunc("wraps", deco)

    def partial(it, f, *a, **k):
        o = NObj("partial", {"func": f, "args": a, "keywords": k})
        o.ns["__call__"] = NFunc("partial", lambda it, *b, **kk: it.call(f, list(a) + list(b), {**k, **kk}))
        return o

    def reduce(it, f, seq, *init):
        xs = it.iterate(seq)
        if init:
            acc = init[0]
        else:
            if not xs:
                raise PyRaise("TypeError", "reduce() of empty sequence with no initial value")
            acc, xs = xs[0], xs[1:]
        for x in xs:
            acc = it.call(f, [acc, x], {})
        return acc
    return {
        "wraps": NFunc("wraps", wraps), "lru_cache": NFunc("lru_cache", lru_cache_), "cache": NFunc("cache", lambda it, f: Lru(f, None)),
        "partial": NFunc("partial", partial), "reduce": NFunc("reduce", reduce),
        "cached_property": NClass("cached_property", (OBJECT,), lambda it, f: CachedProp(f)),
        "total_ordering": NFunc("total_ordering", lambda it, c: c),
        "update_wrapper": NFunc("update_wrapper", lambda it, g, f, *a, **k: it.call(it.call(NFunc("w", wraps), [f], {}), [g], {})),
    }


CONTEXTLIB_SRC = '''
import functools


class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc_value, traceback):
        return None


class ContextDecorator:
    def _recreate_cm(self):
        return self

    def __call__(self, func):
        @functools.wraps(func)
        def inner(*args, **kwds):
            with self._recreate_cm():
                return func(*args, **kwds)
        return inner


class _GeneratorManager(ContextDecorator):
    def __init__(self, func, args, kwds):
        self.func, self.args, self.kwds = func, args, kwds
        self.gen = func(*args, **kwds)

    def _recreate_cm(self):
        return _GeneratorManager(self.func, self.args, self.kwds)

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, typ, value, traceback):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(typ, value, traceback)
        except StopIteration as exc:
            return exc is not value
        except BaseException as exc:
            if exc is value:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(func):
    @functools.wraps(func)
    def helper(*args, **kwds):
        return _GeneratorManager(func, args, kwds)
    return helper


class nullcontext(AbstractContextManager):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *exc):
        return None


class closing(AbstractContextManager):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()


class suppress(AbstractContextManager):
    def __init__(self, *exceptions):
        self._exceptions = exceptions

    def __enter__(self):
        return None

    def __exit__(self, exctype, excinst, exctb):
        return exctype is not None and isinstance(excinst, self._exceptions)


class ExitStack:
    def __init__(self):
        self._exits = []

    def __enter__(self):
        return self

    def push(self, exit):
        self._exits.append(exit.__exit__ if hasattr(exit, "__exit__") else exit)
        return exit

    def enter_context(self, cm):
        result = cm.__enter__()
        self._exits.append(cm.__exit__)
        return result

    def callback(self, callback, *args, **kwds):
        def leave(exc_type, exc, tb):
            callback(*args, **kwds)
        self._exits.append(leave)
        return callback

    def pop_all(self):
        other = ExitStack()
        other._exits, self._exits = self._exits, []
        return other

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, typ, value, tb):
        pending, done = None, typ is None
        while self._exits:
            leave = self._exits.pop()
            try:
                if leave(typ, value, tb) and not done:
                    done, pending = True, None
                    typ = value = tb = None
            except BaseException as exc:
                pending, done = exc, False
                typ, value = type(exc), exc
        if pending is not None:
            raise pending
        return done and typ is None
'''


COLLECTIONS_SRC = '''
class UserList:
    def __init__(self, initlist=None):
        self.data = []
        if initlist is not None:
            if isinstance(initlist, UserList):
                self.data[:] = initlist.data[:]
            else:
                self.data = list(initlist)
    def __repr__(self): return "UserList"
    def __lt__(self, other): return self.data < self.__cast(other)
    def __le__(self, other): return self.data <= self.__cast(other)
    def __eq__(self, other): return self.data == self.__cast(other)
    def __gt__(self, other): return self.data > self.__cast(other)
    def __ge__(self, other): return self.data >= self.__cast(other)
    def __cast(self, other):
        return other.data if isinstance(other, UserList) else other
    def __contains__(self, item): return item in self.data
    def __len__(self): return len(self.data)
    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.__class__(self.data[i])
        return self.data[i]
    def __setitem__(self, i, item): self.data[i] = item
    def __delitem__(self, i): del self.data[i]
    def __iter__(self):
        return iter(self.data)
    def __reversed__(self):
        return reversed(self.data)
    def __add__(self, other):
        if isinstance(other, UserList):
            return self.__class__(self.data + other.data)
        return self.__class__(self.data + list(other))
    def __radd__(self, other):
        if isinstance(other, UserList):
            return self.__class__(other.data + self.data)
        return self.__class__(list(other) + self.data)
    def __iadd__(self, other):
        if isinstance(other, UserList):
            self.data += other.data
        else:
            self.data += list(other)
        return self
    def __mul__(self, n): return self.__class__(self.data * n)
    def __copy__(self):
        inst = self.__class__.__new__(self.__class__)
        inst.__dict__.update(self.__dict__)
        inst.__dict__["data"] = self.__dict__["data"][:]
        return inst
    def append(self, item): self.data.append(item)
    def insert(self, i, item): self.data.insert(i, item)
    def pop(self, i=-1): return self.data.pop(i)
    def remove(self, item): self.data.remove(item)
    def clear(self): self.data.clear()
    def copy(self): return self.__class__(self)
    def count(self, item): return self.data.count(item)
    def index(self, item, *args): return self.data.index(item, *args)
    def reverse(self): self.data.reverse()
    def sort(self, *args, **kwds): self.data.sort(*args, **kwds)
    def extend(self, other):
        if isinstance(other, UserList):
            self.data.extend(other.data)
        else:
            self.data.extend(other)

class UserDict:
    def __init__(self, dict=None, **kwargs):
        self.data = {}
        if dict is not None:
            self.data.update(dict)
        self.data.update(kwargs)
    def __getitem__(self, k): return self.data[k]
    def __setitem__(self, k, v): self.data[k] = v
    def __contains__(self, k): return k in self.data
    def __iter__(self): return iter(self.data)
    def __len__(self): return len(self.data)
    def keys(self): return self.data.keys()
    def values(self): return self.data.values()
    def items(self): return self.data.items()
    def get(self, k, default=None): return self.data.get(k, default)
    def update(self, *a, **k): self.data.update(*a, **k)

class deque:
    def __init__(self, it=(), maxlen=None):
        self.data = list(it)
    def append(self, x): self.data.append(x)
    def appendleft(self, x): self.data.insert(0, x)
    def pop(self): return self.data.pop()
    def popleft(self): return self.data.pop(0)
    def extend(self, xs): self.data.extend(xs)
    def clear(self): self.data.clear()
    def __len__(self): return len(self.data)
    def __iter__(self): return iter(self.data)
    def __getitem__(self, i): return self.data[i]
    def __bool__(self): return len(self.data) > 0
'''


def namedtuple_(it, name, fields, **kw):
    fl = [f for f in fields.replace(",", " ").split()] if isinstance(fields, str) else it.iterate(fields)
    src = "class %s:\n" % name
    src += "    def __init__(self%s):\n" % "".join(", " + f for f in fl)
    src += "".join("        self.%s = %s\n" % (f, f) for f in fl) or "        pass\n"
    src += "    def __iter__(self): return iter([%s])\n" % ", ".join("self." + f for f in fl)
    src += "    def __len__(self): return %d\n" % len(fl)
    src += "    def __getitem__(self, i): return [%s][i]\n" % ", ".join("self." + f for f in fl)
    src += "    def __eq__(self, o): return list(self) == list(o)\n"
    src += "    def __hash__(self): return hash((%s,))\n" % ", ".join("self." + f for f in fl)
    src += "    def _replace(self, **kw):\n        d = dict(%s)\n        d.update(kw)\n        return %s(**d)\n" % (", ".join("%s=self.%s" % (f, f) for f in fl), name)
    src += "    def _asdict(self): return dict(%s)\n" % ", ".join("%s=self.%s" % (f, f) for f in fl)
    mod = "_nt_%s_%d" % (name, len(it.sources))
    it.add_source(mod, src)
    m = it.import_module(mod)
    c = m.ns[name]
    c.ns["_fields"] = tuple(fl)
    return c


def defaultdict_(it, factory=None, *a, **kw):
    d = DefaultDict(b_dict(it, *a, **kw))
    d.factory = factory
    return d


def math_ns(it):
    def un(name, np_name=None):
        def f(it, x):
            return npm.wrap(npm.apply_un(np_name or name, asarr(to_float(it, x))))
        return NFunc("math." + name, f)

    def bi(name, np_name=None):
        def f(it, x, y):
            return npm.wrap(npm.apply_bin(np_name or name, asarr(to_float(it, x)), asarr(to_float(it, y))))
        return NFunc("math." + name, f)

    def rnd(name):
        def f(it, x):
            if isinstance(x, (bool, int)):
                return int(x)
            x = to_float(it, x)
            import math
            c = tm.fv(x)
            if c is not None:
                return int({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[name](c))
            return tm.fn(name, x)
        return NFunc("math." + name, f)

    def hypot(it, *xs):
        s = tm.ZERO
        for x in xs:
            x = to_float(it, x)
            s = tm.add(s, tm.mul(x, x))
        return tm.sqrt(s)

    def isclose(it, a, b, rel_tol=None, abs_tol=0):
        a, b = to_float(it, a), to_float(it, b)
        r = tm.const(1e-9) if rel_tol is None else tm.const(rel_tol)
        d = tm.abs_(tm.sub(a, b))
        return tm.or_(tm.eq(a, b), tm.le(d, tm.minmax("max", tm.mul(r, tm.minmax("max", tm.abs_(a), tm.abs_(b))), tm.const(abs_tol))))
    import math

    def gcd(it, *a):
        return math.gcd(*a)

    def log(it, x, base=None):
        r = npm.wrap(npm.apply_un("log", asarr(to_float(it, x))))
        if base is not None:
            r = tm.div(r, npm.wrap(npm.apply_un("log", asarr(to_float(it, base)))))
        return r
    ns = {"pi": tm.PI, "inf": tm.INF, "nan": tm.NAN, "e": tm.const(math.e), "tau": tm.mul(tm.TWO, tm.PI)}
    for n, q in (("sqrt", "sqrt"), ("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("asin", "arcsin"), ("acos", "arccos"), ("atan", "arctan"), ("exp", "exp"),
                 ("log2", "log2"), ("log10", "log10"), ("fabs", "abs"), ("radians", "radians"), ("degrees", "degrees"), ("isinf", "isinf"), ("isnan", "isnan"),
                 ("isfinite", "isfinite"), ("sinh", "sinh"), ("cosh", "cosh"), ("tanh", "tanh"), ("cbrt", "cbrt"), ("log1p", "log1p"), ("expm1", "expm1")):
        if q in npm.UN:
            ns[n] = un(n, q)
    for n, q in (("atan2", "arctan2"), ("pow", "power"), ("copysign", "copysign"), ("fmod", "fmod")):
        if q in npm.BIN:
            ns[n] = bi(n, q)
    for n in ("floor", "ceil", "trunc"):
        ns[n] = rnd(n)
    import ast as _ast

    def prod(it, seq, start=1):
        acc = start
        for x in it.iterate(seq):
            acc = it.binop(_ast.Mult(), acc, x)
        return acc

    def dist(it, p, q):
        return hypot(it, *[it.binop(_ast.Sub(), a, b) for a, b in zip(it.iterate(p), it.iterate(q))])
    ns.update({"hypot": NFunc("hypot", hypot), "isclose": NFunc("isclose", isclose), "gcd": NFunc("gcd", gcd), "log": NFunc("log", log),
               "prod": NFunc("prod", prod), "fsum": NFunc("fsum", b_sum), "dist": NFunc("dist", dist)})
    return ns


def operator_ns(it):
    import ast
    d = {}
    for n, op in (("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("truediv", ast.Div), ("floordiv", ast.FloorDiv), ("mod", ast.Mod), ("pow", ast.Pow),
                  ("matmul", ast.MatMult), ("and_", ast.BitAnd), ("or_", ast.BitOr), ("xor", ast.BitXor)):
        d[n] = NFunc(n, lambda it, a, b, op=op: it.binop(op(), a, b))
        d["i" + n.rstrip("_")] = NFunc("i" + n, lambda it, a, b, op=op: it.inplace(op(), a, b))
    for n, op in (("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("eq", ast.Eq), ("ne", ast.NotEq)):
        d[n] = NFunc(n, lambda it, a, b, op=op: it.compare(op(), a, b))
    d["neg"] = NFunc("neg", lambda it, a: it.binop(ast.Mult(), -1, a))
    d["not_"] = NFunc("not_", lambda it, a: not it.truth(a))
    d["itemgetter"] = NFunc("itemgetter", lambda it, *k: NFunc("ig", lambda it, o: it.getitem(o, k[0]) if len(k) == 1 else tuple(it.getitem(o, x) for x in k)))

    def ag(it, *ns):
        def get(o, n):
            for p in n.split("."):
                o = it.getattr(o, p)
            return o
        return NFunc("ag", lambda it, o: get(o, ns[0]) if len(ns) == 1 else tuple(get(o, n) for n in ns))
    d["attrgetter"] = NFunc("attrgetter", ag)
    d["methodcaller"] = NFunc("methodcaller", lambda it, n, *a, **k: NFunc("mc", lambda it, o: it.call(it.getattr(o, n), list(a), k)))
    d["getitem"] = NFunc("getitem", lambda it, o, k: it.getitem(o, k))
    return d


# ---------------------------------------------------------------- pandas
def frame_len(f):
    for a in f.cols.values():
        return ar.dim_size(a.dims[0])
    return 0


def frame_values(f):
    cols = list(f.cols.values())
    if not cols:
        return npm.const_arr((0, 0), tm.ZERO)
    return ar.transpose(npm.stack(cols, 0))


def _column(it, v, like=None):
    if isinstance(v, ASeries):
        return v.arr
    if isinstance(v, AArray):
        if v.ndim != 1:
            raise PyRaise("ValueError", "Per-column arrays must each be 1-dimensional")
        return AArray(v.buf, v.idx, v.dims)
    if isinstance(v, (list, tuple, range)):
        return asarr(list(v))
    if isinstance(v, Iter):
        return asarr(it.iterate(v))
    if like is not None:
        return npm.astype(npm.broadcast_to(asarr(v), like.dims), asarr(v).dtype) if False else ar.full(like.dims, tm.const(v) if isnum(v) else v, asarr(v).dtype)
    raise PyRaise("ValueError", "If using all scalar values, you must pass an index")


def df_new(it, data=None, index=None, columns=None, dtype=None, copy=None):
    cols = {}
    names = None if columns is None else [x for x in it.iterate(columns)]
    if names is not None:
        for n in names:
            if not isinstance(n, (str, int, tuple)):
                raise Unsupported("data frame column names")
    if data is None or (isinstance(data, list) and not data):
        for n in names or []:
            cols[n] = npm.const_arr((0,), tm.ZERO, None)
        return AFrame(cols)
    if isinstance(data, AFrame):
        for n in names or list(data.cols):
            cols[n] = data.cols[n]
        return AFrame(cols)
    if isinstance(data, dict):
        like = None
        for v in data.values():
            if isinstance(v, (AArray, ASeries, list, tuple)):
                like = _column(it, v)
                break
        for n in names or list(data):
            v = data.get(n)
            if v is None:
                cols[n] = ar.full(like.dims, tm.NAN, "f")
                continue
            c = _column(it, v, like)
            if c.dims != like.dims:
                raise PyRaise("ValueError", "All arrays must be of the same length")
            cols[n] = ar.copy_array(c, None)
        if dtype is not None:
            cols = {k: npm.cast(v, npm.parse_dtype(dtype)) for k, v in cols.items()}
        return AFrame(cols)
    if isinstance(data, Unk):
        raise Unsupported("data frame of unknown value: %s" % data.reason)
    a = asarr(data)
    if a.ndim == 1:
        a = ar.reshape(a, [ar.dim_size(a.dims[0]), 1]) if not isinstance(a.dims[0], LDim) else ar.getitem(a, (slice(None), None))
    if a.ndim != 2:
        raise PyRaise("ValueError", "Must pass 2-d input. shape=%s" % (npm.shape_of(a),))
    k = a.dims[1]
    if isinstance(k, LDim):
        raise PyRaise("ValueError", "data frame columns run over individual rays (transposed data)")
    if names is None:
        names = list(range(k))
    if len(names) != k:
        raise PyRaise("ValueError", "Shape of passed values is (n, %d), indices imply (n, %d)" % (k, len(names)))
    for j, n in enumerate(names):
        cols[n] = ar.getitem(a, (slice(None), j))
        cols[n] = AArray(cols[n].buf, cols[n].idx, cols[n].dims)
    if dtype is not None:
        cols = {kk: npm.cast(v, npm.parse_dtype(dtype)) for kk, v in cols.items()}
    return AFrame(cols)


def df_concat(it, frames, ignore_index=False, axis=0, **kw):
    fs = [f for f in it.iterate(frames) if f is not None]
    if not fs:
        raise PyRaise("ValueError", "No objects to concatenate")
    if all(isinstance(f, ASeries) for f in fs):
        if as_pyint(axis) == 0:
            return ASeries(ar.concat([f.arr for f in fs], 0), fs[0].name)
        return AFrame({f.name if f.name is not None else i: f.arr for i, f in enumerate(fs)})
    if not all(isinstance(f, AFrame) for f in fs):
        raise PyRaise("TypeError", "cannot concatenate object of type; only Series and DataFrame objs are valid")
    if axis in (1, "columns"):
        cols = {}
        for f in fs:
            for k, v in f.cols.items():
                cols[k] = v
        return AFrame(cols)
    names = []
    for f in fs:
        for n in f.cols:
            if n not in names:
                names.append(n)
    cols = {}
    for n in names:
        parts = []
        for f in fs:
            if n in f.cols:
                parts.append(f.cols[n])
            elif frame_len(f) == 0:
                continue
            else:
                like = next(iter(f.cols.values()))
                parts.append(ar.full(like.dims, tm.NAN, "f"))
        parts = [p for p in parts if not (not isinstance(p.dims[0], LDim) and p.dims[0] == 0)] or parts[:1]
        cols[n] = ar.concat(parts, 0)
    filled = [f for f in fs if not (isinstance(frame_len(f), int) and frame_len(f) == 0)]
    if it.truth(ignore_index) or not filled or len(filled) == 1 and filled[0].index is None:
        return AFrame(cols)
    return AFrame(cols, ar.concat([row_labels(f) for f in filled], 0))


def row_labels(f):
    """the row labels of a frame as an array"""
    if f.index is not None:
        return f.index
    for c in f.cols.values():
        return ar.arange_ldim(c.dims[0]) if isinstance(c.dims[0], LDim) else npm.arange(c.dims[0])
    return npm.const_arr((0,), tm.ZERO, "i")


def df_append(it, f, other, ignore_index=False, **kw):
    if isinstance(other, list):
        return df_concat(it, [f] + other, ignore_index)
    if isinstance(other, (dict, ASeries)):
        raise Unsupported("append of a single row")
    return df_concat(it, [f, other], ignore_index)


def frame_mask(it, f, m):
    take = lambda c: asarr(ar.getitem(c, it.norm_key(m)))
    return AFrame({n: take(c) for n, c in f.cols.items()}, take(row_labels(f)) if f.cols else None)


def frame_getitem(it, f, k):
    if isinstance(k, (str, int)):
        if k not in f.cols:
            raise PyRaise("KeyError", repr(k))
        return ASeries(f.cols[k], k)
    if isinstance(k, (list,)) and all(isinstance(x, str) for x in k):
        for x in k:
            if x not in f.cols:
                raise PyRaise("KeyError", repr(x))
        return AFrame({x: f.cols[x] for x in k}, f.index)
    if isinstance(k, ASeries):
        return frame_mask(it, f, k.arr)
    if isinstance(k, (AArray, slice)):
        return frame_mask(it, f, k)
    if isinstance(k, tuple) and k in f.cols:
        return ASeries(f.cols[k], k)
    if isinstance(k, Unk):
        return Unk("indexed by unknown")
    raise Unsupported("data frame subscript")


def frame_setitem(it, f, k, v):
    like = next(iter(f.cols.values())) if f.cols else None
    if isinstance(k, list):
        if isinstance(v, AFrame):
            for kk, c in zip(k, v.cols.values()):
                f.cols[kk] = ar.copy_array(c, None)
            return
        a = asarr(v)
        for j, kk in enumerate(k):
            f.cols[kk] = ar.copy_array(asarr(ar.getitem(a, (slice(None), j))), None)
        return
    if isinstance(v, Unk):
        f.cols[k] = ar.full(like.dims, tm.unk(v.reason), "f")
        return
    c = _column(it, v, like)
    if like is not None and c.dims != like.dims:
        raise PyRaise("ValueError", "Length of values does not match length of index")
    f.cols[k] = ar.copy_array(c, None)


def frame_setattr(it, f, name, v):
    if name in f.cols:
        frame_setitem(it, f, name, v)
        return
    if name == "columns":
        names = it.iterate(v)
        if len(names) != len(f.cols):
            raise PyRaise("ValueError", "Length mismatch")
        f.cols = dict(zip(names, f.cols.values()))
        return
    if name == "index":
        f.index = asarr(v if isinstance(v, (AArray, ASeries)) else it.iterate(v))
        if isinstance(v, range) and v.start == 0 and v.step == 1:
            f.index = None
        return
    raise Unsupported("attribute store on a data frame")


def _loc(it, f):
    def get(it, k):
        if isinstance(k, tuple):
            rows, cols = k
            g = f if isinstance(cols, slice) else frame_getitem(it, f, cols if not isinstance(cols, tuple) else list(cols))
        else:
            rows, g = k, f
        if isinstance(rows, slice) and rows == slice(None):
            return g
        if isinstance(g, ASeries):
            return series_getitem(it, g, rows)
        if isinstance(rows, (ASeries, AArray, slice, list)):
            return frame_mask(it, g, rows.arr if isinstance(rows, ASeries) else rows)
        raise Unsupported("row of a data frame")

    def set_(it, k, v):
        if isinstance(k, tuple) and isinstance(k[1], str):
            rows, col = k
            if isinstance(rows, slice) and rows == slice(None):
                frame_setitem(it, f, col, v)
                return
            if col not in f.cols:
                like = next(iter(f.cols.values()))
                f.cols[col] = ar.full(like.dims, tm.NAN, "f")
            ar.setitem(f.cols[col], it.norm_key(rows), asarr(v))
            return
        raise Unsupported("data frame loc store")
    return NObj("loc", {"__getitem__": NFunc("loc", get), "__setitem__": NFunc("loc", set_)})


def _iloc(it, f):
    def get(it, k):
        names = list(f.cols)
        if isinstance(k, tuple):
            rows, c = k
            if isinstance(c, (slice,)):
                g = AFrame({n: f.cols[n] for n in names[c]}, f.index)
            else:
                i = as_pyint(c)
                g = ASeries(f.cols[names[i]], names[i])
        else:
            rows, g = k, f
        if isinstance(rows, slice) and rows == slice(None):
            return g
        if isinstance(g, ASeries):
            return series_getitem(it, g, rows)
        if isinstance(rows, (slice, AArray, list)):
            return frame_mask(it, g, rows)
        raise Unsupported("row of a data frame")
    return NObj("iloc", {"__getitem__": NFunc("iloc", get)})


def frame_attr(it, f, name):
    if name == "shape":
        return (frame_len(f), len(f.cols))
    if name == "columns":
        return list(f.cols)
    if name == "values":
        return frame_values(f)
    if name == "empty":
        n = frame_len(f)
        return n == 0 if isinstance(n, int) else tm.eq(n, tm.ZERO)
    if name == "size":
        n = frame_len(f)
        return n * len(f.cols) if isinstance(n, int) else tm.mul(n, tm.const(len(f.cols)))
    if name == "loc":
        return _loc(it, f)
    if name == "iloc":
        return _iloc(it, f)
    if name == "index":
        return row_labels(f)
    if name == "T":
        raise Unsupported("DataFrame.T")
    if name == "ndim":
        return 2
    if name in f.cols and name not in ("index",):
        return ASeries(f.cols[name], name)

    def assign(it, **kw):
        g = AFrame(dict(f.cols), f.index)
        for k, v in kw.items():
            frame_setitem(it, g, k, it.call(v, [g], {}) if isinstance(v, (AFunc, NFunc, Bound)) else v)
        return g

    def insert(it, loc, column, value, allow_duplicates=False):
        frame_setitem(it, f, column, value)
        items = [(k, v) for k, v in f.cols.items() if k != column]
        items.insert(as_pyint(loc), (column, f.cols[column]))
        f.cols = dict(items)

    def drop(it, labels=None, axis=0, columns=None, inplace=False, **kw):
        if columns is None and axis in (0, "index"):
            labels = labels if labels is not None else kw.get("index")
            own = row_labels(f)
            a = asarr(labels)
            if a.dims != own.dims or any(x is not y for x, y in zip(a.cells(), own.cells())):
                raise Unsupported("dropping some rows of a data frame")
            g = AFrame({k: npm.const_arr((0,), tm.ZERO, v.dtype) for k, v in f.cols.items()})
        else:
            ks = columns if columns is not None else labels
            ks = [ks] if isinstance(ks, str) else it.iterate(ks)
            g = AFrame({k: v for k, v in f.cols.items() if k not in ks}, f.index)
        if it.truth(inplace):
            f.cols, f.index = g.cols, g.index
            return None
        return g

    def reset_index(it, level=None, drop=False, inplace=False, **kw):
        g = AFrame(dict(f.cols))
        if not it.truth(drop):
            g.cols = dict([("index", row_labels(f))] + list(f.cols.items()))
        if it.truth(inplace):
            f.cols, f.index = g.cols, None
            return None
        return g

    def rename(it, columns=None, inplace=False, **kw):
        g = {columns.get(k, k): v for k, v in f.cols.items()}
        if it.truth(inplace):
            f.cols = g
            return None
        return AFrame(g, f.index)
    m = {
        "append": lambda it, o, ignore_index=False, **k: df_append(it, f, o, ignore_index),
        "_append": lambda it, o, ignore_index=False, **k: df_append(it, f, o, ignore_index),
        "copy": lambda it, deep=True: AFrame({k: (ar.copy_array(v) if it.truth(deep) else v) for k, v in f.cols.items()}, f.index),
        "to_numpy": lambda it, *a, **k: ar.copy_array(frame_values(f)), "reset_index": reset_index,
        "assign": assign, "insert": insert, "drop": drop, "rename": rename, "keys": lambda it: list(f.cols),
        "items": lambda it: [(k, ASeries(v, k)) for k, v in f.cols.items()], "get": lambda it, k, d=None: ASeries(f.cols[k], k) if k in f.cols else d,
        "astype": lambda it, d, **k: AFrame({n: npm.cast(c, npm.parse_dtype(d)) for n, c in f.cols.items()}, f.index),
        "pop": lambda it, k: ASeries(f.cols.pop(k), k), "__len__": lambda it: frame_len(f),
    }
    if name in m:
        return NFunc("DataFrame." + name, m[name])
    if name in NAMES["DataFrame"]:
        raise Unsupported("DataFrame.%s" % name)
    return _MISSING


def _sarr(v):
    return v.arr if isinstance(v, ASeries) else v


def frame_binop(it, name, a, b, how="binary"):
    f = a if isinstance(a, AFrame) else b
    if isinstance(a, AFrame) and isinstance(b, AFrame):
        if list(a.cols) != list(b.cols):
            raise Unsupported("arithmetic on tables with different columns")
    elif isinstance(a, (AFrame, ASeries)) and isinstance(b, (AFrame, ASeries)):
        raise Unsupported("arithmetic on a table and a column")
    op = getattr(npm, how)
    out = {}
    for i, k in enumerate(f.cols):
        part = []
        for x in (a, b):
            if isinstance(x, AFrame):
                x = x.cols[k]
            else:
                x = asarr(x)
                if x.ndim == 1:
                    x = asarr(ar.getitem(x, i))
                elif x.ndim == 2:
                    x = asarr(ar.getitem(x, (slice(None), i)))
            part.append(asarr(x))
        out[k] = asarr(op(it, name, part[0], part[1]))
    return AFrame(out, f.index)


def series_binop(it, name, a, b):
    nm = a.name if isinstance(a, ASeries) else b.name
    return ASeries(asarr(npm.binary(it, name, asarr(_sarr(a)), asarr(_sarr(b)))), nm)


def series_compare(it, name, a, b):
    nm = a.name if isinstance(a, ASeries) else b.name
    return ASeries(asarr(npm.compare(it, name, asarr(_sarr(a)), asarr(_sarr(b)))), nm)


def series_getitem(it, s, k):
    if isinstance(k, ASeries):
        k = k.arr
    r = ar.getitem(s.arr, it.norm_key(k))
    return ASeries(r, s.name) if isinstance(r, AArray) else npm.scalar(r, s.arr.dtype)


def series_attr(it, s, name):
    a = s.arr
    if name == "values" or name == "array":
        return a
    if name == "name":
        return s.name
    if name in ("shape", "size", "ndim", "dtype"):
        return npm.array_attr(it, a, name)
    if name in ("iloc", "loc"):
        def put(it, k, v):
            ar.setitem(a, it.norm_key(k), asarr(_sarr(v)))
        return NObj("loc", {"__getitem__": NFunc("loc", lambda it, k: series_getitem(it, s, k)), "__setitem__": NFunc("loc", put)})
    if name == "index":
        return range(a.dims[0]) if not isinstance(a.dims[0], LDim) else npm.arange(ar.dim_size(a.dims[0]))
    if name == "empty":
        n = ar.dim_size(a.dims[0])
        return n == 0 if isinstance(n, int) else tm.eq(n, tm.ZERO)
    ops = {"add": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult", "div": "Div", "divide": "Div", "truediv": "Div",
           "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow"}
    if name in ops:
        return NFunc(name, lambda it, o, **k: series_binop(it, ops[name], s, o))
    if name[:1] == "r" and name[1:] in ops:
        return NFunc(name, lambda it, o, **k: series_binop(it, ops[name[1:]], asarr(_sarr(o)), s))
    cmps = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}
    if name in cmps:
        return NFunc(name, lambda it, o, **k: series_compare(it, cmps[name], s, o))
    S = lambda x: ASeries(asarr(x), s.name)

    def between(it, lo, hi, inclusive="both"):
        import ast
        l = npm.compare(it, "GtE" if inclusive in ("both", "left") else "Gt", a, asarr(lo))
        h = npm.compare(it, "LtE" if inclusive in ("both", "right") else "Lt", a, asarr(hi))
        return S(npm.binary(it, "BitAnd", asarr(l), asarr(h)))

    def mapf(it, f, *x, **k):
        if isinstance(f, dict):
            raise Unsupported("Series.map of dict")
        cells = []
        for c in a.cells():
            r = it.call(f, [npm.scalar(c, a.dtype)], {})
            cells.append(tm.const(r) if isnum(r) else r)
        dt = "f" if all(isinstance(c, T) for c in cells) else "o"
        if dt == "f" and all(ar.isint(c) for c in cells):
            dt = "i"
        return S(ar.from_cells(cells, a.idx.shape, a.dims, dt))
    m = {
        "astype": lambda it, d, **k: S(npm.astype(a, d)), "to_numpy": lambda it, *x, **k: a, "copy": lambda it, deep=True: S(ar.copy_array(a)),
        "abs": lambda it: S(npm.call(it, "abs", a)), "tolist": lambda it: it.iterate(a), "to_list": lambda it: it.iterate(a),
        "reset_index": lambda it, *x, **k: s, "between": between, "apply": mapf, "map": mapf,
        "isin": lambda it, v: S(npm.call(it, "isin", a, v)), "clip": lambda it, lo=None, hi=None, **k: S(npm.clip(a, lo, hi)),
        "round": lambda it, n=0: S(npm.round_(a, n)), "__len__": lambda it: ar.dim_size(a.dims[0]),
        "isna": lambda it: S(npm.call(it, "isnan", a)), "isnull": lambda it: S(npm.call(it, "isnan", a)), "unique": lambda it: npm.unique(a),
        "rename": lambda it, n: ASeries(a, n), "where": lambda it, c, o=tm.NAN: S(npm.where(it, asarr(_sarr(c)), a, asarr(_sarr(o)))),
        "head": lambda it, n=5: S(ar.getitem(a, slice(None, n))),
    }
    if name in m:
        return NFunc("Series." + name, m[name])
    if name in ("sum", "min", "max", "mean", "any", "all", "prod", "std", "var", "argmin", "argmax", "cumsum"):
        r = npm.array_attr(it, a, name)
        return r
    if name in NAMES["Series"]:
        raise Unsupported("Series.%s" % name)
    return _MISSING


def pandas_ns(it):
    DFC.call = df_new

    def ser(it, data=None, index=None, dtype=None, name=None, **k):
        a = _column(it, data)
        if dtype is not None:
            a = npm.cast(a, npm.parse_dtype(dtype))
        return ASeries(a, name)
    SERIESC.call = ser
    ns = {"DataFrame": DFC, "Series": SERIESC, "concat": NFunc("concat", df_concat)}

    def ga(n):
        if n not in NAMES["pandas"]:
            raise PyRaise("AttributeError", "module 'pandas' has no attribute '%s'" % n)

        def f(it2, *a, **k):
            raise Unsupported("pandas.%s" % n)
        return NFunc("pandas." + n, f)
    return ns, ga


# ---------------------------------------------------------------- matplotlib
def mpl_object(it, kind, namekey):
    o = NObj(kind)
    o.children = {}

    def ga(n):
        if namekey is not None and n not in NAMES[namekey] and not n.startswith("__"):
            raise PyRaise("AttributeError", "'%s' object has no attribute '%s'" % (kind, n))
        if n in ("figure", "axes", "patch", "xaxis", "yaxis", "transData", "transAxes", "canvas", "spines"):
            c = o.children.get(n)
            if c is None:
                c = o.children[n] = mpl_object(it, n, "Figure" if n == "figure" else None)
            return c

        def f(it2, *a, **k):
            it2.mpl_log.append((o, n, a, k, tuple(tm.CUR)))
            if n in ("get_xlim", "get_ylim"):
                return (tm.sym("mpl:lo"), tm.sym("mpl:hi"))
            if n in ("subplots", "add_subplot", "gca", "twinx"):
                return mpl_object(it2, "Axes", "Axes")
            return mpl_object(it2, "artist:" + n, None)
        return NFunc("%s.%s" % (kind, n), f)
    o.getattr_ = ga
    return o


def pyplot_mod(it):
    it.mpl_log = []
    state = {}
    plt = NObj("pyplot")

    def gca(it2, *a, **k):
        if "ax" not in state:
            state["ax"] = mpl_object(it, "Axes", "Axes")
        it2.mpl_log.append((plt, "gca", a, k, tuple(tm.CUR)))
        return state["ax"]

    def figure(it2, *a, **k):
        state["ax"] = mpl_object(it, "Axes", "Axes")
        state["fig"] = mpl_object(it, "Figure", "Figure")
        return state["fig"]

    def gcf(it2, *a, **k):
        if "fig" not in state:
            state["fig"] = mpl_object(it, "Figure", "Figure")
        return state["fig"]

    def subplots(it2, *a, **k):
        figure(it2)
        return (state["fig"], state["ax"])

    def sca(it2, ax):
        state["ax"] = ax

    def ga(n):
        if n not in NAMES["pyplot"]:
            raise PyRaise("AttributeError", "module 'matplotlib.pyplot' has no attribute '%s'" % n)

        def f(it2, *a, **k):
            it2.mpl_log.append((plt, n, a, k, tuple(tm.CUR)))
            if n in ("axes", "axis", "subplot"):
                return gca(it2)
            return mpl_object(it2, "artist:" + n, None)
        return NFunc("plt." + n, f)
    m = NModule("matplotlib.pyplot", {"gca": NFunc("gca", gca), "figure": NFunc("figure", figure), "gcf": NFunc("gcf", gcf), "subplots": NFunc("subplots", subplots),
                                      "sca": NFunc("sca", sca)}, ga)
    it.mpl_state = state
    return m


# ---------------------------------------------------------------- scipy
def scipy_mods(it):
    def from_matrix(it, M):
        a = asarr(M)
        if npm.shape_of(a)[-2:] != (3, 3):
            raise PyRaise("ValueError", "Expected `matrix` to have shape (3, 3) or (N, 3, 3), got %s" % (npm.shape_of(a),))
        cells = [tm.num(c) for c in a.cells()]
        o = NObj("Rotation")
        o.cells = cells

        def quat(it, *x, **k):
            # scipy's from_matrix: the largest of the diagonal entries and the trace selects the formula; normalised
            m = [cells[0:3], cells[3:6], cells[6:9]]
            tr = tm.add(tm.add(m[0][0], m[1][1]), m[2][2])
            dec = [m[0][0], m[1][1], m[2][2], tr]
            cand = []
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                q = [None] * 4
                q[i] = tm.add(tm.sub(tm.ONE, tr), tm.mul(tm.TWO, m[i][i]))
                q[j] = tm.add(m[j][i], m[i][j])
                q[k] = tm.add(m[k][i], m[i][k])
                q[3] = tm.sub(m[k][j], m[j][k])
                cand.append(q)
            cand.append([tm.sub(m[2][1], m[1][2]), tm.sub(m[0][2], m[2][0]), tm.sub(m[1][0], m[0][1]), tm.add(tm.ONE, tr)])
            # argmax picks the first maximum
            best = [tm.and_(*([tm.lt(dec[j], dec[i]) for j in range(i)] + [tm.not_(tm.lt(dec[i], dec[j])) for j in range(i + 1, 4)])) for i in range(4)]
            q = [tm.ite(best[0], cand[0][c], tm.ite(best[1], cand[1][c], tm.ite(best[2], cand[2][c], cand[3][c]))) for c in range(4)]
            n = tm.sqrt(tm.add(tm.add(tm.mul(q[0], q[0]), tm.mul(q[1], q[1])), tm.add(tm.mul(q[2], q[2]), tm.mul(q[3], q[3]))))
            return ar.make(np.array([tm.div(c, n) for c in q], dtype=object), (4,), "f")
        o.ns["as_quat"] = NFunc("as_quat", quat)
        o.ns["as_matrix"] = NFunc("as_matrix", lambda it: ar.copy_array(a))

        def ga(n):
            if n not in NAMES["Rotation"]:
                raise PyRaise("AttributeError", "'Rotation' object has no attribute '%s'" % n)
            return NFunc(n, lambda it, *x, **k: Unk("Rotation.%s" % n))
        o.getattr_ = ga
        return o
    rot = NObj("RotationClass", {"from_matrix": NFunc("from_matrix", from_matrix)})

    def rga(n):
        if n not in NAMES["Rotation"]:
            raise PyRaise("AttributeError", "type object 'Rotation' has no attribute '%s'" % n)

        def f(it, *a, **k):
            raise Unsupported("Rotation.%s" % n)
        return NFunc(n, f)
    rot.getattr_ = rga
    tr = NModule("scipy.spatial.transform", {"Rotation": rot})
    sp = NModule("scipy.spatial", {"transform": tr})

    def gbs(it, rank, connectivity):
        if not (isinstance(rank, int) and isinstance(connectivity, int)):
            raise Unsupported("generate_binary_structure of a symbolic rank")
        g = np.indices((3,) * rank) - 1
        b = np.abs(g).sum(axis=0) <= max(connectivity, 1)
        return ar.from_cells([tm.TRUE if x else tm.FALSE for x in b.reshape(-1)], b.shape, (3,) * rank, "b")

    def dilation(it, a, structure=None, iterations=1, **k):
        a = asarr(a)
        if isinstance(iterations, AArray):
            iterations = iterations.cells()[0]
        if isinstance(iterations, T) and tm.num(iterations).k == "c":
            iterations = int(tm.num(iterations).a[0])
        if k or not isinstance(iterations, int) or any(not isinstance(d, int) for d in a.dims):
            raise Unsupported("binary_dilation with these arguments")
        s = asarr(structure if structure is not None else gbs(it, len(a.dims), 1))
        sh = tuple(a.dims)
        offs = []
        for p, c in zip(np.ndindex(*s.dims), s.cells()):
            c = tm.truth(c)
            if c is tm.TRUE:
                offs.append(tuple(x - n // 2 for x, n in zip(p, s.dims)))
            elif c is not tm.FALSE:
                raise Unsupported("binary_dilation with a symbolic structure")
        cur = {p: tm.truth(c) for p, c in zip(np.ndindex(*sh), a.cells())}
        for _ in range(iterations if iterations >= 1 else sum(sh)):       # fewer than one: until nothing changes any more
            cur = {p: tm.or_(*[cur[q] for o in offs for q in [tuple(x - y for x, y in zip(p, o))] if q in cur]) for p in cur}
        return ar.from_cells([cur[p] for p in np.ndindex(*sh)], a.idx.shape, a.dims, "b")
    nd = NModule("scipy.ndimage", {"binary_dilation": NFunc("binary_dilation", dilation), "generate_binary_structure": NFunc("generate_binary_structure", gbs)})

    def nga(n):
        if n not in NAMES["scipy.ndimage"]:
            raise PyRaise("AttributeError", "module 'scipy.ndimage' has no attribute '%s'" % n)

        def f(it, *a, **k):
            raise Unsupported("ndimage.%s" % n)
        return NFunc(n, f)
    nd.getattr_ = nga
    s = NModule("scipy", {"spatial": sp, "ndimage": nd})
    return {"scipy": s, "scipy.spatial": sp, "scipy.spatial.transform": tr, "scipy.ndimage": nd}


# ---------------------------------------------------------------- tables
def _typing_obj(name):
    o = NObj("typing." + name)
    o.ns["__getitem__"] = NFunc("sub", lambda it, k: o)
    o.ns["__call__"] = NFunc("call", lambda it, *a, **k: o)
    return o


def build(it):
    mods = dict(npm.build(it))
    from . import interp as ip

    def mod(name, ns, ga=None):
        mods[name] = NModule(name, ns, ga)
        return mods[name]
    tns = {"Generic": GENERIC, "Protocol": NClass("Protocol", (OBJECT,)), "NamedTuple": NClass("NamedTuple", (OBJECT,)), "TYPE_CHECKING": False,
           "cast": NFunc("cast", lambda it, t, v: v), "TypeVar": NFunc("TypeVar", lambda it, n, *a, **k: _typing_obj(n)), "overload": NFunc("overload", lambda it, f: f),
           "final": NFunc("final", lambda it, f: f), "runtime_checkable": NFunc("rc", lambda it, c: c), "no_type_check": NFunc("n", lambda it, f: f)}
    mod("typing", tns, _typing_obj)
    mod("__future__", {}, lambda n: None)

    def abstractmethod(it, f):
        if isinstance(f, AFunc):
            f.attrs["__isabstractmethod__"] = True
        return f
    mod("abc", {"ABC": ABC, "abstractmethod": NFunc("abstractmethod", abstractmethod), "ABCMeta": NClass("ABCMeta", (TYPE,)),
                "abstractproperty": NFunc("abstractproperty", lambda it, f: Prop(abstractmethod(it, f)))})
    auto = NFunc("auto", lambda it: NObj("auto"))
    mod("enum", {"Enum": ENUM, "IntEnum": NClass("IntEnum", (ENUM,)), "Flag": NClass("Flag", (ENUM,)), "auto": auto, "unique": NFunc("unique", lambda it, c: c)})
    mod("dataclasses", {"dataclass": NFunc("dataclass", dataclass_), "field": NFunc("field", dc_field),
                        "replace": NFunc("replace", lambda it, o, **k: _dc_replace(it, o, k)), "FrozenInstanceError": EXCS["FrozenInstanceError"],
                        "is_dataclass": NFunc("is_dataclass", lambda it, o: bool((o if isinstance(o, AClass) else it.type_of(o)).lookup("__dc_fields__")[0] is not None))})
    mod("itertools", itertools_ns(it))
    mod("functools", functools_ns(it))
    mod("math", math_ns(it))
    mod("operator", operator_ns(it))
    mod("copy", {"copy": NFunc("copy", shallow_copy), "deepcopy": NFunc("deepcopy", deep_copy)})
    ns, ga = pandas_ns(it)
    mod("pandas", ns, ga)
    plt = pyplot_mod(it)
    mods["matplotlib.pyplot"] = plt
    mod("matplotlib", {"pyplot": plt})
    mods.update(scipy_mods(it))
    warn = NFunc("warn", lambda it, *a, **k: None)
    mod("warnings", {"warn": warn, "filterwarnings": warn, "simplefilter": warn,
                     "catch_warnings": NFunc("cw", lambda it, *a, **k: NObj("cw", {"__enter__": NFunc("e", lambda it: None), "__exit__": NFunc("x", lambda it, *a: False)}))})
    logf = NFunc("log", lambda it, *a, **k: None)
    logger = NObj("logger", {n: logf for n in ("debug", "info", "warning", "error", "critical", "exception", "log", "setLevel", "addHandler")})
    mod("logging", {"getLogger": NFunc("getLogger", lambda it, *a: logger), "NullHandler": NFunc("n", lambda it: None), **{n: logf for n in ("debug", "info", "warning", "error")}})
    mod("sys", {"maxsize": 2 ** 63 - 1, "float_info": NObj("float_info", {"epsilon": tm.const(2.220446049250313e-16), "max": tm.const(1.7976931348623157e308),
                                                                       "min": tm.const(2.2250738585072014e-308)}),
                "version_info": (3, 8, 0), "modules": {}})
    mod("os", {}, lambda n: Unk("os." + n))
    mod("time", {}, lambda n: NFunc("time." + n, lambda it, *a: tm.sym("time:%d" % it.steps)))
    c = NClass
    if "abcs" not in _abc_store:
        _abc_store["abcs"] = {
            "Iterable": _mkabc("Iterable", _has("__iter__")), "Sized": _mkabc("Sized", _has("__len__")), "Callable": _mkabc("Callable", _has("__call__")),
            "Container": _mkabc("Container", _has("__contains__")), "Collection": _mkabc("Collection", _has("__iter__", "__len__", "__contains__")),
            "Iterator": _mkabc("Iterator", _has("__iter__", "__next__")),
            "Hashable": _mkabc("Hashable", lambda it, o: not unhashable(it, o)),
            "Sequence": _mkabc("Sequence", lambda it, o: isinstance(o, (list, tuple, str, range)) or (isinstance(o, AObj) and any(k.name == "UserList" for k in o.cls.mro))),
            "MutableSequence": _mkabc("MutableSequence", lambda it, o: isinstance(o, list) or (isinstance(o, AObj) and any(k.name == "UserList" for k in o.cls.mro))),
            "Mapping": _mkabc("Mapping", _types(dict)), "MutableMapping": _mkabc("MutableMapping", _types(dict)), "Set": _mkabc("Set", _types(set, frozenset)),
        }
        _abc_store["nums"] = {"Number": _mkabc("Number", lambda it, o: isnum(o)), "Real": _mkabc("Real", lambda it, o: isnum(o)), "Integral": _mkabc("Integral", lambda it, o: isinstance(o, int))}
    mod("collections.abc", dict(_abc_store["abcs"]))
    mod("numbers", dict(_abc_store["nums"]))
    tns.update({k: v for k, v in _abc_store["abcs"].items()})
    it.sources["_contextlib"] = CONTEXTLIB_SRC

    def ctx(n):
        m = it.import_module("_contextlib").ns
        if n in m and not n.startswith("_"):
            return m[n]
        if n not in NAMES.get("contextlib", (n,)):
            raise PyRaise("AttributeError", "module 'contextlib' has no attribute '%s'" % n)
        raise Unsupported("contextlib.%s" % n)
    mod("contextlib", {}, ctx)
    it.sources["_collections_stub"] = COLLECTIONS_SRC

    def coll(n):
        if n in ("UserList", "UserDict", "deque"):
            return it.import_module("_collections_stub").ns[n]
        if n == "abc":
            return mods["collections.abc"]
        if n not in NAMES["collections"]:
            raise PyRaise("AttributeError", "module 'collections' has no attribute '%s'" % n)
        raise Unsupported("collections.%s" % n)
    mod("collections", {"namedtuple": NFunc("namedtuple", namedtuple_), "defaultdict": NFunc("defaultdict", defaultdict_), "OrderedDict": DICTC}, coll)
    return mods


_abc_store = {}


def _unsup(m):
    raise Unsupported(m)


def _dc_replace(it, o, k):
    f = o.cls.lookup("__dc_fields__")[0]
    kw = {n: o.attrs[n] for n, x in f.items() if x.init}
    kw.update(k)
    return it.call(o.cls, [], kw)
