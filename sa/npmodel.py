"""Abstract transfer functions of numpy (semantics written from the numpy reference; numpy itself is not called on
program values)."""
import itertools
import json
import os
from fractions import Fraction

import numpy as np

from . import arrays as ar
from . import terms as tm
from .arrays import AArray, LDim, PyRaise, Unsupported, CrossLane, as_pyint, elementwise, from_cells, gshape
from .terms import T
from .interp import (NFunc, NModule, NObj, NClass, AClass, AObj, Unk, Iter, NDARRAY, FLOATC, INTC, BOOLC, OBJECT,
                     NPFLOAT, NPINT, NPBOOL, NPGENERIC, LISTC, _MISSING, Bound, Prop)

NAMES = json.load(open(os.path.join(os.path.dirname(__file__), "data", "libnames.json")))


# ---------------------------------------------------------------- helpers
def asarray(v, dtype=None):
    if isinstance(v, AArray):
        if dtype is not None and v.dtype != dtype:
            return cast(v, dtype)
        return v
    a = _asarray(v)
    if dtype is not None and a.dtype != dtype:
        a = cast(a, dtype)
    return a


def _leaf_dtype(v):
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, T):
        if v.bool:
            return "b"
        if v.k != "c" and ar.isint(v):
            return "i"
        return "f"
    return "o"


def _asarray(v):
    if isinstance(v, (T, bool, int)):
        g = np.empty((), dtype=object)
        g[()] = tm.const(v)
        return ar.make(g, (), _leaf_dtype(v))
    if isinstance(v, Iter):
        raise Unsupported("array of a generator object")
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, (list, tuple)):
        if not v:
            return from_cells([], (0,), (0,), "f")
        items = [x if isinstance(x, (AArray, T, bool, int)) else (_asarray(x) if isinstance(x, (list, tuple, range)) else x) for x in v]
        if any(hasattr(x, "arr") and hasattr(x, "name") for x in items):
            items = [x.arr if hasattr(x, "arr") else x for x in items]
        if all(isinstance(x, (AArray, T, bool, int)) for x in items):
            arrs = [asarray(x) for x in items]
            nd = arrs[0].ndim
            if any(a.ndim != nd for a in arrs) or any(a.dims != arrs[0].dims for a in arrs):
                raise PyRaise("ValueError", "setting an array element with a sequence. The requested array has an inhomogeneous shape")
            dt = ar.result_dtype(*[a.dtype for a in arrs])
            grids = [a.grid() for a in arrs]
            g = np.empty((len(arrs),) + grids[0].shape, dtype=object)
            for i, x in enumerate(grids):
                if x.ndim == 0:
                    g[i] = x[()]
                else:
                    g[i, ...] = x
            if dt != "o":
                flat = g.reshape(-1)
                for i in range(len(flat)):
                    flat[i] = ar.store_conv(flat[i], dt)
            return ar.make(g, (len(arrs),) + tuple(arrs[0].dims), dt)
        # objects
        if any(isinstance(x, Unk) for x in items):
            items = [tm.unk(x.reason) if isinstance(x, Unk) else x for x in items]
            return _asarray(items)
        flat = [x.item() if isinstance(x, AArray) and x.ndim == 0 else x for x in items]
        g = np.empty(len(flat), dtype=object)
        for i, x in enumerate(flat):
            g[i] = x
        return ar.make(g, (len(flat),), "o")
    if hasattr(v, "arr") and hasattr(v, "name"):
        return v.arr
    if isinstance(v, Unk):
        g = np.empty((), dtype=object)
        g[()] = tm.unk(v.reason)
        return ar.make(g, (), "f")
    if hasattr(v, "cols"):
        from . import models
        return models.frame_values(v)
    if isinstance(v, AObj):
        f, _ = v.cls.lookup("__array__")
        if f is None and v.payload is not None and isinstance(v.payload, AArray):
            return v.payload
    g = np.empty((), dtype=object)
    g[()] = v
    return ar.make(g, (), "o")


def cast(a, dtype):
    cells = [ar.store_conv(c, dtype) if isinstance(c, T) else c for c in a.cells()]
    if dtype in ("f", "i") and any(not isinstance(c, T) for c in cells):
        if any(c is None for c in cells):
            raise PyRaise("TypeError", "float() argument must be a string or a number, not 'NoneType'")
        cells = [ar.store_conv(tm.const(c), dtype) if isinstance(c, (bool, int)) else c for c in cells]
    return from_cells(cells, a.idx.shape, a.dims, dtype, a.cls)


def wrap(a):
    """0-d results become scalars"""
    if isinstance(a, AArray) and a.ndim == 0:
        return scalar(a.item(), a.dtype)
    return a


def scalar(c, dtype):
    if dtype == "i" and isinstance(c, T) and c.k == "c":
        i = as_pyint(c)
        if i is not None:
            return i
    return c


_NARROW = {"int16": "i", "int8": "i", "uint8": "i", "uint16": "i", "int32": "i", "uint32": "i", "float32": "f", "float16": "f"}
_NARROW_ALIAS = {"single": "float32", "half": "float16", "intc": "int32", "f4": "float32", "f2": "float16", "i1": "int8", "i2": "int16", "i4": "int32",
                 "u1": "uint8", "u2": "uint16", "u4": "uint32", "<f4": "float32", "<i4": "int32", "<i2": "int16"}


def _narrow(n):
    n = _NARROW_ALIAS.get(n, n)
    return ar.Narrow(_NARROW[n], n) if n in _NARROW else None


def parse_dtype(d):
    if d is None:
        return None
    n = _narrow(d) if isinstance(d, str) and not isinstance(d, ar.Narrow) else (_narrow(d.name) if isinstance(d, NClass) else None)
    if n is not None:
        return n
    if isinstance(d, ar.Narrow):
        return d
    if isinstance(d, str):
        if d in ("object", "O"):
            return "o"
        if d.startswith("bool") or d == "?":
            return "b"
        if d.startswith(("int", "uint", "i", "u")):
            return "i"
        return "f"
    if isinstance(d, NObj) and d.kind == "dtype":
        return d.ns["_code"]
    if isinstance(d, (NClass,)):
        if BOOLC is d or NPBOOL in d.mro:
            return "b"
        if d is INTC or NPINT in d.mro:
            return "i"
        if d is FLOATC or FLOATC in d.mro or d is NPGENERIC:
            return "f"
        if d is OBJECT:
            return "o"
    return "f"


def dtype_obj(code):
    if isinstance(code, ar.Narrow):
        return NARROW_CLS[code.narrow]
    c = {"f": FLOATC, "i": INTC, "b": BOOLC, "o": OBJECT}[code]
    return c


NARROW_CLS = {}


def _result_type(it, *a):
    ds = [parse_dtype(x) if isinstance(x, (NClass, str)) or isinstance(x, NObj) and x.kind == "dtype" else asarray(x).dtype for x in a]
    if not ds:
        raise PyRaise("ValueError", "at least one array or dtype is required")
    return dtype_obj(ar.result_dtype(*ds))


def norm_shape(shape):
    if isinstance(shape, AArray):
        shape = [scalar(c, "i") for c in shape.cells()]
    if not isinstance(shape, (tuple, list)):
        shape = [shape]
    out = []
    for s in shape:
        if isinstance(s, LDim):
            out.append(s)
            continue
        i = as_pyint(s)
        if i is not None:
            if isinstance(s, T) and s.k == "c" and False:
                pass
            if i < 0:
                raise PyRaise("ValueError", "negative dimensions are not allowed")
            out.append(i)
        elif isinstance(s, bool):
            out.append(int(s))
        elif isinstance(s, T):
            f = tm.fv(s)
            if f is not None:
                raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
            out.append(ar.ldim_for_size(s))
        elif isinstance(s, Unk):
            raise Unsupported("unknown shape")
        else:
            raise PyRaise("TypeError", "'%s' object cannot be interpreted as an integer" % type(s).__name__)
    return tuple(out)


def shape_of(a):
    return tuple(ar.dim_size(d) for d in a.dims)


def norm_axis(ax, nd):
    i = as_pyint(ax)
    if i is None:
        raise PyRaise("TypeError", "an integer is required for the axis")
    if not -nd <= i < nd:
        raise PyRaise("AxisError", "axis %d is out of bounds for array of dimension %d" % (i, nd))
    return i % nd


# ---------------------------------------------------------------- ufuncs
def _bitand(a, b):
    if a.bool and b.bool:
        return tm.and_(a, b)
    return _intop("and", a, b)


def _intop(name, a, b):
    x, y = as_pyint(tm.num(a)), as_pyint(tm.num(b))
    if x is not None and y is not None:
        return tm.const({"and": x & y, "or": x | y, "xor": x ^ y}[name])
    if not ((ar.isint(tm.num(a)) or a.bool) and (ar.isint(tm.num(b)) or b.bool)):
        raise PyRaise("TypeError", "ufunc 'bitwise_%s' not supported for the input types" % name)
    for u, v in ((a, b), (b, a)):
        u, v = tm.num(u), tm.num(v)
        if name == "and" and as_pyint(v) is not None and as_pyint(v) > 0 and as_pyint(v) & (as_pyint(v) + 1) == 0:
            return tm.fn("mod", u, tm.const(as_pyint(v) + 1))
    return tm.fn("bit" + name, tm.num(a), tm.num(b))


def _logical(f):
    return lambda a, b: f(tm.truth(a), tm.truth(b))


def _sign(a):
    a = tm.num(a)
    if tm.isc(a):
        return tm.fn("sign", a)
    return tm.ite(tm.lt(tm.ZERO, a), tm.ONE, tm.ite(tm.lt(a, tm.ZERO), tm.MONE, tm.ite(tm.isnan(a), tm.NAN, tm.ZERO)) if _maynan(a) else tm.ite(tm.lt(a, tm.ZERO), tm.MONE, tm.ZERO))


def _maynan(a):
    return False


UN = {
    "sin": (lambda a: tm.trig("sin", a), "f"), "cos": (lambda a: tm.trig("cos", a), "f"),
    "tan": (lambda a: tm.trig("tan", a), "f"),
    "arcsin": (lambda a: tm.fn("arcsin", a), "f"), "arccos": (lambda a: tm.fn("arccos", a), "f"),
    "arctan": (lambda a: tm.fn("arctan", a), "f"), "exp": (lambda a: tm.fn("exp", a), "f"),
    "sinh": (lambda a: tm.fn("sinh", a), "f"), "cosh": (lambda a: tm.fn("cosh", a), "f"), "tanh": (lambda a: tm.fn("tanh", a), "f"),
    "log": (lambda a: tm.fn("log", a), "f"), "log10": (lambda a: tm.fn("log10", a), "f"), "log2": (lambda a: tm.fn("log2", a), "f"),
    "log1p": (lambda a: tm.fn("log1p", a), "f"), "expm1": (lambda a: tm.fn("expm1", a), "f"),
    "sqrt": (tm.sqrt, "f"), "cbrt": (lambda a: tm.fn("cbrt", a), "f"),
    "square": (lambda a: tm.mul(a, a), "n"), "reciprocal": (lambda a: tm.div(tm.ONE, a), "f"),
    "negative": (tm.neg, "n"), "positive": (lambda a: a, "n"),
    "abs": (tm.abs_, "n"), "absolute": (tm.abs_, "n"), "fabs": (tm.abs_, "f"), "sign": (_sign, "n"),
    "floor": (lambda a: tm.fn("floor", a), "f"), "ceil": (lambda a: tm.fn("ceil", a), "f"), "trunc": (lambda a: tm.fn("trunc", a), "f"),
    "rint": (lambda a: tm.fn("rint", a), "f"),
    "isfinite": (tm.isfinite, "b"), "isinf": (tm.isinf, "b"), "isnan": (tm.isnan, "b"),
    "logical_not": (tm.not_, "b"), "invert": (None, "n"), "bitwise_not": (None, "n"),
    "signbit": (lambda a: tm.lt(a, tm.ZERO), "b"),
    "deg2rad": (lambda a: tm.mul(tm.div(a, tm.const(180)), tm.PI), "f"), "radians": (lambda a: tm.mul(tm.div(a, tm.const(180)), tm.PI), "f"),
    "rad2deg": (lambda a: tm.div(tm.mul(a, tm.const(180)), tm.PI), "f"), "degrees": (lambda a: tm.div(tm.mul(a, tm.const(180)), tm.PI), "f"),
    "conjugate": (lambda a: a, "n"), "real": (lambda a: a, "n"),
}


def _heaviside(a, b):
    return tm.ite(tm.lt(a, tm.ZERO), tm.ZERO, tm.ite(tm.eq(a, tm.ZERO), b, tm.ONE))


def _div(a, b):
    return tm.div(a, b)


BIN = {
    "add": (tm.add, "n"), "subtract": (tm.sub, "n"), "multiply": (tm.mul, "n"), "divide": (_div, "f"), "true_divide": (_div, "f"),
    "floor_divide": (lambda a, b: tm.fn("floordiv", a, b), "n"), "mod": (lambda a, b: tm.fn("mod", a, b), "n"),
    "remainder": (lambda a, b: tm.fn("mod", a, b), "n"), "fmod": (lambda a, b: tm.fn("fmod", a, b), "n"),
    "power": (tm.powt, "n"), "float_power": (tm.powt, "f"),
    "maximum": (lambda a, b: tm.minmax("max", a, b), "n"), "minimum": (lambda a, b: tm.minmax("min", a, b), "n"),
    "fmax": (lambda a, b: tm.minmax("max", a, b), "n"), "fmin": (lambda a, b: tm.minmax("min", a, b), "n"),
    "less": (tm.lt, "b"), "less_equal": (tm.le, "b"), "greater": (lambda a, b: tm.lt(b, a), "b"), "greater_equal": (lambda a, b: tm.le(b, a), "b"),
    "equal": (tm.eq, "b"), "not_equal": (lambda a, b: tm.not_(tm.eq(a, b)), "b"),
    "logical_and": (_logical(tm.and_), "b"), "logical_or": (_logical(tm.or_), "b"), "logical_xor": (_logical(tm.xor_), "b"),
    "bitwise_and": (_bitand, "n"), "bitwise_or": (lambda a, b: tm.or_(a, b) if a.bool and b.bool else _intop("or", a, b), "n"),
    "bitwise_xor": (lambda a, b: tm.xor_(a, b) if a.bool and b.bool else _intop("xor", a, b), "n"),
    "arctan2": (lambda a, b: tm.fn("arctan2", a, b), "f"), "hypot": (lambda a, b: tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b))), "f"),
    "copysign": (lambda a, b: tm.fn("copysign", a, b), "f"), "heaviside": (_heaviside, "f"),
}
IDENT = {"add": tm.ZERO, "multiply": tm.ONE, "logical_and": tm.TRUE, "logical_or": tm.FALSE, "bitwise_and": tm.TRUE, "bitwise_or": tm.FALSE}
OPNAME = {"Add": "add", "Sub": "subtract", "Mult": "multiply", "Div": "divide", "FloorDiv": "floor_divide", "Mod": "mod", "Pow": "power",
          "BitAnd": "bitwise_and", "BitOr": "bitwise_or", "BitXor": "bitwise_xor"}
CMPNAME = {"Lt": "less", "LtE": "less_equal", "Gt": "greater", "GtE": "greater_equal", "Eq": "equal", "NotEq": "not_equal"}


def pick_cls(arrs):
    for a in arrs:
        if a.cls is not None:
            return a.cls
    return None


def _num_operand(name, a):
    if a.dtype == "o":
        bad = [c for c in a.cells() if not isinstance(c, (T, bool, int))]
        if bad:
            raise PyRaise("TypeError", "unsupported operand type(s) for %s: %r" % (name, bad[0]))
        return from_cells([tm.const(c) for c in a.cells()], a.idx.shape, a.dims, "f", a.cls)
    return a


def apply_un(name, a):
    f, k = UN[name]
    a = _num_operand(name, a)
    if name in ("invert", "bitwise_not"):
        if a.dtype == "f":
            raise PyRaise("TypeError", "ufunc 'invert' not supported for the input types")
        if a.dtype == "b":
            return elementwise(lambda x: tm.not_(x), [a], "b", a.cls)
        return elementwise(lambda x: tm.sub(tm.MONE, x), [a], "i", a.cls)
    dt = k if k in ("f", "b") else a.dtype
    if k == "n" and a.dtype == "b" and name == "negative":
        raise PyRaise("TypeError", "The numpy boolean negative, the `-` operator, is not supported")
    if name in ("floor", "ceil", "trunc", "rint") and a.dtype in ("i",):
        return elementwise(lambda x: x, [a], "f", a.cls)
    return elementwise(f, [a], dt, a.cls)


def apply_bin(name, a, b):
    f, k = BIN[name]
    if name in ("equal", "not_equal") and (a.dtype == "o" or b.dtype == "o"):
        def g(x, y):
            if isinstance(x, T) and isinstance(y, T):
                return f(x, y)
            r = tm.const(x is y)
            return r if name == "equal" else tm.not_(r)
        return elementwise(g, [a, b], "b", pick_cls([a, b]))
    a, b = _num_operand(name, a), _num_operand(name, b)
    dt = ar.result_dtype(a.dtype, b.dtype)
    cls = pick_cls([a, b])
    if k in ("f", "b"):
        return elementwise(f, [a, b], k, cls)
    if name.startswith("bitwise") and dt == "f":
        raise PyRaise("TypeError", "ufunc '%s' not supported for the input types" % name)
    if dt == "b":
        if name == "add":
            return elementwise(tm.or_, [a, b], "b", cls)
        if name == "multiply":
            return elementwise(tm.and_, [a, b], "b", cls)
        if name == "subtract":
            raise PyRaise("TypeError", "numpy boolean subtract, the `-` operator, is not supported")
        if name == "maximum":
            return elementwise(tm.or_, [a, b], "b", cls)
        if name == "minimum":
            return elementwise(tm.and_, [a, b], "b", cls)
        if not name.startswith("bitwise"):
            dt = "i"
    if name.startswith("bitwise") and dt == "i":
        return elementwise(lambda x, y: f(tm.num(x), tm.num(y)), [a, b], "i", cls)
    return elementwise(f, [a, b], dt, cls)


def write_out(out, res, where=None, name="ufunc"):
    if isinstance(out, tuple):
        if len(out) != 1:
            raise PyRaise("ValueError", "The 'out' tuple must have exactly one entry per ufunc output")
        out = out[0]
    if not isinstance(out, AArray):
        raise PyRaise("TypeError", "return arrays must be of ArrayType")
    if ar.ORDER[res.dtype] > ar.ORDER[out.dtype] and out.dtype != "o":
        raise PyRaise("UFuncTypeError", "Cannot cast ufunc '%s' output from dtype('%s') to dtype('%s') with casting rule 'same_kind'" % (name, res.dtype, out.dtype))
    d = ar.bdims(res.dims, out.dims)
    if len(d) != out.ndim or any((x != y) for x, y in zip(d, out.dims)):
        raise PyRaise("ValueError", "non-broadcastable output operand")
    src = ar.assign_cells(res, out.dims)
    c = out.buf.cells
    wm = None
    if where is not None:
        wm = ar.assign_cells(asarray(where, "b"), out.dims)
    ar.note_write(out.buf)
    for j, (i, v) in enumerate(zip(out.idx.ravel(), src)):
        v = ar.store_conv(v, out.dtype) if isinstance(v, T) else v
        c[i] = v if wm is None else tm.ite(wm[j], v, c[i])
    return out


class Ufunc(NFunc):
    def __init__(self, name, nin):
        super().__init__(name, self.invoke)
        self.nin = nin

    def compute(self, arrs):
        if self.nin == 1:
            return apply_un(self.name, arrs[0])
        return apply_bin(self.name, arrs[0], arrs[1])

    def invoke(self, it, *args, **kw):
        args = list(args)
        out = kw.pop("out", None)
        where = kw.pop("where", None)
        dtype = kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("order", None)
        kw.pop("subok", None)
        if kw:
            raise PyRaise("TypeError", "%s() got an unexpected keyword argument '%s'" % (self.name, next(iter(kw))))
        if len(args) < self.nin:
            raise PyRaise("TypeError", "%s() takes from %d to %d positional arguments but %d were given" % (self.name, self.nin, self.nin + 1, len(args)))
        if len(args) > self.nin + 1:
            raise PyRaise("TypeError", "%s() takes from %d to %d positional arguments but %d were given" % (self.name, self.nin, self.nin + 1, len(args)))
        if len(args) > self.nin:
            if out is not None:
                raise PyRaise("TypeError", "cannot specify 'out' as both a positional and keyword argument")
            out = args.pop()
        from . import models
        ser = [x for x in args if isinstance(x, models.ASeries)]
        arrs = [asarray(x) for x in args]
        if any(isinstance(x, Unk) for x in args):
            pass
        res = self.compute(arrs)
        if dtype is not None:
            res = cast(res, parse_dtype(dtype))
        if where is True:
            where = None
        if out is not None:
            return write_out(out, res, where, self.name)
        if where is not None:
            w = asarray(where, "b")
            res = elementwise(lambda c, x: tm.ite(c, x, tm.UNINIT), [w, res], res.dtype, res.cls)
        if ser:
            return models.ASeries(res, ser[0].name)
        return wrap(res)

    def ufunc_attr(self, name):
        if name == "reduce":
            return NFunc(self.name + ".reduce", self.reduce)
        if name == "accumulate":
            return NFunc(self.name + ".accumulate", self.accumulate)
        if name == "outer":
            return NFunc(self.name + ".outer", self.outer)
        if name == "at":
            return NFunc(self.name + ".at", self.at)
        if name in ("nin", "nargs"):
            return self.nin
        return _MISSING

    def reduce(self, it, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=None):
        a = asarray(a)
        m = {"add": "sum", "logical_or": "any", "logical_and": "all", "maximum": "max", "minimum": "min", "multiply": "prod",
             "bitwise_or": "any", "bitwise_and": "all"}.get(self.name)
        if m is None:
            ax = norm_axis(axis, a.ndim)
            if isinstance(a.dims[ax], LDim):
                raise Unsupported("reduce over the ray axis")
            parts = [ar.getitem(a, (slice(None),) * ax + (i,)) for i in range(a.dims[ax])]
            r = asarray(parts[0])
            for p in parts[1:]:
                r = apply_bin(self.name, r, asarray(p))
            if self.name.startswith("logical"):
                r = cast(r, "b")
            return wrap(r)
        return reduce_(m, a, axis, keepdims, out=out, initial=initial, where=where)

    def accumulate(self, it, a, axis=0, dtype=None, out=None):
        a = asarray(a)
        ax = norm_axis(axis, a.ndim)
        if isinstance(a.dims[ax], LDim):
            raise Unsupported("accumulate over the ray axis")
        parts = [asarray(ar.getitem(a, (slice(None),) * ax + (i,))) for i in range(a.dims[ax])]
        acc = [parts[0]]
        for p in parts[1:]:
            acc.append(apply_bin(self.name, acc[-1], p))
        r = stack(acc, ax)
        return write_out(out, r) if out is not None else r

    def outer(self, it, a, b):
        a, b = asarray(a), asarray(b)
        x = ar.getitem(a, (Ellipsis,) + (None,) * b.ndim) if b.ndim else a
        return wrap(apply_bin(self.name, x, b))

    def at(self, it, a, idx, b=None):
        raise Unsupported("ufunc.at")


# ---------------------------------------------------------------- reductions
def _red_cell(kind, items):
    """items: list of (cell, lane, guard); lane None for fixed positions"""
    fixed = []
    for c, lane, g in items:
        if lane is None or isinstance(lane, tuple):
            if g is tm.FALSE:
                continue
            fixed.append((c, g))
            continue
        if kind in ("any",):
            fixed.append((tm.agg("any", tm.and_(g, tm.truth(c)), str(lane)), tm.TRUE))
        elif kind == "all":
            fixed.append((tm.agg("all", tm.or_(tm.not_(g), tm.truth(c)), str(lane)), tm.TRUE))
        elif kind == "sum":
            if c.bool:
                v = tm.and_(g, c)
                fixed.append((ar.block_size((lane, v)), tm.TRUE))
            elif tm.isc(c) and g is tm.TRUE:
                fixed.append((tm.mul(c, ar.LANES[lane]), tm.TRUE))
            else:
                fixed.append((tm._mk("agg", "sum", tm.ite(g, tm.num(c), tm.ZERO), str(lane)), tm.TRUE))
        elif kind == "max":
            fixed.append((_agg_ext("max", tm.ite(g, tm.num(c), tm.NINF), str(lane)), tm.TRUE))
        elif kind == "min":
            fixed.append((_agg_ext("min", tm.ite(g, tm.num(c), tm.INF), str(lane)), tm.TRUE))
        else:
            fixed.append((tm._mk("agg", kind, tm.ite(g, tm.num(c), tm.ONE), str(lane)), tm.TRUE))
    if kind == "any":
        return tm.or_(tm.FALSE, *[tm.and_(g, tm.truth(c)) for c, g in fixed])
    if kind == "all":
        return tm.and_(tm.TRUE, *[tm.or_(tm.not_(g), tm.truth(c)) for c, g in fixed])
    if kind == "sum":
        r = tm.ZERO
        for c, g in fixed:
            r = tm.add(r, c if g is tm.TRUE else tm.ite(g, tm.num(c), tm.ZERO))
        return r
    if kind == "prod":
        r = tm.ONE
        for c, g in fixed:
            r = tm.mul(r, c if g is tm.TRUE else tm.ite(g, tm.num(c), tm.ONE))
        return r
    if kind in ("max", "min"):
        if not fixed:
            raise PyRaise("ValueError", "zero-size array to reduction operation %simum which has no identity" % kind)
        e = tm.NINF if kind == "max" else tm.INF
        return tm.minmax(kind, *[c if g is tm.TRUE else tm.ite(g, tm.num(c), e) for c, g in fixed])
    raise Unsupported("reduction %s" % kind)


def _agg_ext(kind, t, lane):
    if tm.isc(t):
        return t
    return tm._mk("agg", kind, t, lane)


def reduce_(kind, a, axis=None, keepdims=False, out=None, initial=None, where=None):
    a = asarray(a)
    if where is not None and where is not True:
        w = asarray(where, "b")
        neutral = {"any": tm.FALSE, "all": tm.TRUE, "sum": tm.ZERO, "prod": tm.ONE, "max": tm.NINF, "min": tm.INF}[kind]
        a = elementwise(lambda c, x: tm.ite(c, x, neutral), [w, a], a.dtype, a.cls)
    if kind in ("any", "all"):
        dt = "b"
        if a.dtype == "o":
            raise Unsupported("any/all over objects")
    elif kind in ("sum", "prod"):
        dt = "i" if a.dtype in ("b", "i") else "f"
    else:
        dt = a.dtype
    a = _num_operand(kind, a)
    if kind in ("max", "min") and a.dtype == "b":
        kind = {"max": "any", "min": "all"}[kind]
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = [norm_axis(x, a.ndim) for x in axis]
    else:
        if a.ndim == 0 and as_pyint(axis) in (0, -1):
            axes = []
        else:
            axes = [norm_axis(axis, a.ndim)]
    ndims = [d for i, d in enumerate(a.dims) if i not in axes]
    shp = gshape(ndims)
    g = a.grid()
    outcells = []
    rest = [i for i in range(a.ndim) if i not in axes]
    for ix in np.ndindex(*shp):
        items = []
        for jx in np.ndindex(*[g.shape[x] for x in axes]):
            full = [0] * a.ndim
            for p, v in zip(rest, ix):
                full[p] = v
            lane, guard = None, tm.TRUE
            for p, v in zip(axes, jx):
                full[p] = v
                d = a.dims[p]
                if isinstance(d, LDim):
                    b = d.blocks[v]
                    if isinstance(b[0], tuple):
                        guard = tm.and_(guard, b[1])
                    else:
                        if lane is not None:
                            raise Unsupported("reduction over two ray axes at once")
                        lane = b[0]
                        guard = tm.and_(guard, b[1])
            items.append((g[tuple(full)], lane, guard))
        v = _red_cell(kind, items)
        if initial is not None:
            iv = tm.const(initial)
            v = {"sum": tm.add, "prod": tm.mul, "max": lambda x, y: tm.minmax("max", x, y), "min": lambda x, y: tm.minmax("min", x, y),
                 "any": tm.or_, "all": tm.and_}[kind](v, iv)
        outcells.append(ar.store_conv(v, dt) if dt != "o" else v)
    r = from_cells(outcells, shp, tuple(ndims), dt, a.cls)
    if it_true(keepdims):
        kd = tuple(1 if i in axes else d for i, d in enumerate(a.dims))
        r = AArray(r.buf, r.idx.reshape(gshape(kd)), kd, r.cls)
    if out is not None:
        return write_out(out, r)
    return wrap(r)


IT = [None]         # the interpreter of the current run


def it_true(v):
    if isinstance(v, T):
        if v is tm.TRUE or v is tm.FALSE:
            return v is tm.TRUE
        return IT[0].truth(v)
    return bool(v)


def lane_axes(a):
    return [i for i, d in enumerate(a.dims) if isinstance(d, LDim)]


def mean_(a, axis=None, keepdims=False):
    a = asarray(a)
    s = reduce_("sum", a, axis, keepdims)
    if axis is None:
        n = tm.ONE
        for d in a.dims:
            n = tm.mul(n, tm.const(ar.dim_size(d)))
    else:
        axs = axis if isinstance(axis, (tuple, list)) else [axis]
        n = tm.ONE
        for x in axs:
            n = tm.mul(n, tm.const(ar.dim_size(a.dims[norm_axis(x, a.ndim)])))
    return wrap(apply_bin("divide", asarray(s), asarray(n)))


def along(a, axis, f, dtype=None, same=True):
    """apply f(list of cells)->list of cells along a fixed axis"""
    ax = norm_axis(axis, a.ndim)
    d = a.dims[ax]
    if isinstance(d, LDim) and not all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in d.blocks):
        raise CrossLane("operation along the ray axis")
    g = np.moveaxis(a.grid(), ax, -1)
    shp = g.shape
    out = None
    flat = g.reshape(-1, shp[-1]) if shp[-1] else g.reshape(int(np.prod(shp[:-1])), 0)
    rows = [f(list(r)) for r in flat]
    m = len(rows[0]) if rows else shp[-1]
    og = np.empty((len(rows), m), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            og[i, j] = v
    og = np.moveaxis(og.reshape(shp[:-1] + (m,)), -1, ax)
    dims = list(a.dims)
    dims[ax] = d if m == shp[-1] else m
    return ar.make(og, tuple(dims), dtype or a.dtype, a.cls)


def in_order(op, a, axis, dtype=None):
    """an operation on all rays in the order in which they stand"""
    ax = norm_axis(axis, a.ndim)
    d = a.dims[ax]
    if a.dtype == "o":
        raise CrossLane("objects are put into the order of the rays")
    g = np.moveaxis(a.grid(), ax, -1)
    out = np.empty(g.shape, dtype=object)
    boolean = a.dtype == "b" and dtype in (None, "b")
    for ix in np.ndindex(*g.shape[:-1]):
        for j, v in enumerate(ar.seq_map(op, d, list(g[ix]))):
            out[ix + (j,)] = tm.truth(v) if boolean else v
    return ar.make(np.moveaxis(out, -1, ax), a.dims, dtype or a.dtype, a.cls)


def loose(a, axis):
    """the axis runs over rays (not over a known number of elements)"""
    d = a.dims[norm_axis(axis, a.ndim)]
    return isinstance(d, LDim) and not _fixed_lane(d)


def argext_(kind, a, axis=None, keepdims=False):
    a = asarray(a)
    if axis is None:
        if a.has_lane():
            a = ravel(a)
            axis = 0
            if loose(a, 0) and not it_true(keepdims):
                return scalar(ar.seq_node("arg" + kind, a.dims[0], list(a.grid())), "i")
            raise CrossLane("arg%s over the ray axis" % kind)
        return scalar(tm.argext(a.cells(), kind), "i")
    if loose(a, axis):
        if it_true(keepdims):
            raise CrossLane("arg%s along the ray axis" % kind)
        ax = norm_axis(axis, a.ndim)
        g = np.moveaxis(a.grid(), ax, -1)
        dims = a.dims[:ax] + a.dims[ax + 1:]
        out = np.empty(g.shape[:-1], dtype=object)
        for ix in np.ndindex(*g.shape[:-1]):
            out[ix] = ar.seq_node("arg" + kind, a.dims[ax], list(g[ix]))
        return wrap(ar.make(out, dims, "i", None)) if dims else scalar(out[()], "i")
    ax = norm_axis(axis, a.ndim)
    if (len(a.dims[ax]) if isinstance(a.dims[ax], LDim) else a.dims[ax]) == 0:
        raise PyRaise("ValueError", "attempt to get arg%s of an empty sequence" % kind)
    r = along(a, ax, lambda c: [tm.argext(c, kind)], "i")
    r.cls = None
    if it_true(keepdims):
        return r
    return wrap(ar.getitem(r, (slice(None),) * ax + (0,)) if r.ndim > 1 else r.item(0))


def _fixed_lane(d):
    return all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in d.blocks)


def sort_cells(c):
    return tm.sort_terms(c)


def argsort_(a, axis=-1, **kw):
    a = asarray(a)
    if axis is None:
        a = flatten(a)
        axis = 0
    r = in_order("argsort", a, axis, "i") if loose(a, axis) else along(a, axis, tm.argsort_terms, "i")
    r.cls = None
    return r


def sort_(a, axis=-1, **kw):
    a = asarray(a)
    if axis is None:
        a = flatten(a)
        axis = 0
    return in_order("sort", a, axis) if loose(a, axis) else along(a, axis, sort_cells)


def flatten(a):
    return ar.copy_array(ravel(a))


def ravel(a):
    if a.ndim == 1:
        return a
    return ar.reshape(a, [-1])


def take_along_axis(arr, ind, axis):
    arr, ind = asarray(arr), asarray(ind)
    if axis is None:
        arr = ravel(arr)
        axis = 0
    ax = norm_axis(axis, arr.ndim)
    if arr.ndim != ind.ndim:
        raise PyRaise("ValueError", "`indices` and `arr` must have the same number of dimensions")
    if isinstance(arr.dims[ax], LDim) and not _fixed_lane(arr.dims[ax]):
        if arr.ndim == 1:
            return ar.getitem(arr, ind)
        raise CrossLane("take_along_axis along the ray axis")
    dims = []
    for i in range(arr.ndim):
        if i == ax:
            dims.append(ind.dims[i])
        else:
            dims.append(ar.bdims((arr.dims[i],), (ind.dims[i],))[0])
    shp = gshape(dims)
    g = arr.grid()
    ig = ind.grid()
    igb = np.broadcast_to(ig, shp)
    tshape = list(shp)
    tshape[ax] = g.shape[ax]
    gb = np.broadcast_to(g, tshape)
    n = g.shape[ax]
    out = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        i = igb[ix]
        k = as_pyint(i)
        pos = list(ix)
        if k is not None:
            if not -n <= k < n:
                raise PyRaise("IndexError", "index out of bounds")
            pos[ax] = k % n
            out[ix] = gb[tuple(pos)]
            continue
        pos[ax] = n - 1
        t = gb[tuple(pos)]
        for j in range(n - 2, -1, -1):
            pos[ax] = j
            t = tm.ite(tm.eq(i, tm.const(j)), gb[tuple(pos)], t)
        out[ix] = t
    return ar.make(out, tuple(dims), arr.dtype, arr.cls)


def put_along_axis(arr, ind, vals, axis):
    ind = asarray(ind)
    ax = norm_axis(axis, arr.ndim)
    v = ar.assign_cells(asarray(vals), ind.dims)
    vg = np.array(v + [None], dtype=object)[:-1].reshape(gshape(ind.dims))
    n = arr.idx.shape[ax]
    c = arr.buf.cells
    ar.note_write(arr.buf)
    ig = ind.grid()
    for ix in np.ndindex(*gshape(ind.dims)):
        k = as_pyint(ig[ix])
        for j in range(n) if k is None else [k % n]:
            pos = list(ix)
            pos[ax] = j
            off = int(arr.idx[tuple(pos)])
            cond = tm.TRUE if k is not None else tm.eq(ig[ix], tm.const(j))
            c[off] = tm.ite(cond, ar.store_conv(vg[ix], arr.dtype), c[off])


# ---------------------------------------------------------------- products
def einsum(subs, *ops):
    ops = [_num_operand("einsum", asarray(o)) for o in ops]
    subs = subs.replace(" ", "")
    if "->" in subs:
        ins, out = subs.split("->")
    else:
        ins = subs
        al = [c for c in ins if c.isalpha()]
        out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
        if "." in ins:
            out = "..." + out
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise PyRaise("ValueError", "einstein sum subscripts string contains wrong number of operands")
    labs = []
    ell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            n = o.ndim - (len(s) - 3)
            ell = max(ell, n)
    for s, o in zip(ins, ops):
        if "..." in s:
            n = o.ndim - (len(s) - 3)
            pre, post = s.split("...")
            names = list(pre) + ["_%d" % (ell - n + i) for i in range(n)] + list(post)
        else:
            names = list(s)
        if len(names) != o.ndim:
            raise PyRaise("ValueError", "einstein sum subscripts string '%s' does not match operand of %d dimensions" % (s, o.ndim))
        labs.append(names)
    if "..." in out:
        pre, post = out.split("...")
        onames = list(pre) + ["_%d" % i for i in range(ell)] + list(post)
    else:
        onames = list(out)
    dims = {}
    for names, o in zip(labs, ops):
        for n, d in zip(names, o.dims):
            if n in dims:
                x = dims[n]
                if isinstance(x, LDim) or isinstance(d, LDim):
                    if isinstance(x, LDim) and isinstance(d, LDim):
                        if x != d:
                            raise ar.mismatch(x, d, "einsum: ray axes do not correspond")
                    elif (d if not isinstance(d, LDim) else x) != 1:
                        raise PyRaise("ValueError", "einsum: axis length mismatch")
                    else:
                        dims[n] = x if isinstance(x, LDim) else d
                elif x != d and x != 1 and d != 1:
                    raise PyRaise("ValueError", "operands could not be broadcast together with remapped shapes in einsum")
                else:
                    dims[n] = max(x, d)
            else:
                dims[n] = d
    sumn = [n for n in dims if n not in onames]
    for n in onames:
        if n not in dims:
            raise PyRaise("ValueError", "einsum output label %s not in inputs" % n)
    odims = tuple(dims[n] for n in onames)
    oshp = gshape(odims)
    sshp = gshape([dims[n] for n in sumn])
    grids = [o.grid() for o in ops]
    cells = []
    for ix in np.ndindex(*oshp):
        env = dict(zip(onames, ix))
        items = []
        for sx in np.ndindex(*sshp):
            env.update(zip(sumn, sx))
            t = None
            for g, names in zip(grids, labs):
                c = g[tuple(env[n] if g.shape[q] != 1 else 0 for q, n in enumerate(names))]
                t = c if t is None else tm.mul(t, c)
            lane, guard = None, tm.TRUE
            for n, v in zip(sumn, sx):
                if isinstance(dims[n], LDim):
                    b = dims[n].blocks[v]
                    guard = tm.and_(guard, b[1])
                    if not isinstance(b[0], tuple):
                        lane = b[0]
            items.append((tm.num(t), lane, guard))
        cells.append(_red_cell("sum", items) if sumn else items[0][0])
    dt = ar.result_dtype(*[o.dtype for o in ops])
    return from_cells(cells, oshp, odims, "i" if dt == "b" else dt, None)


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise PyRaise("ValueError", "matmul: Input operand does not have enough dimensions")
    cls = pick_cls([a, b])
    ka = a.dims[-1]
    kb = b.dims[-2] if b.ndim > 1 else b.dims[0]
    if isinstance(ka, LDim) != isinstance(kb, LDim) or ka != kb:
        raise PyRaise("ValueError", "matmul: Input operand 1 has a mismatch in its core dimension (size %r is different from %r)" % (kb, ka))
    if a.ndim == 1 and b.ndim == 1:
        r = einsum("i,i->", a, b)
    elif a.ndim == 1:
        r = einsum("i,...ij->...j", a, b)
    elif b.ndim == 1:
        r = einsum("...ij,j->...i", a, b)
    else:
        r = einsum("...ij,...jk->...ik", a, b)
    r.cls = cls
    return wrap(r)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap(apply_bin("multiply", a, b))
    if b.ndim <= 2 and a.ndim <= 2:
        return matmul(a, b)
    r = einsum("...i,i->...", a, b) if b.ndim == 1 else None
    if r is None:
        raise Unsupported("dot of higher dimensional arrays")
    return r


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asarray(a), asarray(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a = moveaxis(a, axisa, 0)
    b = moveaxis(b, axisb, 0)
    A = [asarray(ar.getitem(a, i)) for i in range(a.dims[0])]
    B = [asarray(ar.getitem(b, i)) for i in range(b.dims[0])]
    if len(A) != 3 or len(B) != 3:
        raise PyRaise("ValueError", "incompatible dimensions for cross product\n(dimension must be 2 or 3)") if not {len(A), len(B)} <= {2, 3} else Unsupported("2-D cross")

    def m(x, y):
        return apply_bin("multiply", x, y)

    def s(x, y):
        return apply_bin("subtract", x, y)
    r = [s(m(A[1], B[2]), m(A[2], B[1])), s(m(A[2], B[0]), m(A[0], B[2])), s(m(A[0], B[1]), m(A[1], B[0]))]
    out = stack(r, 0)
    return moveaxis(out, 0, axisc)


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord is None or as_pyint(ord) == 2 and (axis is not None or x.ndim == 1):
        sq = elementwise(lambda c: tm.mul(c, c), [x], "f", x.cls)
        s = reduce_("sum", sq, axis, keepdims)
        return wrap(apply_un("sqrt", asarray(s)))
    if isinstance(ord, T) and ord is tm.INF:
        return reduce_("max", apply_un("abs", x), axis, keepdims)
    if as_pyint(ord) == 1 and (axis is not None or x.ndim == 1):
        return reduce_("sum", apply_un("abs", x), axis, keepdims)
    raise Unsupported("norm order")


def _const_inv(M, n):
    A = [[tm.fv(c) for c in row] + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(M)]
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            raise PyRaise("LinAlgError", "Singular matrix")
        A[i], A[p] = A[p], A[i]
        pv = A[i][i]
        A[i] = [v / pv for v in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                f = A[r][i]
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return [[tm.const(A[i][n + j]) for j in range(n)] for i in range(n)]


def det3(m):
    def d2(a, b, c, d):
        return tm.sub(tm.mul(a, d), tm.mul(b, c))
    return tm.add(tm.sub(tm.mul(m[0][0], d2(m[1][1], m[1][2], m[2][1], m[2][2])), tm.mul(m[0][1], d2(m[1][0], m[1][2], m[2][0], m[2][2]))),
                  tm.mul(m[0][2], d2(m[1][0], m[1][1], m[2][0], m[2][1])))


def det_(M, n):
    if n == 1:
        return M[0][0]
    if n == 2:
        return tm.sub(tm.mul(M[0][0], M[1][1]), tm.mul(M[0][1], M[1][0]))
    if n == 3:
        return det3(M)
    s = tm.ZERO
    for j in range(n):
        if M[0][j] is tm.ZERO:
            continue
        sub = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = tm.mul(M[0][j], det_(sub, n - 1))
        s = tm.add(s, t) if j % 2 == 0 else tm.sub(s, t)
    return s


def inv_cells(M, n):
    if all(tm.fv(c) is not None for row in M for c in row):
        return _const_inv(M, n)
    if n == 4 and [c for c in M[3]] == [tm.ZERO, tm.ZERO, tm.ZERO, tm.ONE]:
        A = [row[:3] for row in M[:3]]
        R = inv_cells(A, 3)
        t = [M[i][3] for i in range(3)]
        out = []
        for i in range(3):
            s = tm.ZERO
            for k in range(3):
                s = tm.add(s, tm.mul(R[i][k], t[k]))
            out.append(R[i] + [tm.neg(s)])
        out.append([tm.ZERO, tm.ZERO, tm.ZERO, tm.ONE])
        return out
    d = det_(M, n)
    # orthonormal matrices and diagonal matrices have det of simple normal form; divide by it
    if n <= 3 or _sparse(M):
        out = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                sub = [[M[a][b] for b in range(n) if b != i] for a in range(n) if a != j]
                c = det_(sub, n - 1) if n > 1 else tm.ONE
                if (i + j) % 2:
                    c = tm.neg(c)
                out[i][j] = tm.div(c, d)
        return out
    flat = [c for row in M for c in row]
    return [[tm.fn("inv4", tm.const(i), tm.const(j), *flat) for j in range(n)] for i in range(n)]


def _sparse(M):
    return sum(1 for r in M for c in r if c is tm.ZERO) >= 4


def inv(a):
    a = asarray(a)
    if a.ndim < 2:
        raise PyRaise("LinAlgError", "%d-dimensional array given. Array must be at least two-dimensional" % a.ndim)
    if a.has_lane() or a.dims[-1] != a.dims[-2]:
        if a.dims[-1] != a.dims[-2]:
            raise PyRaise("LinAlgError", "Last 2 dimensions of the array must be square")
        raise Unsupported("inverse along the ray axis")
    n = a.dims[-1]
    g = a.grid()
    out = np.empty(g.shape, dtype=object)
    for ix in np.ndindex(*g.shape[:-2]):
        M = [[tm.num(g[ix + (i, j)]) for j in range(n)] for i in range(n)]
        if any(all(c is tm.ZERO for c in v) for v in M + [list(c) for c in zip(*M)]):
            raise PyRaise("LinAlgError", "Singular matrix")
        R = inv_cells(M, n)
        for i in range(n):
            for j in range(n):
                out[ix + (i, j)] = R[i][j]
    return ar.make(out, a.dims, "f", a.cls)


# ---------------------------------------------------------------- building and joining
def stack(arrs, axis=0):
    arrs = [asarray(a) for a in arrs]
    if not arrs:
        raise PyRaise("ValueError", "need at least one array to stack")
    nd = arrs[0].ndim
    for a in arrs[1:]:
        if a.ndim != nd or any(x != y for x, y in zip(a.dims, arrs[0].dims)):
            raise PyRaise("ValueError", "all input arrays must have the same shape")
    ax = as_pyint(axis)
    if ax < 0:
        ax += nd + 1
    key = (slice(None),) * ax + (None,)
    return ar.concat([asarray(ar.getitem(a, key)) for a in arrs], ax)


def moveaxis(a, src, dst):
    a = asarray(a)
    src = [norm_axis(s, a.ndim) for s in (src if isinstance(src, (tuple, list)) else [src])]
    dst = [norm_axis(s, a.ndim) for s in (dst if isinstance(dst, (tuple, list)) else [dst])]
    order = [n for n in range(a.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return ar.transpose(a, order)


def atleast(n, a):
    a = asarray(a)
    if a.ndim >= n:
        return a
    if n == 1:
        return ar.getitem(a, None)
    if n == 2:
        if a.ndim == 0:
            return ar.getitem(a, (None, None))
        return ar.getitem(a, (None, slice(None)))
    if a.ndim == 0:
        return ar.getitem(a, (None, None, None))
    if a.ndim == 1:
        return ar.getitem(a, (None, slice(None), None))
    return ar.getitem(a, (slice(None), slice(None), None))


def seq_arrays(it, x):
    if isinstance(x, AArray):
        return [asarray(ar.getitem(x, i)) for i in range(x.dims[0] if not isinstance(x.dims[0], LDim) else len(x.dims[0]))] if x.ndim else _raise("TypeError", "iteration over a 0-d array")
    return [asarray(v) for v in it.iterate(x)]


def _raise(c, m):
    raise PyRaise(c, m)


def tile(a, reps):
    a = asarray(a)
    if not isinstance(reps, (tuple, list)):
        if isinstance(reps, AArray):
            reps = [scalar(c, "i") for c in reps.cells()]
        else:
            reps = [reps]
    reps = list(reps)
    while a.ndim < len(reps):
        a = asarray(ar.getitem(a, None))
    while len(reps) < a.ndim:
        reps.insert(0, 1)
    if all(as_pyint(r) == 1 for r in reps):
        return ar.copy_array(a)
    for ax, r in enumerate(reps):
        k = as_pyint(r)
        if k is not None:
            if k == 1:
                continue
            if k == 0:
                a = ar.getitem(a, (slice(None),) * ax + (slice(0, 0),))
                continue
            a = ar.concat([a] * k, ax, a.dtype, a.cls)
            continue
        if not isinstance(r, T):
            raise PyRaise("TypeError", "tile repetitions must be integers")
        if tm.fv(r) is not None:
            raise PyRaise("TypeError", "'numpy.float64' object cannot be interpreted as an integer")
        a = lane_repeat(a, ax, r, "tile")
    return ar.copy_array(a)


def lane_repeat(a, ax, r, how):
    d = a.dims[ax]
    ld = ar.ldim_for_size(r)
    if isinstance(d, LDim):
        if len(d) == 1 and d.blocks[0][1] is tm.TRUE:
            n = ar.new_lane("prod:%s:%s" % (d.blocks[0][0], tm.show(r)), tm.mul(ar.dim_size(d), r))
            dims = list(a.dims)
            dims[ax] = n
            return AArray(a.buf, a.idx, tuple(dims), a.cls)
        raise Unsupported("%s of a ray axis" % how)
    m = len(ld)
    if d == 1:
        idx = np.repeat(a.idx, m, axis=ax)
        dims = list(a.dims)
        dims[ax] = ld
        return AArray(a.buf, idx, tuple(dims), a.cls)
    if how == "repeat":
        idx = np.repeat(a.idx, m, axis=ax)
        dims = list(a.dims)
        dims[ax] = LDim(ld.blocks * d)
        return AArray(a.buf, idx, tuple(dims), a.cls)
    raise Unsupported("tiling %d values along a symbolic axis" % d)


def repeat(a, n, axis=None):
    a = asarray(a)
    if axis is None:
        a = ravel(a) if a.ndim else atleast(1, a)
        axis = 0
    ax = norm_axis(axis, a.ndim)
    if isinstance(n, (list, tuple, AArray)):
        n = asarray(n)
        if n.ndim and n.dims[0] != 1:
            if isinstance(a.dims[ax], LDim) or n.has_lane():
                raise Unsupported("repeat with counts along the ray axis")
            parts = []
            cnts = [scalar(c, n.dtype) for c in n.cells()]
            if len(cnts) != a.dims[ax]:
                raise PyRaise("ValueError", "operands could not be broadcast together in repeat")
            for i, c in enumerate(cnts):
                parts.append(repeat(ar.getitem(a, (slice(None),) * ax + (slice(i, i + 1),)), c, ax))
            return ar.concat(parts, ax, a.dtype, a.cls)
        n = scalar(n.cells()[0], n.dtype)
    k = as_pyint(n)
    d = a.dims[ax]
    if k is not None:
        if isinstance(d, LDim):
            if k == 1:
                return ar.copy_array(a)
            if len(d) == 1 and d.blocks[0][1] is tm.TRUE and not isinstance(d.blocks[0][0], tuple):
                nl = ar.new_lane("rep%d:%s" % (k, d.blocks[0][0]), tm.mul(tm.const(k), ar.dim_size(d)))
                dims = list(a.dims)
                dims[ax] = nl
                return ar.copy_array(AArray(a.buf, a.idx, tuple(dims), a.cls))
            if not _fixed_lane(d):
                raise Unsupported("repeat of a ray axis")
        idx = np.repeat(a.idx, k, axis=ax)
        dims = list(a.dims)
        dims[ax] = d * k if not isinstance(d, LDim) else LDim([b for b in d.blocks for _ in range(k)])
        return ar.copy_array(AArray(a.buf, idx, tuple(dims), a.cls))
    return ar.copy_array(lane_repeat(a, ax, n, "repeat"))


def where(it, c, *xy):
    if len(xy) == 0:
        return nonzero(asarray(c))
    if len(xy) != 2:
        raise PyRaise("ValueError", "either both or neither of x and y should be given")
    x, y = xy
    c = asarray(c)
    if c.dtype == "o":
        raise Unsupported("where on objects")
    c = cast(c, "b") if c.dtype != "b" else c
    x, y = asarray(x), asarray(y)
    dt = ar.result_dtype(x.dtype, y.dtype)

    def f(cc, a, b):
        if isinstance(a, T) and isinstance(b, T):
            if dt in ("f", "i"):
                return tm.ite(cc, tm.num(a), tm.num(b))
            return tm.ite(cc, a, b)
        if cc is tm.TRUE:
            return a
        if cc is tm.FALSE:
            return b
        if a is b:
            return a
        raise Unsupported("where between objects on a symbolic condition")
    return elementwise(f, [c, x, y], dt, None)


def flatnonzero(a):
    a = ravel(asarray(a)) if asarray(a).ndim != 1 else asarray(a)
    d = a.dims[0]
    cells = [tm.truth(c) for c in a.cells()]
    if not isinstance(d, LDim) or _fixed_lane(d):
        if all(tm.isc(c) for c in cells):
            ix = [tm.const(i) for i, c in enumerate(cells) if c is tm.TRUE]
            return from_cells(ix, (len(ix),), (len(ix),), "i")
        n = len(cells)
        nd = LDim([(("e", n, i), c) for i, c in enumerate(cells)])
        return from_cells([tm.const(i) for i in range(n)], (n,), (nd,), "i")
    base = ar.arange_ldim(d).cells()
    nd = LDim([(b[0], tm.and_(b[1], c)) for b, c in zip(d.blocks, cells)])
    return from_cells(base, (len(base),), (nd,), "i")


def nonzero(a):
    a = asarray(a)
    if a.ndim == 1:
        return (flatnonzero(a),)
    if not a.has_lane() and all(tm.isc(tm.truth(c)) for c in a.cells()):
        m = np.array([tm.truth(c) is tm.TRUE for c in a.cells()]).reshape(a.idx.shape)
        return tuple(from_cells([tm.const(int(i)) for i in n], (len(n),), (len(n),), "i") for n in np.nonzero(m))
    raise Unsupported("nonzero of a symbolic n-d array")


def isclose(a, b, rtol=None, atol=None, equal_nan=False):
    a, b = asarray(a), asarray(b)
    r = tm.const(1e-5) if rtol is None else tm.const(rtol)
    t = tm.const(1e-8) if atol is None else tm.const(atol)
    return wrap(elementwise(lambda x, y: tm.close(x, y, r, t), [_num_operand("isclose", a), _num_operand("isclose", b)], "b", pick_cls([a, b])))


def linspace(it, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    ep = it_true(endpoint)
    k = as_pyint(num)
    s, e = asarray(start), asarray(stop)
    if k is None and isinstance(num, T) and tm.fv(num) is not None:
        raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
    if s.ndim or e.ndim:
        if k is None:
            raise Unsupported("array linspace along a symbolic axis")
        rows = []
        for i in range(k):
            f = tm.ZERO if k == 1 else tm.const(Fraction(i, (k - 1) if ep else k))
            rows.append(elementwise(lambda x, y: tm.add(x, tm.mul(f, tm.sub(y, x))), [s, e], "f"))
        return stack(rows, axis)
    s, e = tm.num(s.item()), tm.num(e.item())
    if k is not None:
        if k < 0:
            raise PyRaise("ValueError", "Number of samples, %d, must be non-negative." % k)
        cells = []
        dv = (k - 1) if ep else k
        for i in range(k):
            f = tm.ZERO if k == 1 else tm.const(Fraction(i, dv))
            cells.append(tm.add(s, tm.mul(f, tm.sub(e, s))) if not (ep and i == k - 1 and k > 1) else e)
        if parse_dtype(dtype) == "i":
            cells = [tm.fn("trunc", c) for c in cells]
        r = from_cells(cells, (k,), (k,), parse_dtype(dtype) or "f")
        step = tm.div(tm.sub(e, s), tm.const(dv)) if dv else tm.NAN
        return (r, step) if it_true(retstep) else r
    ld = ar.ldim_for_size(num)
    base = ar.arange_ldim(ld)
    n = tm.sub(num, tm.ONE) if ep else num
    # a single sample is `start` (numpy divides by max(n-1, 1) there)
    cells = [tm.add(s, tm.mul(tm.div(i, tm.minmax("max", n, tm.ONE)), tm.sub(e, s))) for i in base.cells()]
    r = from_cells(cells, (len(cells),), (ld,), "f")
    return (r, tm.div(tm.sub(e, s), n)) if it_true(retstep) else r


def arange(*args, **kw):
    dt = parse_dtype(kw.get("dtype"))
    args = list(args)
    start, step = 0, 1
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args
    if "stop" in kw:
        start, stop = args[0] if args else kw.get("start", 0), kw["stop"]
    step = kw.get("step", step)
    ints = [as_pyint(x) for x in (start, stop, step)]
    isf = any(isinstance(x, T) and x.k == "c" for x in (start, stop, step))
    if all(x is not None for x in ints):
        v = list(range(*ints))
        return from_cells([tm.const(i) for i in v], (len(v),), (len(v),), dt or ("f" if isf else "i"))
    S, E, P = tm.const(start), tm.const(stop), tm.const(step)
    if all(tm.fv(x) is not None for x in (S, E, P)):
        import math
        n = max(0, math.ceil((tm.fv(E) - tm.fv(S)) / tm.fv(P)))
        v = [tm.const(tm.fv(S) + i * tm.fv(P)) for i in range(n)]
        return from_cells(v, (n,), (n,), dt or "f")
    n = tm.div(tm.sub(E, S), P)
    k = tm.nf(n)
    if k is not None and (not k or list(k) == [()]):
        c = k.get((), Fraction(0)) if k else Fraction(0)
        if c.denominator == 1:
            v = [tm.add(S, tm.mul(tm.const(i), P)) for i in range(max(0, int(c)))]
            return from_cells(v, (len(v),), (len(v),), dt or "i")
    ld = ar.ldim_for_size(n)
    base = ar.arange_ldim(ld)
    cells = [tm.add(S, tm.mul(P, c)) for c in base.cells()]
    return from_cells(cells, (len(cells),), (ld,), dt or ("i" if ar.isint(S) and ar.isint(P) else "f"))


def full_(shape, v, dtype=None):
    dims = norm_shape(shape)
    v = asarray(v)
    dt = parse_dtype(dtype) or v.dtype
    r = ar.full(dims, tm.ZERO, dt)
    src = ar.assign_cells(v, dims)
    r.buf.cells = [ar.store_conv(c, dt) if isinstance(c, T) else c for c in src]
    return r


def const_arr(shape, t, dtype=None, default="f"):
    dt = parse_dtype(dtype) or default
    return ar.full(norm_shape(shape), ar.store_conv(t, dt) if dt != "o" else (None if t is tm.UNINIT else t), dt)


def empty(it, shape, dtype=None):
    return const_arr(shape, tm.UNINIT, dtype)


def identity(n, dtype=None, m=None, k=0):
    n = as_pyint(n)
    m = n if m is None else as_pyint(m)
    if n is None:
        raise Unsupported("identity of symbolic size")
    cells = [tm.ONE if j - i == k else tm.ZERO for i in range(n) for j in range(m)]
    dt = parse_dtype(dtype) or "f"
    return from_cells([ar.store_conv(c, dt) for c in cells], (n, m), (n, m), dt)


def diag(v, k=0):
    v = asarray(v)
    if v.ndim == 1:
        n = v.dims[0]
        if isinstance(n, LDim):
            raise Unsupported("diag of a ray axis")
        c = v.cells()
        m = n + abs(k)
        g = np.empty((m, m), dtype=object)
        for i in range(m):
            for j in range(m):
                g[i, j] = ar.store_conv(tm.ZERO, v.dtype)
        for i in range(n):
            g[i + max(0, -k), i + max(0, k)] = c[i]
        return ar.make(g, (m, m), v.dtype)
    n = min(v.dims)
    return ar.make(np.array([v.item(i, i) for i in range(n)] + [None], dtype=object)[:-1], (n,), v.dtype)


def meshgrid(it, *xs, **kw):
    indexing = kw.get("indexing", "xy")
    sparse = kw.get("sparse", False)
    arrs = [atleast(1, asarray(x)) for x in xs]
    n = len(arrs)
    out = []
    for i, a in enumerate(arrs):
        key = [None] * n
        pos = i
        if indexing == "xy" and n > 1 and i < 2:
            pos = 1 - i
        key[pos] = slice(None)
        out.append(asarray(ar.getitem(a, tuple(key))))
    if not it_true(sparse):
        dims = ar.bdims(*[a.dims for a in out])
        out = [from_cells(ar.assign_cells(a, dims), gshape(dims), dims, a.dtype) for a in out]
    return out


def broadcast_to(a, shape):
    a = asarray(a)
    dims = norm_shape(shape)
    ar.assign_cells(a, dims)
    vd = [1] * (len(dims) - a.ndim) + list(a.dims)
    idx = np.broadcast_to(a.idx.reshape(gshape(vd)), gshape(dims))
    return AArray(a.buf, idx, dims, None)


def roll(a, shift, axis=None):
    a = asarray(a)
    if axis is None:
        shp = a.dims
        r = roll(ravel(a), shift, 0)
        return AArray(r.buf, r.idx.reshape(gshape(shp)), shp, a.cls)
    if isinstance(axis, (tuple, list)):
        for s, x in zip(shift, axis):
            a = roll(a, s, x)
        return a
    ax = norm_axis(axis, a.ndim)
    s = as_pyint(shift)
    if isinstance(a.dims[ax], LDim):
        if s is None or not loose(a, ax):
            raise CrossLane("roll along the ray axis")
        return in_order("roll:%d" % s, a, ax)
    if s is None:
        raise Unsupported("symbolic roll")
    return ar.copy_array(AArray(a.buf, np.roll(a.idx, s, axis=ax), a.dims, a.cls))


def flip(a, axis=None):
    a = asarray(a)
    axes = range(a.ndim) if axis is None else ([axis] if not isinstance(axis, (tuple, list)) else axis)
    idx = a.idx
    for x in axes:
        x = norm_axis(x, a.ndim)
        if loose(a, x):
            rest = flip(a, [y for y in axes if norm_axis(y, a.ndim) != x])
            return in_order("flip", rest, x)
        idx = np.flip(idx, x)
    return AArray(a.buf, idx, a.dims, a.cls)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarray(a)
    ax = norm_axis(axis, a.ndim)
    parts = [a]
    if prepend is not None:
        p = asarray(prepend)
        if p.ndim == 0:
            p = broadcast_to(p, tuple(1 if i == ax else d for i, d in enumerate(a.dims)))
        parts.insert(0, p)
    if append is not None:
        p = asarray(append)
        if p.ndim == 0:
            p = broadcast_to(p, tuple(1 if i == ax else d for i, d in enumerate(a.dims)))
        parts.append(p)
    if len(parts) > 1:
        a = ar.concat(parts, ax)
    for _ in range(as_pyint(n)):
        if isinstance(a.dims[ax], LDim):
            raise CrossLane("difference along the ray axis")
        lo = ar.getitem(a, (slice(None),) * ax + (slice(None, -1),))
        hi = ar.getitem(a, (slice(None),) * ax + (slice(1, None),))
        a = apply_bin("not_equal" if a.dtype == "b" else "subtract", hi, lo)
    return a


def cumulative(kind, a, axis=None, dtype=None):
    a = asarray(a)
    if axis is None:
        a = flatten(a)
        axis = 0
    ax = norm_axis(axis, a.ndim)
    dt = parse_dtype(dtype) or ("i" if a.dtype in ("b", "i") else "f")
    d = a.dims[ax]
    op = tm.add if kind == "sum" else tm.mul
    if isinstance(d, LDim) and not _fixed_lane(d):
        return in_order("cum" + kind, a, ax, dt)

    def f(c):
        out = []
        acc = None
        for x in c:
            x = tm.num(x)
            acc = x if acc is None else op(acc, x)
            out.append(acc)
        return out
    return along(a, ax, f, dt)


def clip(a, lo, hi, out=None):
    r = asarray(a)
    if lo is not None:
        r = apply_bin("maximum", r, asarray(lo))
    if hi is not None:
        r = apply_bin("minimum", r, asarray(hi))
    if out is not None:
        return write_out(out, r)
    return wrap(r)


def select(it, conds, choices, default=0):
    r = asarray(default)
    for c, v in reversed(list(zip(it.iterate(conds), it.iterate(choices)))):
        r = asarray(where(it, c, v, r))
    return r


def piecewise(it, x, conds, funcs, *a, **k):
    x = asarray(x)
    cl = [asarray(c) for c in it.iterate(conds)]
    fs = it.iterate(funcs)
    r = asarray(0)
    if len(fs) == len(cl) + 1:
        f = fs[-1]
        r = asarray(it.call(f, [x], {}) if not isinstance(f, (T, int, bool)) else f)
    for c, f in zip(cl, fs):
        v = f if isinstance(f, (T, int, bool)) else it.call(f, [x], {})
        r = asarray(where(it, c, v, r))
    return cast(r, x.dtype)


def interp1(x, xp, fp, left=None, right=None):
    x, xp, fp = asarray(x), asarray(xp), asarray(fp)
    X, F = xp.cells(), fp.cells()

    def f(v):
        r = tm.const(right) if right is not None else F[-1]
        for i in range(len(X) - 2, -1, -1):
            seg = tm.add(F[i], tm.mul(tm.div(tm.sub(v, X[i]), tm.sub(X[i + 1], X[i])), tm.sub(F[i + 1], F[i])))
            c = tm.lt(v, X[i + 1]) if i < len(X) - 2 else tm.le(v, X[i + 1])
            r = tm.ite(c, seg, r)
        return tm.ite(tm.lt(v, X[0]), tm.const(left) if left is not None else F[0], r)
    return wrap(elementwise(f, [x], "f"))


def searchsorted(a, v, side="left", sorter=None):
    a, v = asarray(a), asarray(v)
    A = a.cells()
    if a.has_lane():
        raise CrossLane("searchsorted over the ray axis")

    def f(x):
        s = tm.ZERO
        for c in A:
            s = tm.add(s, tm.num(tm.lt(c, x) if side == "left" else tm.le(c, x)))
        return s
    return wrap(elementwise(f, [v], "i"))


def unique(a, **kw):
    a = asarray(a)
    if not kw and not a.has_lane() and all(tm.isc(c) for c in a.cells()):
        c = sorted(set(a.cells()), key=tm.cfloat)
        return from_cells(c, (len(c),), (len(c),), a.dtype)
    inverse, counts = it_true(kw.pop("return_inverse", False)), it_true(kw.pop("return_counts", False))
    if any(k != "equal_nan" and v not in (None, False) for k, v in kw.items()) or (inverse and a.ndim != 1):
        raise Unsupported("unique of symbolic values")
    # the values come from a known finite set: each of them is there if some entry has it
    where, cand = [], {}
    for c, ix in zip(a.cells(), np.ndindex(*a.idx.shape)):
        bl = [d.blocks[i] for d, i in zip(a.dims, ix) if isinstance(d, LDim)]
        if len([b for b in bl if not isinstance(b[0], tuple)]) > 1:
            raise Unsupported("unique over two ray axes")
        lane = ([b[0] for b in bl if not isinstance(b[0], tuple)] or [None])[0]
        g = tm.and_(tm.TRUE, *[b[1] for b in bl])
        vals = leaves(c)
        if vals is None:
            raise Unsupported("unique of symbolic values")
        where.append((c, lane, g))
        for v in vals:
            cand[tm.cfloat(v)] = v
    out = []
    for k in sorted(cand):
        v = cand[k]
        there = [(tm.and_(tm.eq(tm.num(c), tm.num(v)), g), lane, g) for c, lane, g in where]
        p = _red_cell("any", there)
        if not ar.never(p):
            n = _red_cell("sum", [(tm.truth(c), lane, g) for c, lane, g in there])
            out.append((v, p if not _always(p) else tm.TRUE, n))
    if all(p is tm.TRUE for v, p, n in out):
        dims = (len(out),)
    else:
        dims = (LDim([(("e", ("u", len(out)), i), p) for i, (v, p, n) in enumerate(out)]),)
    r = [from_cells([v for v, p, n in out], (len(out),), dims, a.dtype)]
    if inverse:
        def at(c):
            s = tm.ZERO
            for v, p, n in out:
                s = tm.add(s, tm.num(tm.and_(p, tm.lt(tm.num(v), tm.num(c)))))
            return s
        r.append(from_cells([at(c) for c in a.cells()], a.idx.shape, a.dims, "i"))
    if counts:
        r.append(from_cells([n for v, p, n in out], (len(out),), dims, "i"))
    return r[0] if len(r) == 1 else tuple(r)


def _always(g):
    if g is tm.TRUE or g is tm.FALSE:
        return g is tm.TRUE
    if ar.POOL[0] is None:
        return False
    ok, _, n = tm.eval_equal(ar.POOL[0], g, tm.TRUE)
    return bool(ok and n)


def leaves(t, limit=64):
    """the constants a term chooses between, None if it is anything else than such a choice"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            return None
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.bool and not tm.isc(x):
            out += [tm.FALSE, tm.TRUE]
        elif tm.isc(x):
            out.append(x)
        elif x.k == "ite":
            todo += [x.a[1], x.a[2]]
        else:
            return None
        if len(out) > limit:
            return None
    return out


def pick_block(a, i):
    """the i-th block of the first axis, a single entry"""
    v = ar.AArray(a.buf, a.idx[i], a.dims[1:], a.cls)
    return wrap(v)


def astype(a, dtype, copy=True):
    dt = parse_dtype(dtype)
    a = asarray(a)
    if dt == a.dtype and not it_true(copy):
        return a
    r = cast(a, dt)
    return r


def round_(a, decimals=0):
    a = asarray(a)
    k = as_pyint(decimals)
    if k == 0:
        if a.dtype in ("i",):
            return wrap(a)
        return wrap(apply_un("rint", a))
    s = tm.const(Fraction(10) ** k)
    return wrap(elementwise(lambda x: tm.div(tm.fn("rint", tm.mul(x, s)), s), [a], "f", a.cls))


def array_(it, v, dtype=None, copy=True, **kw):
    if isinstance(v, Iter):
        raise Unsupported("array of generator")
    sub = kw.get("subok", False)
    nd = as_pyint(kw["ndmin"]) if "ndmin" in kw else 0
    if isinstance(v, AArray):
        r = ar.copy_array(v) if it_true(copy) else v
        if not it_true(sub) and r.cls is not None:
            r = AArray(r.buf, r.idx, r.dims, None)
    else:
        r = asarray(v)
    dt = parse_dtype(dtype)
    if dt is not None and dt != r.dtype:
        r = cast(r, dt)
    while r.ndim < nd:
        r = asarray(ar.getitem(r, None))
    return r


def asarray_(it, v, dtype=None, **kw):
    if isinstance(v, AArray):
        r = v if v.cls is None else AArray(v.buf, v.idx, v.dims, None)
    else:
        r = asarray(v)
    dt = parse_dtype(dtype)
    if dt is not None and dt != r.dtype:
        r = cast(r, dt)
    return r


def asanyarray_(it, v, dtype=None, **kw):
    return asarray(v, parse_dtype(dtype))


def squeeze(a, axis=None):
    a = asarray(a)
    if axis is None:
        axes = [i for i, d in enumerate(a.dims) if not isinstance(d, LDim) and d == 1]
    else:
        axes = [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
        for x in axes:
            if isinstance(a.dims[x], LDim) or a.dims[x] != 1:
                raise PyRaise("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
    key = tuple(0 if i in axes else slice(None) for i in range(a.ndim))
    idx = a.idx[key]
    return AArray(a.buf, np.asarray(idx), tuple(d for i, d in enumerate(a.dims) if i not in axes), a.cls)


def expand_dims(a, axis):
    a = asarray(a)
    axes = [as_pyint(x) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    n = a.ndim + len(axes)
    axes = [x % n for x in axes]
    key = tuple(None if i in axes else slice(None) for i in range(n))
    return ar.getitem(a, key)


def take(a, ind, axis=None, **kw):
    a = asarray(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    ax = norm_axis(axis, a.ndim)
    if not isinstance(ind, (int, T)):
        ind = asarray(ind)
    return ar.getitem(a, (slice(None),) * ax + (ind,))


def delete(a, obj, axis=None):
    a = asarray(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    ax = norm_axis(axis, a.ndim)
    if isinstance(a.dims[ax], LDim):
        if isinstance(obj, AArray) and obj.dtype == "b":
            return ar.getitem(a, (slice(None),) * ax + (asarray(apply_un("logical_not", obj)),))
        raise Unsupported("delete along the ray axis")
    n = a.dims[ax]
    ks = obj if isinstance(obj, (list, tuple)) else ([scalar(c, "i") for c in obj.cells()] if isinstance(obj, AArray) else [obj])
    ks = [as_pyint(k) % n for k in ks]
    return ar.copy_array(ar.getitem(a, (slice(None),) * ax + ([i for i in range(n) if i not in ks],)))


def append(a, v, axis=None):
    a, v = asarray(a), asarray(v)
    if axis is None:
        return ar.concat([ravel(atleast(1, a)), ravel(atleast(1, v))], 0)
    return ar.concat([a, v], norm_axis(axis, a.ndim))


def insert(a, k, v, axis=None):
    a = asarray(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    ax = norm_axis(axis, a.ndim)
    k = as_pyint(k)
    if k is None or isinstance(a.dims[ax], LDim):
        raise Unsupported("insert")
    v = broadcast_to(asarray(v), tuple(1 if i == ax else d for i, d in enumerate(a.dims)))
    pre = ar.getitem(a, (slice(None),) * ax + (slice(None, k),))
    post = ar.getitem(a, (slice(None),) * ax + (slice(k, None),))
    return ar.concat([pre, v, post], ax, a.dtype)


def fresh(it, lo, hi, shape, what="rnd"):
    dims = () if shape is None else norm_shape(shape)
    islane = any(isinstance(d, LDim) for d in dims)

    def one():
        it.rnd = getattr(it, "rnd", 0) + 1
        s = tm.uniform(0.0, 1.0) if what == "rnd" else tm.uniform(-2, 2)
        s.lane = islane
        t = tm.sym("%s%s%d" % (what, "L" if islane else "", it.rnd), s)
        if what == "rnd":
            return tm.add(lo, tm.mul(tm.sub(hi, lo), t))
        return t
    if shape is None:
        return one()
    shp = gshape(dims)
    m = int(np.prod(shp)) if shp else 1
    return from_cells([one() for _ in range(m)], shp, dims, "f")


# ---------------------------------------------------------------- operators
def unary(it, op, a):
    if op == "USub":
        return wrap(apply_un("negative", a)) if a.ndim else apply_un("negative", a)
    if op == "UAdd":
        return ar.copy_array(a)
    return apply_un("invert", a)


def binary(it, op, a, b):
    a, b = asarray(a), asarray(b)
    if op == "MatMult":
        return matmul(a, b)
    n = OPNAME.get(op)
    if n is None:
        raise Unsupported("array operator %s" % op)
    r = apply_bin(n, a, b)
    return wrap(r)


def compare(it, op, a, b):
    if not isinstance(a, (AArray, T, int, bool, list, tuple)) or not isinstance(b, (AArray, T, int, bool, list, tuple)):
        if hasattr(a, "arr") or hasattr(b, "arr"):
            pass
        else:
            x = a if isinstance(a, AArray) else b
            other = b if x is a else a
            return elementwise(lambda c: tm.const((c is other) == (op == "Eq")), [x], "b", None)
    a, b = asarray(a), asarray(b)
    try:
        return wrap(apply_bin(CMPNAME[op], a, b))
    except PyRaise as e:
        raise


def inplace(it, op, a, rhs):
    if isinstance(rhs, Unk):
        rhs = tm.unk(rhs.reason)
    rhs = asarray(rhs)
    if op == "MatMult":
        raise Unsupported("in-place matmul")
    n = OPNAME[op]
    if rhs.buf is a.buf and rhs is not a:
        rhs = ar.copy_array(rhs)
    r = apply_bin(n, a, rhs)
    return write_out(a, r, None, n)


def scalar_binop(it, name, a, b):
    if name in ("BitAnd", "BitOr", "BitXor"):
        if a.bool and b.bool:
            return {"BitAnd": tm.and_, "BitOr": tm.or_, "BitXor": tm.xor_}[name](a, b)
        return _intop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[name], a, b)
    f = {"Add": tm.add, "Sub": tm.sub, "Mult": tm.mul, "Div": tm.div, "Pow": tm.powt,
         "FloorDiv": lambda x, y: tm.fn("floordiv", x, y), "Mod": lambda x, y: tm.fn("mod", x, y)}.get(name)
    if f is None:
        if name == "MatMult":
            raise PyRaise("ValueError", "matmul: Input operand does not have enough dimensions")
        raise Unsupported("scalar operator %s" % name)
    return f(tm.num(a), tm.num(b))


def scalar_compare(name, a, b):
    return BIN[CMPNAME[name]][0](a, b)


# ---------------------------------------------------------------- attributes of arrays
def array_attr(it, a, name):
    if name == "shape":
        return shape_of(a)
    if name == "ndim":
        return a.ndim
    if name == "size":
        s = 1
        for d in a.dims:
            x = ar.dim_size(d)
            s = s * x if isinstance(s, int) and isinstance(x, int) else tm.mul(tm.const(s), tm.const(x))
        return s
    if name == "T":
        return ar.transpose(a)
    if name == "dtype":
        return dtype_obj(a.dtype)
    if name == "base":
        return None
    if name in ("real",):
        return a
    if name == "flat":
        return ravel(a)
    if name == "nbytes" or name == "itemsize" or name == "strides":
        return Unk("memory layout of an array")
    if name == "flags":
        return NObj("flags", {"writeable": True, "c_contiguous": True, "__setitem__": NFunc("set", lambda it, k, v: None)})
    m = METHODS.get(name)
    if m is not None:
        return NFunc("ndarray." + name, lambda it, *args, **kw: m(it, a, *args, **kw))
    d = DUNDERS.get(name)
    if d is not None:
        return NFunc("ndarray." + name, lambda it, *args, **kw: d(it, a, *args, **kw))
    if name in NAMES["ndarray"]:
        raise Unsupported("ndarray.%s" % name)
    return _MISSING


def _m_sort(it, a, axis=-1, **kw):
    r = sort_(a, axis)
    write_out(a, r)
    return None


def _m_fill(it, a, v):
    write_out(a, cast(asarray(v), a.dtype) if asarray(v).dtype != a.dtype else asarray(v))


def _m_reshape(it, a, *shape, **kw):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    if "order" in kw and kw["order"] != "C":
        raise Unsupported("reshape order")
    shape = list(shape)
    for s in shape:
        if isinstance(s, T) and tm.fv(s) is not None and not isinstance(s, int) and s.k == "c":
            f = tm.fv(s)
            if f.denominator != 1:
                raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
    return ar.reshape(a, shape)


def _m_transpose(it, a, *axes):
    if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
        axes = axes[0] or ()
    return ar.transpose(a, [as_pyint(x) for x in axes] if axes else None)


def _m_view(it, a, cls=None, **kw):
    cls = kw.get("type", cls)
    if isinstance(cls, AClass) or cls is NDARRAY:
        r = AArray(a.buf, a.idx, a.dims, None if cls is NDARRAY else cls)
        if isinstance(cls, AClass):
            f, c = cls.lookup("__array_finalize__")
            if f is not None and isinstance(c, AClass):
                it.call(it.bind(f, r), [a], {})
        return r
    if cls is None:
        return a.view(a.idx, a.dims)
    raise Unsupported("ndarray.view(dtype)")


def _m_item(it, a, *k):
    if k:
        return scalar(ar.getitem(a, tuple(k)), a.dtype)
    if a.has_lane() or int(np.prod(a.idx.shape)) != 1:
        raise PyRaise("ValueError", "can only convert an array of size 1 to a Python scalar")
    return scalar(a.cells()[0], a.dtype)


def _m_tolist(it, a):
    if a.has_lane():
        if a.ndim == 1 and all(isinstance(b[0], tuple) for b in a.dims[0].blocks):
            return [_m_tolist(it, x) if isinstance(x, AArray) else x for x in it.iterate(a)]
        raise Unsupported("tolist of a ray axis")
    if a.ndim == 0:
        return scalar(a.item(), a.dtype)
    return [_m_tolist(it, x) if isinstance(x, AArray) else scalar(x, a.dtype) for x in (ar.getitem(a, i) for i in range(a.dims[0]))]


def _red(kind):
    def f(it, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
        if isinstance(out, bool):
            raise Unsupported("reduction arguments")
        r = reduce_(kind, a, axis, keepdims, out=out, initial=initial, where=where)
        if dtype is not None:
            r = wrap(cast(asarray(r), parse_dtype(dtype)))
        return r

    def g(it, a, axis=None, out=None, keepdims=False, initial=None, where=None, **kw):
        return reduce_(kind, a, axis, keepdims, out=out, initial=initial, where=where)
    return f if kind in ("sum", "prod") else g


def var_(a, axis=None, ddof=0, keepdims=False):
    a = asarray(a)
    m = asarray(mean_(a, axis, True if a.ndim else False))
    dlt = apply_bin("subtract", a, m)
    return mean_(apply_bin("multiply", dlt, dlt), axis, keepdims)


METHODS = {
    "copy": lambda it, a, *x, **k: ar.copy_array(a),
    "reshape": _m_reshape,
    "ravel": lambda it, a, *x, **k: ravel(a),
    "flatten": lambda it, a, *x, **k: flatten(a),
    "transpose": _m_transpose,
    "swapaxes": lambda it, a, i, j: _swap(a, i, j),
    "astype": lambda it, a, dtype, *x, **k: astype(a, dtype, k.get("copy", True)),
    "view": _m_view,
    "any": _red("any"), "all": _red("all"), "sum": _red("sum"), "prod": _red("prod"), "max": _red("max"), "min": _red("min"),
    "mean": lambda it, a, axis=None, dtype=None, out=None, keepdims=False: mean_(a, axis, keepdims),
    "var": lambda it, a, axis=None, **k: var_(a, axis),
    "std": lambda it, a, axis=None, **k: wrap(apply_un("sqrt", asarray(var_(a, axis)))),
    "argmin": lambda it, a, axis=None, out=None, keepdims=False: argext_("min", a, axis, keepdims),
    "argmax": lambda it, a, axis=None, out=None, keepdims=False: argext_("max", a, axis, keepdims),
    "argsort": lambda it, a, axis=-1, **k: argsort_(a, axis),
    "sort": _m_sort,
    "cumsum": lambda it, a, axis=None, dtype=None, out=None: cumulative("sum", a, axis, dtype),
    "cumprod": lambda it, a, axis=None, dtype=None, out=None: cumulative("prod", a, axis, dtype),
    "dot": lambda it, a, b, out=None: dot(a, b),
    "fill": _m_fill,
    "tolist": _m_tolist,
    "item": _m_item,
    "clip": lambda it, a, min=None, max=None, out=None, **k: clip(a, min, max, out),
    "round": lambda it, a, decimals=0, **k: round_(a, decimals),
    "squeeze": lambda it, a, axis=None: squeeze(a, axis),
    "repeat": lambda it, a, n, axis=None: repeat(a, n, axis),
    "take": lambda it, a, i, axis=None, **k: take(a, i, axis),
    "nonzero": lambda it, a: nonzero(a),
    "conj": lambda it, a: a, "conjugate": lambda it, a: a,
    "searchsorted": lambda it, a, v, side="left", sorter=None: searchsorted(a, v, side),
    "diagonal": lambda it, a, **k: diag(a),
    "trace": lambda it, a, **k: reduce_("sum", diag(a)),
    "setflags": lambda it, a, **k: None,
    "ptp": lambda it, a, axis=None, **k: wrap(apply_bin("subtract", asarray(reduce_("max", a, axis)), asarray(reduce_("min", a, axis)))),
    "__len__": lambda it, a: _len(a),
    "__array__": lambda it, a, *x: a,
    "__getitem__": lambda it, a, k: it.getitem(a, k),
    "__setitem__": lambda it, a, k, v: it.setitem(a, k, v),
    "__iter__": lambda it, a: Iter(it.iterate_lazy(a)),
    "__copy__": lambda it, a: ar.copy_array(a), "__deepcopy__": lambda it, a, memo=None: ar.copy_array(a),
}


def _len(a):
    if a.ndim == 0:
        raise PyRaise("TypeError", "len() of unsized object")
    return ar.dim_size(a.dims[0])


def _dund(op):
    return lambda it, a, b: binary(it, op, a, b)


def _rdund(op):
    return lambda it, a, b: binary(it, op, b, a)


DUNDERS = {}
for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("pow", "Pow"),
               ("matmul", "MatMult"), ("and", "BitAnd"), ("or", "BitOr"), ("xor", "BitXor")):
    DUNDERS["__%s__" % _n] = _dund(_o)
    DUNDERS["__r%s__" % _n] = _rdund(_o)
    DUNDERS["__i%s__" % _n] = (lambda o: lambda it, a, b: inplace(it, o, a, b))(_o)
for _n, _o in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
    DUNDERS["__%s__" % _n] = (lambda o: lambda it, a, b: compare(it, o, a, b))(_o)
DUNDERS["__neg__"] = lambda it, a: unary(it, "USub", a)
DUNDERS["__invert__"] = lambda it, a: unary(it, "Invert", a)
DUNDERS["__abs__"] = lambda it, a: wrap(apply_un("abs", a))


def _swap(a, i, j):
    i, j = norm_axis(i, a.ndim), norm_axis(j, a.ndim)
    ax = list(range(a.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return ar.transpose(a, ax)


def scalar_attr(it, t, name):
    if name in ("__len__", "__iter__", "__getitem__", "__setitem__", "__contains__", "__array_ufunc__"):
        return _MISSING
    if name in ("real",):
        return t
    if name == "imag":
        return tm.ZERO
    if name in ("is_integer",):
        return NFunc(name, lambda it: tm.eq(tm.fn("floor", t), t))
    if name == "hex" or name == "as_integer_ratio":
        raise Unsupported("float.%s" % name)
    if name == "__class__":
        return it.type_of(t)
    if name == "shape":
        return ()
    if name == "ndim":
        return 0
    if name == "size":
        return 1
    if name == "dtype":
        return dtype_obj(_leaf_dtype(t))
    if name == "T":
        return t
    if name == "copy":
        return NFunc(name, lambda it: t)
    if name == "item":
        return NFunc(name, lambda it: t)
    if name == "tolist":
        return NFunc(name, lambda it: t)
    r = array_attr(it, asarray(t), name)
    return r


# ---------------------------------------------------------------- module tables
def call(it, name, *args, **kw):
    return FUNCS[name].f(it, *args, **kw)


def _w(f):
    """wrapper for functions not needing the interpreter"""
    return lambda it, *a, **k: f(*a, **k)


def _concat(it, seq, axis=0, out=None, dtype=None, **kw):
    arrs = seq_arrays(it, seq)
    if not arrs:
        raise PyRaise("ValueError", "need at least one array to concatenate")
    if axis is None:
        arrs = [ravel(atleast(1, a)) for a in arrs]
        axis = 0
    r = ar.concat(arrs, as_pyint(axis), parse_dtype(dtype))
    return write_out(out, r) if out is not None else r


def _vstack(it, seq, **kw):
    return ar.concat([asarray(atleast(2, a)) for a in seq_arrays(it, seq)] or _raise("ValueError", "need at least one array to concatenate"), 0)


def _hstack(it, seq, **kw):
    arrs = [asarray(atleast(1, a)) for a in seq_arrays(it, seq)]
    if not arrs:
        raise PyRaise("ValueError", "need at least one array to concatenate")
    return ar.concat(arrs, 0 if arrs[0].ndim == 1 else 1)


def _dstack(it, seq, **kw):
    return ar.concat([asarray(atleast(3, a)) for a in seq_arrays(it, seq)], 2)


def _colstack(it, seq, **kw):
    return ar.concat([asarray(ar.getitem(a, (slice(None), None))) if a.ndim == 1 else a for a in seq_arrays(it, seq)], 1)


def _like(f):
    def g(it, a, *x, dtype=None, shape=None, **k):
        a = asarray(a)
        dims = a.dims if shape is None else norm_shape(shape)
        dt = parse_dtype(dtype) or a.dtype
        r = f(dims, x, dt)
        r.cls = a.cls if it_true(k.get("subok", True)) else None
        return r
    return g


def _full_like(dims, x, dt):
    v = asarray(x[0])
    if dt == "i" and v.dtype == "f":
        v = cast(v, "i")
    r = ar.full(dims, tm.ZERO, dt)
    r.buf.cells = [ar.store_conv(c, dt) if isinstance(c, T) else c for c in ar.assign_cells(v, dims)]
    return r


def _copyto(it, dst, src, casting=None, where=None):
    write_out(dst, asarray(src), where, "copyto")


def _shape(it, a):
    return shape_of(asarray(a))


def _size(it, a, axis=None):
    a = asarray(a)
    if axis is None:
        return array_attr(it, a, "size")
    return ar.dim_size(a.dims[norm_axis(axis, a.ndim)])


def _array_split(it, a, n, axis=0):
    a = asarray(a)
    ax = norm_axis(axis, a.ndim)
    d = a.dims[ax]
    k = as_pyint(n)
    if k is not None:
        if isinstance(d, LDim):
            if len(d) % k == 0:
                st = len(d) // k
                key = [(slice(i * st, (i + 1) * st)) for i in range(k)]
                return [a.view(a.idx[(slice(None),) * ax + (s,)], tuple(LDim(x.blocks[s]) if q == ax else x for q, x in enumerate(a.dims))) for s in key]
            raise Unsupported("split of a ray axis")
        if d % k:
            raise PyRaise("ValueError", "array split does not result in an equal division")
        st = d // k
        return [ar.getitem(a, (slice(None),) * ax + (slice(i * st, (i + 1) * st),)) for i in range(k)]
    ks = [as_pyint(x) for x in it.iterate(n)]
    ks = [0] + ks + [None]
    return [ar.getitem(a, (slice(None),) * ax + (slice(p, q),)) for p, q in zip(ks[:-1], ks[1:])]


def _vectorize(it, f, **kw):
    def g(it2, *args):
        arrs = [asarray(a) for a in args]
        return wrap(elementwise(lambda *c: tm.const(it.call(f, list(c), {})), arrs, "f"))
    return NFunc("vectorized", g)


def _cond_any(kind):
    def f(it, a, axis=None, out=None, keepdims=False, **kw):
        if out is not None:
            r = reduce_(kind, asarray(a), axis, keepdims)
            return write_out(out, asarray(r))
        return reduce_(kind, asarray(a), axis, keepdims, where=kw.get("where"))
    return f


def _minmaxf(kind):
    def f(it, a, axis=None, out=None, keepdims=False, initial=None, where=None, **kw):
        return reduce_(kind, asarray(a), axis, keepdims, out=out, initial=initial, where=where)
    return f


def _nanred(kind):
    neutral = {"min": tm.INF, "max": tm.NINF, "sum": tm.ZERO}[kind]

    def f(it, a, axis=None, **kw):
        a = asarray(a)
        b = elementwise(lambda c: tm.ite(tm.isnan(c), neutral, c), [a], a.dtype, a.cls)
        return reduce_(kind, b, axis, kw.get("keepdims", False))
    return f


def _count_nonzero(it, a, axis=None, **kw):
    a = asarray(a)
    return reduce_("sum", cast(a, "b"), axis)


def _nan_to_num(it, a, copy=True, nan=0, posinf=None, neginf=None):
    a = asarray(a)
    p = tm.const(posinf) if posinf is not None else tm.const(1.7976931348623157e308)
    q = tm.const(neginf) if neginf is not None else tm.const(-1.7976931348623157e308)

    def f(c):
        c = tm.num(c)
        r = tm.ite(tm.isnan(c), tm.const(nan), c)
        return tm.ite(tm.isinf(c), tm.ite(tm.lt(tm.ZERO, c), p, q), r)
    r = elementwise(f, [a], a.dtype, a.cls)
    if not it_true(copy):
        return write_out(a, r)
    return wrap(r)


def _isin(it, a, b, invert=False, **kw):
    a = asarray(a)
    bs = asarray(b).cells() if not isinstance(b, (set,)) else [tm.const(x) for x in b]
    r = elementwise(lambda x: tm.or_(tm.FALSE, *[tm.eq(x, y) for y in bs]), [a], "b")
    if it_true(invert):
        r = apply_un("logical_not", r)
    return wrap(r)


def _arrayequal(it, a, b, **kw):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or any(x != y for x, y in zip(a.dims, b.dims)):
        return False
    return reduce_("all", apply_bin("equal", a, b))


def _outer(it, a, b):
    a, b = ravel(atleast(1, asarray(a))), ravel(atleast(1, asarray(b)))
    return apply_bin("multiply", asarray(ar.getitem(a, (slice(None), None))), asarray(ar.getitem(b, (None, slice(None)))))


def _inner(it, a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap(apply_bin("multiply", a, b))
    if a.ndim == 1 and b.ndim == 1:
        return wrap(einsum("i,i->", a, b))
    left, right = "abcdefg"[:a.ndim - 1], "hjklmno"[:b.ndim - 1]
    return wrap(einsum("%si,%si->%s" % (left, right, left + right), a, b))


def _place(it, a, mask, vals):
    v = asarray(vals)
    if v.ndim == 0 or not isinstance(v.dims[0], LDim) and ar.gshape(v.dims) == (1,):
        return write_out(a, v, mask, "place")
    if v.ndim != 1:
        raise Unsupported("place of a matrix")
    m = asarray(mask, "b")
    if asarray(ar.getitem(a, m)).dims[0] != v.dims[0]:
        raise Unsupported("place with a different number of values")
    ar.setitem(a, m, v)
    return None


def _choose(it, idx, choices, **kw):
    idx = asarray(idx)
    arrs = seq_arrays(it, choices)
    r = arrs[-1]
    for i in range(len(arrs) - 2, -1, -1):
        c = apply_bin("equal", idx, asarray(i))
        r = asarray(where(it, c, arrs[i], r))
    return r


def _apply_along_axis(it, f, axis, a, *args, **kw):
    a = asarray(a)
    ax = norm_axis(axis, a.ndim)
    if a.ndim != 2 or isinstance(a.dims[ax], LDim):
        raise Unsupported("apply_along_axis")
    other = 1 - ax
    n = len(a.dims[other]) if isinstance(a.dims[other], LDim) else a.dims[other]
    res = []
    for i in range(n):
        v = AArray(a.buf, a.idx[:, i] if ax == 0 else a.idx[i], (a.dims[ax],), None)
        res.append(asarray(it.call(f, [v] + list(args), kw)))
    g = [r.grid() for r in res]
    out = np.empty((n,) + g[0].shape, dtype=object)
    for i, x in enumerate(g):
        out[i] = x
    r = ar.make(out, (a.dims[other],) + res[0].dims, res[0].dtype)
    return moveaxis(r, 0, -1) if ax == 0 and r.ndim > 1 else r


def _argwhere(it, a):
    nz = nonzero(asarray(a))
    return ar.transpose(stack(nz, 0))


def _fromiter(it, seq, dtype=None, count=-1):
    return asarray(list(it.iterate(seq)), parse_dtype(dtype))


def _ndenumerate(it, a):
    a = asarray(a)
    if a.has_lane():
        raise CrossLane("enumeration of individual rays")
    return Iter([(tuple(map(int, ix)), scalar(a.item(*ix), a.dtype)) for ix in np.ndindex(*a.idx.shape)])


def _ndindex(it, *s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return Iter([tuple(map(int, ix)) for ix in np.ndindex(*[as_pyint(x) for x in s])])


def _ix(it, *xs):
    n = len(xs)
    return tuple(asarray(ar.getitem(asarray(x), tuple(slice(None) if j == i else None for j in range(n)))) for i, x in enumerate(xs))


FUNCS = {}


def build(it):
    for n in UN:
        if UN[n][0] is not None or n in ("invert", "bitwise_not"):
            FUNCS[n] = Ufunc(n, 1)
    for n in BIN:
        FUNCS[n] = Ufunc(n, 2)
    table = {
        "asarray": asarray_, "array": array_, "asanyarray": asanyarray_, "ascontiguousarray": asarray_, "copy": lambda it, a, **k: array_(it, a),
        "zeros": lambda it, shape, dtype=None, **k: const_arr(shape, tm.ZERO, dtype),
        "ones": lambda it, shape, dtype=None, **k: const_arr(shape, tm.ONE, dtype),
        "empty": lambda it, shape, dtype=None, **k: const_arr(shape, tm.UNINIT, dtype),
        "full": lambda it, shape, fill_value, dtype=None, **k: full_(shape, fill_value, dtype),
        "zeros_like": _like(lambda d, x, dt: ar.full(d, ar.store_conv(tm.ZERO, dt), dt)),
        "ones_like": _like(lambda d, x, dt: ar.full(d, ar.store_conv(tm.ONE, dt), dt)),
        "empty_like": _like(lambda d, x, dt: ar.full(d, tm.UNINIT if dt == "f" else ar.store_conv(tm.UNINIT, dt), dt)),
        "full_like": lambda it, a, fill_value, **k: _like(_full_like)(it, a, fill_value, **k),
        "identity": lambda it, n, dtype=None: identity(n, dtype), "eye": lambda it, N, M=None, k=0, dtype=None, **kw: identity(N, dtype, M, as_pyint(k)),
        "diag": lambda it, v, k=0: diag(v, as_pyint(k)), "diagonal": _w(diag),
        "arange": lambda it, *a, **k: arange(*a, **k), "linspace": linspace, "meshgrid": meshgrid,
        "concatenate": _concat, "vstack": _vstack, "row_stack": _vstack, "hstack": _hstack, "dstack": _dstack, "column_stack": _colstack,
        "stack": lambda it, seq, axis=0, out=None, **k: stack(seq_arrays(it, seq), axis),
        "tile": lambda it, A, reps: tile(A, reps), "repeat": lambda it, a, repeats, axis=None: repeat(a, repeats, axis),
        "where": where, "select": select, "piecewise": piecewise, "choose": _choose,
        "nonzero": lambda it, a: nonzero(a), "flatnonzero": lambda it, a: flatnonzero(a), "argwhere": _argwhere,
        "count_nonzero": _count_nonzero,
        "any": _cond_any("any"), "all": _cond_any("all"), "sum": lambda it, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None: _red("sum")(it, asarray(a), axis, dtype, out, keepdims, initial, where),
        "prod": lambda it, a, axis=None, **k: reduce_("prod", asarray(a), axis, k.get("keepdims", False)),
        "min": _minmaxf("min"), "amin": _minmaxf("min"), "max": _minmaxf("max"), "amax": _minmaxf("max"),
        "nanmin": _nanred("min"), "nanmax": _nanred("max"), "nansum": _nanred("sum"),
        "mean": lambda it, a, axis=None, dtype=None, out=None, keepdims=False: mean_(a, axis, keepdims),
        "average": lambda it, a, axis=None, **k: mean_(a, axis),
        "var": lambda it, a, axis=None, **k: var_(a, axis), "std": lambda it, a, axis=None, **k: wrap(apply_un("sqrt", asarray(var_(a, axis)))),
        "argmin": lambda it, a, axis=None, out=None, keepdims=False: argext_("min", a, axis, keepdims),
        "argmax": lambda it, a, axis=None, out=None, keepdims=False: argext_("max", a, axis, keepdims),
        "sort": lambda it, a, axis=-1, **k: sort_(a, axis), "argsort": lambda it, a, axis=-1, **k: argsort_(a, axis),
        "take_along_axis": lambda it, arr, indices, axis: take_along_axis(arr, indices, axis),
        "put_along_axis": lambda it, arr, indices, values, axis: put_along_axis(arr, indices, values, axis),
        "take": lambda it, a, indices, axis=None, **k: take(a, indices, axis), "delete": lambda it, arr, obj, axis=None: delete(arr, obj, axis),
        "append": lambda it, arr, values, axis=None: append(arr, values, axis), "insert": lambda it, arr, obj, values, axis=None: insert(arr, obj, values, axis),
        "cumsum": lambda it, a, axis=None, dtype=None, out=None: cumulative("sum", a, axis, dtype),
        "cumprod": lambda it, a, axis=None, dtype=None, out=None: cumulative("prod", a, axis, dtype),
        "diff": lambda it, a, n=1, axis=-1, prepend=None, append=None: diff(a, n, axis, prepend, append),
        "roll": lambda it, a, shift, axis=None: roll(a, shift, axis), "flip": lambda it, m, axis=None: flip(m, axis),
        "flipud": lambda it, m: flip(m, 0), "fliplr": lambda it, m: flip(m, 1),
        "clip": lambda it, a, a_min=None, a_max=None, out=None, **k: clip(a, k.get("min", a_min), k.get("max", a_max), out),
        "isclose": lambda it, a, b, rtol=None, atol=None, equal_nan=False: isclose(a, b, rtol, atol),
        "allclose": lambda it, a, b, rtol=None, atol=None, equal_nan=False: reduce_("all", asarray(isclose(a, b, rtol, atol))),
        "array_equal": _arrayequal, "isin": _isin, "in1d": _isin,
        "einsum": lambda it, subs, *ops, **k: wrap(einsum(subs, *ops)),
        "matmul": lambda it, a, b, out=None, **k: matmul(a, b) if out is None else write_out(out, asarray(matmul(a, b))),
        "dot": lambda it, a, b, out=None: dot(a, b), "vdot": lambda it, a, b: wrap(einsum("i,i->", ravel(asarray(a)), ravel(asarray(b)))),
        "inner": _inner, "outer": _outer, "cross": lambda it, a, b, *x, **k: cross(a, b, *x, **k),
        "trace": lambda it, a, **k: reduce_("sum", diag(a)),
        "transpose": lambda it, a, axes=None: _m_transpose(it, asarray(a), *([axes] if axes is not None else [])),
        "swapaxes": lambda it, a, i, j: _swap(asarray(a), i, j), "moveaxis": lambda it, a, s, d: moveaxis(a, s, d),
        "rollaxis": lambda it, a, axis, start=0: moveaxis(a, axis, start),
        "reshape": lambda it, a, newshape, order="C": _m_reshape(it, asarray(a), *(newshape if isinstance(newshape, (tuple, list)) else [newshape])),
        "ravel": lambda it, a, **k: ravel(atleast(1, asarray(a))), "squeeze": lambda it, a, axis=None: squeeze(a, axis),
        "expand_dims": lambda it, a, axis: expand_dims(a, axis), "broadcast_to": lambda it, a, shape, **k: broadcast_to(a, shape),
        "broadcast_arrays": lambda it, *xs, **k: (lambda arrs: [AArray(a.buf, np.broadcast_to(a.idx, gshape(ar.bdims(*[b.dims for b in arrs]))), ar.bdims(*[b.dims for b in arrs])) for a in arrs])([asarray(x) for x in xs]),
        "atleast_1d": lambda it, *a: atleast(1, a[0]) if len(a) == 1 else [atleast(1, x) for x in a],
        "atleast_2d": lambda it, *a: atleast(2, a[0]) if len(a) == 1 else [atleast(2, x) for x in a],
        "atleast_3d": lambda it, *a: atleast(3, a[0]) if len(a) == 1 else [atleast(3, x) for x in a],
        "shape": _shape, "ndim": lambda it, a: asarray(a).ndim, "size": _size, "isscalar": lambda it, v: isinstance(v, (T, int, bool, str)),
        "copyto": _copyto, "round": lambda it, a, decimals=0, **k: round_(a, decimals), "around": lambda it, a, decimals=0, **k: round_(a, decimals),
        "round_": lambda it, a, decimals=0, **k: round_(a, decimals), "fix": lambda it, a: wrap(apply_un("trunc", asarray(a))),
        "interp": lambda it, x, xp, fp, left=None, right=None: interp1(x, xp, fp, left, right),
        "searchsorted": lambda it, a, v, side="left", sorter=None: searchsorted(a, v, side),
        "digitize": lambda it, x, bins, right=False: searchsorted(bins, x, "left" if it_true(right) else "right"),
        "unique": lambda it, a, **k: unique(a, **k), "nan_to_num": _nan_to_num,
        "split": _array_split, "array_split": _array_split, "vsplit": lambda it, a, n: _array_split(it, a, n, 0), "hsplit": lambda it, a, n: _array_split(it, a, n, 1 if asarray(a).ndim > 1 else 0),
        "vectorize": _vectorize, "apply_along_axis": _apply_along_axis, "fromiter": _fromiter, "ndenumerate": _ndenumerate, "ndindex": _ndindex, "ix_": _ix,
        "iterable": lambda it, v: isinstance(v, (list, tuple, AArray, dict)),
        "ptp": lambda it, a, axis=None, **k: METHODS["ptp"](it, asarray(a), axis),
        "result_type": _result_type, "promote_types": _result_type, "common_type": lambda it, *a: FLOATC,
        "set_printoptions": lambda it, *a, **k: None, "seterr": lambda it, *a, **k: {},
        "errstate": lambda it, *a, **k: NObj("errstate", {"__enter__": NFunc("enter", lambda it: None), "__exit__": NFunc("exit", lambda it, *a: False)}),
        "logspace": lambda it, a, b, num=50, **k: wrap(elementwise(lambda x: tm.fn("pow", tm.const(10), x), [linspace(it, a, b, num)], "f")),
        "asfarray": lambda it, a, **k: asarray(a, "f"),
        "putmask": lambda it, a, mask, values: write_out(a, asarray(values), mask, "putmask"),
        "place": _place,
        "sum_": None,
    }
    table.pop("sum_")
    for n, f in table.items():
        FUNCS[n] = NFunc("numpy." + n, f)
    ns = dict(FUNCS)
    ns.update({"pi": tm.PI, "inf": tm.INF, "Inf": tm.INF, "Infinity": tm.INF, "PINF": tm.INF, "NINF": tm.NINF, "nan": tm.NAN, "NaN": tm.NAN, "NAN": tm.NAN,
               "newaxis": None, "e": tm.const(2.718281828459045), "ndarray": NDARRAY, "generic": NPGENERIC, "floating": NPFLOAT, "integer": NPINT,
               "number": NPGENERIC, "bool_": NPBOOL, "bool8": NPBOOL})

    def scal(code):
        def f(it, v=0, *a, **k):
            r = cast(asarray(v), code)
            return wrap(r)
        return f
    NPBOOL.call = scal("b")
    for n in ("float64", "float32", "float16", "float_", "double", "single", "half", "longdouble", "float128"):
        ns[n] = NClass(n, (NPFLOAT,), scal(_narrow(n) or "f"))
    for n in ("int64", "int32", "int16", "int8", "int_", "intp", "uint8", "uint16", "uint32", "uint64", "uint", "intc", "signedinteger"):
        ns[n] = NClass(n, (NPINT,), scal(_narrow(n) or "i"))
    for n in _NARROW:
        NARROW_CLS[n] = ns[n]
    ns["object_"] = OBJECT
    ns["str_"] = NClass("str_", (OBJECT,))
    ns["finfo"] = NFunc("finfo", lambda it, *a: NObj("finfo", {"eps": tm.const(2.220446049250313e-16), "tiny": tm.const(2.2250738585072014e-308),
                                                            "max": tm.const(1.7976931348623157e308), "min": tm.const(-1.7976931348623157e308)}))
    ns["iinfo"] = NFunc("iinfo", lambda it, *a: NObj("iinfo", {"max": 2**63 - 1, "min": -2**63}))

    def dtypef(it, d, *a):
        return dtype_obj(parse_dtype(d))
    ns["dtype"] = NFunc("dtype", dtypef)

    class _CC(object):
        pass

    def cidx(kind):
        def gi(it, k):
            ks = k if isinstance(k, tuple) else (k,)
            parts = []
            for x in ks:
                if isinstance(x, slice):
                    parts.append(arange(0 if x.start is None else x.start, x.stop, 1 if x.step is None else x.step))
                else:
                    parts.append(asarray(x))
            if kind == "c_":
                parts = [asarray(ar.getitem(p, (slice(None), None))) if p.ndim == 1 else (asarray(ar.getitem(p, (None, None))) if p.ndim == 0 else p) for p in parts]
                return ar.concat(parts, parts[0].ndim - 1)
            return ar.concat([asarray(atleast(1, p)) for p in parts], 0)
        return NObj(kind, {"__getitem__": NFunc(kind, gi)})
    ns["c_"] = cidx("c_")
    ns["r_"] = cidx("r_")
    ns["s_"] = NObj("s_", {"__getitem__": NFunc("s_", lambda it, k: k)})
    ns["index_exp"] = NObj("index_exp", {"__getitem__": NFunc("s_", lambda it, k: k if isinstance(k, tuple) else (k,))})

    lin = {
        "norm": lambda it, x, ord=None, axis=None, keepdims=False: norm(x, ord, axis, keepdims),
        "inv": lambda it, a: inv(a), "det": lambda it, a: det_([[tm.num(c) for c in row] for row in asarray(a).grid()], asarray(a).dims[0]),
        "LinAlgError": None, "matrix_power": lambda it, a, n: _mpow(a, n), "multi_dot": lambda it, seq: _multidot(it, seq),
        "solve": lambda it, a, b: matmul(inv(a), b), "pinv": None,
    }
    from .interp import EXCS
    lns = {k: NFunc("numpy.linalg." + k, f) for k, f in lin.items() if f is not None}
    lns["LinAlgError"] = EXCS["LinAlgError"]
    linm = NModule("numpy.linalg", lns, lambda n: _missing_lib(it, "numpy.linalg", n))

    def uni(it, low=0, high=1, size=None):
        return fresh(it, tm.const(low), tm.const(high), size)

    def randint(it, low, high=None, size=None, **k):
        raise Unsupported("random.randint")

    def normal(it, loc=0, scale=1, size=None):
        z = fresh(it, tm.ZERO, tm.ONE, size, "gauss")
        r = apply_bin("add", asarray(loc), apply_bin("multiply", asarray(scale), asarray(z)))
        return wrap(r)
    rfun = {
        "random_sample": lambda it, size=None: fresh(it, tm.ZERO, tm.ONE, size), "random": lambda it, size=None: fresh(it, tm.ZERO, tm.ONE, size),
        "ranf": lambda it, size=None: fresh(it, tm.ZERO, tm.ONE, size), "sample": lambda it, size=None: fresh(it, tm.ZERO, tm.ONE, size),
        "rand": lambda it, *s: fresh(it, tm.ZERO, tm.ONE, s if s else None), "uniform": uni, "normal": normal,
        "randn": lambda it, *s: normal(it, 0, 1, s if s else None), "standard_normal": lambda it, size=None: normal(it, 0, 1, size),
        "seed": lambda it, *a: None, "randint": randint,
    }
    rns = {k: NFunc("numpy.random." + k, f) for k, f in rfun.items()}
    gen = NObj("Generator", dict(rns))
    rns["default_rng"] = NFunc("default_rng", lambda it, *a: gen)
    rns["RandomState"] = NFunc("RandomState", lambda it, *a: gen)
    rnm = NModule("numpy.random", rns, lambda n: _missing_lib(it, "numpy.random", n))
    ns["linalg"] = linm
    ns["random"] = rnm
    ns["matlib"] = NModule("numpy.matlib", {})
    npmod = NModule("numpy", ns, lambda n: _missing_lib(it, "numpy", n))
    return {"numpy": npmod, "numpy.linalg": linm, "numpy.random": rnm}


_MORE = {}


def _more(it, n):
    """less common functions, defined in an interpreted source of our own"""
    import os
    if not _MORE:
        import ast
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "numpy_more.py")) as f:
            _MORE["src"] = f.read()
        _MORE["names"] = {x.name for x in ast.parse(_MORE["src"]).body if isinstance(x, ast.FunctionDef)}
    if n not in _MORE["names"]:
        return None
    it.sources["_numpy_more"] = _MORE["src"]
    return it.import_module("_numpy_more").ns[n]


def _missing_lib(it, mod, n):
    if mod == "numpy":
        r = _more(it, n)
        if r is not None and (mod not in NAMES or n in NAMES[mod]):
            return r
    if mod in NAMES and n not in NAMES[mod]:
        raise PyRaise("AttributeError", "module '%s' has no attribute '%s'" % (mod, n))
    if mod == "numpy" and n in ("int", "float", "bool", "object", "str"):
        raise PyRaise("AttributeError", "module 'numpy' has no attribute '%s'" % n)

    def f(it2, *a, **k):
        raise Unsupported("%s.%s" % (mod, n))
    return NFunc("%s.%s" % (mod, n), f)


def _mpow(a, n):
    n = as_pyint(n)
    a = asarray(a)
    if n < 0:
        a = inv(a)
        n = -n
    r = identity(a.dims[0])
    for _ in range(n):
        r = matmul(r, a)
    return r


def _multidot(it, seq):
    arrs = seq_arrays(it, seq)
    r = arrs[0]
    for a in arrs[1:]:
        r = matmul(r, a)
    return r
