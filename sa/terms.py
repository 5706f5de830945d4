"""Value terms: the abstract value domain of the analyser.

A term is a node of a gated value-flow graph (hash-consed): numbers, symbols, arithmetic, comparisons, gates
(``ite``), n-ary min/max/sort, elementary functions and uninterpreted functions.  Nothing in /repo is imported or
executed; terms are only ever built by the abstract interpreter (interp.py) while it walks the source.

Equality of two terms is decided in two tiers:
  1. normal form   - same node, or equal as rational functions over their atoms (``nf_equal``);
  2. random interpretation (Gulwani & Necula) - both graphs are evaluated under a pool of interpretations of their
     symbols/uninterpreted functions; a disagreement is a distinguishing interpretation (witness).
"""
import math
import zlib
from fractions import Fraction

import numpy as np

_table = {}
_ATOMK = ("lt", "le", "eq", "close", "min", "max")
ATOMS = []      # the conditions among the terms
CUR = ["<init>", "<module>", 0]  # file, function, line: where the interpreter currently is
SITES = {}


class T(object):
    __slots__ = ("k", "a", "id", "site", "bool")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        # a symbolic value has no truth value of its own: whoever asks must split the analysis (Interp.truth)
        if self.k in ("c", "b"):
            return self.a[0] is not None and self.a[0] != 0
        raise TypeError("internal: truth of a symbolic value")


def _mk(k, *a, b=False):
    key = (k,) + tuple((x.id, "T") if isinstance(x, T) else x for x in a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = len(_table)
        t.site = (CUR[0], CUR[1], CUR[2])
        t.bool = b
        _table[key] = t
        if k in _ATOMK:
            ATOMS.append(t)
    return t


def reset():
    pass


def show(t, depth=5):
    if not isinstance(t, T):
        return repr(t)
    if t.k == "c":
        v = t.a[0]
        if isinstance(v, Fraction):
            return str(v.numerator) if v.denominator == 1 else (
                "%d/%d" % (v.numerator, v.denominator) if v.denominator < 10000 else repr(float(v)))
        return v
    if t.k == "b":
        return str(t.a[0])
    if t.k in ("s", "bs"):
        return t.a[0]
    if depth <= 0:
        return "#%d" % t.id
    ar = [show(x, depth - 1) for x in t.a if isinstance(x, T)]
    if t.k == "add":
        return "(%s + %s)" % tuple(ar)
    if t.k == "mul":
        return "%s*%s" % tuple(ar)
    if t.k == "div":
        return "(%s / %s)" % tuple(ar)
    if t.k == "lt":
        return "%s < %s" % tuple(ar)
    if t.k == "eq":
        return "%s == %s" % tuple(ar)
    if t.k == "ite":
        return "(%s if %s else %s)" % (ar[1], ar[0], ar[2])
    if t.k in ("f", "uf", "agg", "bagg"):
        return "%s(%s)" % (t.a[0], ", ".join(ar))
    if t.k == "sort":
        return "sort[%s](%s)" % (t.a[0], ", ".join(ar))
    return "%s(%s)" % (t.k, ", ".join(ar))


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, (bool, np.bool_)):
        return TRUE if v else FALSE
    if isinstance(v, (int, np.integer)):
        return _mk("c", Fraction(int(v)))
    if isinstance(v, Fraction):
        return _mk("c", v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return INF if v > 0 else NINF
        return _mk("c", Fraction(repr(v)))
    raise TypeError("no constant term for %r" % (v,))


TRUE = _mk("b", True, b=True)
FALSE = _mk("b", False, b=True)
INF = _mk("c", "inf")
NINF = _mk("c", "-inf")
NAN = _mk("c", "nan")
ZERO = _mk("c", Fraction(0))
ONE = _mk("c", Fraction(1))
TWO = _mk("c", Fraction(2))
MONE = _mk("c", Fraction(-1))

_samplers = {}


def sym(name, sampler=None):
    if sampler is not None or name not in _samplers:
        _samplers[name] = sampler
    return _mk("s", name)


def bsym(name, sampler=None):
    _samplers.setdefault(name, sampler)
    return _mk("bs", name, b=True)


PI = sym("pi", lambda rng, n: np.full(n, math.pi))
UNINIT = sym("<uninitialised>", lambda rng, n: rng.normal(size=n) * 1e3)


def fv(t):
    """Fraction value of a finite constant term, else None"""
    if t.k == "c" and isinstance(t.a[0], Fraction):
        return t.a[0]
    return None


def isc(t):
    return t.k in ("c", "b")


def cfloat(t):
    """float of a literal term; None for every other term"""
    if t.k == "b":
        return float(t.a[0])
    if t.k != "c":
        return None
    v = t.a[0]
    return float(v)


def num(t):
    """boolean -> number"""
    if not t.bool:
        return t
    if t.k == "b":
        return ONE if t.a[0] else ZERO
    return _mk("ite", t, ONE, ZERO)


def truth(t):
    """number -> boolean"""
    if t.bool:
        return t
    if t.k == "c":
        return const(t.a[0] != 0)
    if t.k == "ite" and isc(t.a[1]) and isc(t.a[2]):
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    return not_(eq(t, ZERO))


def _fold2(op, a, b):
    x, y = cfloat(a), cfloat(b)
    with np.errstate(all="ignore"):
        r = float(getattr(np, op)(np.float64(x), np.float64(y)))
    return const(r)


def add(a, b):
    a, b = num(a), num(b)
    x, y = fv(a), fv(b)
    if x is not None and y is not None:
        return const(x + y)
    if x == 0:
        return b
    if y == 0:
        return a
    if isc(a) and isc(b):
        return _fold2("add", a, b)
    if a.id > b.id:
        a, b = b, a
    return _mk("add", a, b)


def mul(a, b):
    a, b = num(a), num(b)
    x, y = fv(a), fv(b)
    if x is not None and y is not None:
        return const(x * y)
    if x == 0 and not isc(b):
        return ZERO
    if y == 0 and not isc(a):
        return ZERO
    if x == 1:
        return b
    if y == 1:
        return a
    if isc(a) and isc(b):
        return _fold2("multiply", a, b)
    # constants gather: c1*(c2*x)
    if x is not None and b.k == "mul" and fv(b.a[0]) is not None:
        return mul(const(x * fv(b.a[0])), b.a[1])
    if y is not None and a.k == "mul" and fv(a.a[0]) is not None:
        return mul(const(y * fv(a.a[0])), a.a[1])
    if y is not None or (x is None and a.id > b.id):
        a, b = b, a
    return _mk("mul", a, b)


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    if a is b and not a.bool and a.k != "c":
        return ZERO
    return add(a, neg(b))


def div(a, b):
    a, b = num(a), num(b)
    x, y = fv(a), fv(b)
    if y is not None and y != 0:
        if x is not None:
            return const(x / y)
        if isc(a):
            return _fold2("divide", a, b)
        return mul(const(1 / y), a)
    if isc(a) and isc(b):
        return _fold2("divide", a, b)
    if x == 0 and y is None and not isc(b):
        return ZERO
    if a is b:
        return ONE
    return _mk("div", a, b)


def fn(name, *args):
    args = tuple(num(x) for x in args)
    if all(isc(x) for x in args):
        r = _const_fn(name, args)
        if r is not None:
            return r
    return _mk("f", name, *args)


def _const_fn(name, args):
    vs = [cfloat(x) for x in args]
    if name == "sqrt":
        v = fv(args[0])
        if v is not None and v >= 0:
            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                return const(Fraction(p, q))
            return None
    if name in ("floor", "ceil", "trunc", "rint"):
        v = fv(args[0])
        if v is not None:
            return const(int({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round}[name](v)))
    if name == "abs" and fv(args[0]) is not None:
        return const(abs(fv(args[0])))
    if name in ("sin", "cos", "tan", "exp", "log", "arccos", "arcsin", "arctan"):
        if vs[0] == 0 and name in ("sin", "tan", "arcsin", "arctan"):
            return ZERO
        if vs[0] == 0 and name in ("cos", "exp"):
            return ONE
        return None
    if name == "pow" and fv(args[0]) is not None and fv(args[1]) is not None and fv(args[1]).denominator == 1:
        e = int(fv(args[1]))
        if fv(args[0]) == 0 and e < 0:
            return INF
        if abs(e) <= 64:
            return const(fv(args[0]) ** e)
    f = NPF.get(name)
    if f is None:
        return None
    with np.errstate(all="ignore"):
        try:
            r = f(*[np.float64(v) for v in vs])
        except Exception:
            return None
    if np.isnan(r):
        return NAN
    if np.isinf(r):
        return const(float(r))
    if name in ("mod", "floordiv", "sign", "copysign", "hypot") and all(fv(x) is not None for x in args):
        if name == "mod" and fv(args[1]) != 0:
            return const(fv(args[0]) % fv(args[1]))
        if name == "floordiv" and fv(args[1]) != 0:
            return const(fv(args[0]) // fv(args[1]))
        if name == "sign":
            return const((fv(args[0]) > 0) - (fv(args[0]) < 0))
    return None


def _bits(f, a, b):
    return f(np.nan_to_num(a).astype(np.int64), np.nan_to_num(b).astype(np.int64)).astype(float)


NPF = {
    "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos, "tan": np.tan, "exp": np.exp, "log": np.log, "abs": np.abs,
    "arccos": np.arccos, "arcsin": np.arcsin, "arctan": np.arctan, "arctan2": np.arctan2, "pow": np.power,
    "floor": np.floor, "ceil": np.ceil, "trunc": np.trunc, "rint": np.rint, "sign": np.sign, "mod": np.mod,
    "floordiv": np.floor_divide, "hypot": np.hypot, "log10": np.log10, "log2": np.log2, "cbrt": np.cbrt,
    "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh, "log1p": np.log1p, "expm1": np.expm1,
    "bitand": lambda a, b: _bits(np.bitwise_and, a, b), "bitor": lambda a, b: _bits(np.bitwise_or, a, b),
    "bitxor": lambda a, b: _bits(np.bitwise_xor, a, b),
    "copysign": np.copysign, "fmod": np.fmod, "nan2num": np.nan_to_num,
    "float32": lambda a: np.asarray(a, np.float32).astype(np.float64), "float16": lambda a: np.asarray(a, np.float16).astype(np.float64),
    "int8": lambda a: (a + 128) % 256 - 128, "int16": lambda a: (a + 32768) % 65536 - 32768, "int32": lambda a: (a + 2 ** 31) % 2 ** 32 - 2 ** 31,
    "uint8": lambda a: a % 256, "uint16": lambda a: a % 65536, "uint32": lambda a: a % 2 ** 32,
}


def sqrt(a):
    a = num(a)
    if a.k == "mul" and a.a[0] is a.a[1]:
        return abs_(a.a[0])
    return fn("sqrt", a)


def abs_(a):
    a = num(a)
    if a.k == "f" and a.a[0] in ("abs", "sqrt"):
        return a
    return fn("abs", a)


def trig(name, a):
    a = num(a)
    c = _pi_multiple(a)
    if c is not None:
        r = _exact_trig(name, c)
        if r is not None:
            return r
    return fn(name, a)


def _pi_multiple(a):
    if a is ZERO:
        return Fraction(0)
    p = nf(a, 50)
    if p is None:
        return None
    if len(p) == 0:
        return Fraction(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ((PI.id, 1),):
            return c
    return None


def _exact_trig(name, c):
    if name == "tan":
        return None
    if name == "sin":
        c = c - Fraction(1, 2)  # sin(x) = cos(x - pi/2)
    c = c % 2
    s = 1
    if c > 1:
        c = 2 - c
    if c > Fraction(1, 2):
        c = 1 - c
        s = -1
    tab = {Fraction(0): ONE, Fraction(1, 2): ZERO, Fraction(1, 3): const(Fraction(1, 2)),
           Fraction(1, 4): mul(const(Fraction(1, 2)), fn("sqrt", TWO)),
           Fraction(1, 6): mul(const(Fraction(1, 2)), fn("sqrt", const(3)))}
    r = tab.get(c)
    if r is None:
        return None
    return r if s > 0 else neg(r)


def powt(a, b):
    a, b = num(a), num(b)
    e = fv(b)
    if e is not None:
        if e == Fraction(1, 2):
            return sqrt(a)
        if e.denominator == 1 and 0 <= e <= 8:
            if e == 0:
                return ONE
            r = a
            for _ in range(int(e) - 1):
                r = mul(r, a)
            return r
        if e.denominator == 1 and -8 <= e < 0:
            return div(ONE, powt(a, const(-e)))
    return fn("pow", a, b)


# ---------------------------------------------------------------- booleans, comparisons, gates
def not_(a):
    a = truth(a)
    if a.k == "b":
        return const(not a.a[0])
    if a.k == "not":
        return a.a[0]
    return _mk("not", a, b=True)


def and_(*xs):
    out = []
    for x in xs:
        x = truth(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.k == "and":
            out.extend(x.a)
        else:
            out.append(x)
    out = sorted(set(out), key=lambda t: t.id)
    ids = set(t.id for t in out)
    for t in out:
        if t.k == "not" and t.a[0].id in ids:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", *out, b=True)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def xor_(a, b):
    a, b = truth(a), truth(b)
    if a is TRUE:
        return not_(b)
    if b is TRUE:
        return not_(a)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("xor", a, b, b=True)


_closed = {}


def closed_value(t):
    """float value of a term without free symbols (None otherwise)"""
    r = _closed.get(t.id, 0)
    if r != 0 or isinstance(r, float):
        return r
    k = t.k
    v = None
    if k == "c":
        v = cfloat(t)
    elif t is PI:
        v = math.pi
    elif k in ("add", "mul", "div", "f", "min", "max"):
        xs = [closed_value(x) for x in t.a if isinstance(x, T)]
        if all(x is not None for x in xs):
            with np.errstate(all="ignore"):
                try:
                    if k == "add":
                        v = xs[0] + xs[1]
                    elif k == "mul":
                        v = xs[0] * xs[1]
                    elif k == "div":
                        v = float(np.float64(xs[0]) / np.float64(xs[1]))
                    elif k == "min":
                        v = min(xs)
                    elif k == "max":
                        v = max(xs)
                    elif t.a[0] in NPF:
                        v = float(NPF[t.a[0]](*[np.float64(x) for x in xs]))
                except Exception:
                    v = None
            if v is not None and math.isnan(v):
                v = None
    _closed[t.id] = v
    return v


def _clear(a, b):
    """sign of b - a for symbol-free terms when it is beyond doubt"""
    x = closed_value(a)
    if x is None:
        return None
    y = closed_value(b)
    if y is None:
        return None
    if math.isinf(x) or math.isinf(y):
        return None if x == y else (1 if y > x else -1)
    if abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y)):
        return None
    return 1 if y > x else -1


def lt(a, b):
    a, b = num(a), num(b)
    if isc(a) and isc(b):
        x, y = fv(a), fv(b)
        if x is not None and y is not None:
            return const(x < y)
        return const(cfloat(a) < cfloat(b))
    if a is b:
        return FALSE
    c = _clear(a, b)
    if c is not None:
        return TRUE if c > 0 else FALSE
    return _mk("lt", a, b, b=True)


def le(a, b):
    a, b = num(a), num(b)
    if isc(a) and isc(b):
        x, y = fv(a), fv(b)
        if x is not None and y is not None:
            return const(x <= y)
        return const(cfloat(a) <= cfloat(b))
    if a is b:
        return TRUE
    c = _clear(a, b)
    if c is not None:
        return TRUE if c > 0 else FALSE
    return _mk("le", a, b, b=True)


def eq(a, b):
    if a.bool and b.bool:
        return not_(xor_(a, b))
    a, b = num(a), num(b)
    if isc(a) and isc(b):
        x, y = fv(a), fv(b)
        if x is not None and y is not None:
            return const(x == y)
        return const(cfloat(a) == cfloat(b))
    if a is b:
        return TRUE
    if _clear(a, b) is not None:
        return FALSE
    if a.k == "c":
        a, b = b, a
    # gate of constants against a constant folds into boolean structure
    if a.k == "ite" and b.k == "c":
        def leafy(t):
            return t.k == "c" or (t.k == "ite" and leafy(t.a[1]) and leafy(t.a[2]))
        if leafy(a):
            return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if a.id > b.id and b.k != "c":
        a, b = b, a
    return _mk("eq", a, b, b=True)


def close(a, b, rtol=None, atol=None):
    rtol = const(1e-5) if rtol is None else rtol
    atol = const(1e-8) if atol is None else atol
    a, b = num(a), num(b)
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        x, y = cfloat(a), cfloat(b)
        return const(bool(np.isclose(x, y, cfloat(rtol), cfloat(atol))))
    return _mk("close", a, b, rtol, atol, b=True)


def isfinite(a):
    a = num(a)
    if a.k == "c":
        return const(isinstance(a.a[0], Fraction))
    if a.k == "s":
        s = _samplers.get(a.a[0])
        if s is None or getattr(s, "finite", True):
            return TRUE
    return _mk("isfinite", a, b=True)


def isinf(a):
    a = num(a)
    if a.k == "c":
        return const(a.a[0] in ("inf", "-inf"))
    if a.k == "s" and (_samplers.get(a.a[0]) is None or getattr(_samplers[a.a[0]], "finite", True)):
        return FALSE
    return _mk("isinf", a, b=True)


_finite = {}
_CLOSED_UNDER = ("add", "mul", "neg", "sub", "min", "max", "abs", "ite", "num", "sin", "cos")


def surely_finite(t):
    """no interpretation makes it infinite or undefined (overflow aside)"""
    r = _finite.get(t.id)
    if r is None:
        if t.bool:
            r = True
        elif t.k == "c":
            r = isinstance(t.a[0], Fraction)
        elif t.k == "s":
            r = getattr(_samplers.get(t.a[0]), "finite", True)
        elif t.k in _CLOSED_UNDER:
            r = all(surely_finite(x) for x in t.a if isinstance(x, T))
        else:
            r = False
        _finite[t.id] = r
    return r


def isnan(a):
    a = num(a)
    if a.k == "c":
        return const(a.a[0] == "nan")
    if a.k == "s" or surely_finite(a):
        return FALSE
    if a.k == "ite":
        return ite(a.a[0], isnan(a.a[1]), isnan(a.a[2]))
    return _mk("isnan", a, b=True)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.k == "not":
        return ite(c.a[0], b, a)
    if a.bool and b.bool:
        return or_(and_(c, a), and_(not_(c), b))
    a, b = num(a), num(b)
    if a is b:
        return a
    if a.k == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.k == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return _mk("ite", c, a, b)


def minmax(name, *xs):
    out = []
    for x in xs:
        x = num(x)
        if x.k == name:
            out.extend(x.a)
        else:
            out.append(x)
    cs = [x for x in out if x.k == "c"]
    out = sorted(set(x for x in out if x.k != "c"), key=lambda t: t.id)
    if cs:
        f = min if name == "min" else max
        if any(c is NAN for c in cs):
            return NAN
        c = f(cs, key=cfloat)
        drop = INF if name == "min" else NINF
        if c is not drop or not out:
            out.append(c)
    if len(out) == 1:
        return out[0]
    return _mk(name, *out)


def sort_terms(xs):
    xs = [num(x) for x in xs]
    n = len(xs)
    if n == 1:
        return list(xs)
    if all(isc(x) for x in xs):
        return sorted(xs, key=cfloat)
    infs = [x for x in xs if x is INF]
    rest = [x for x in xs if x is not INF]
    if n == 2:
        return [minmax("min", *xs), minmax("max", *xs)]
    key = tuple(sorted(rest, key=lambda t: t.id))
    if len(key) == 1:
        return [key[0]] + infs
    if len(key) == 2 and infs:
        return [minmax("min", *key), minmax("max", *key)] + infs
    return [_mk("sort", r, *key) for r in range(len(key))] + infs


def argsort_terms(xs):
    """stable argsort positions as terms"""
    xs = [num(x) for x in xs]
    n = len(xs)
    ranks = []
    for i in range(n):
        parts = ZERO
        for j in range(n):
            if j == i:
                continue
            c = le(xs[j], xs[i]) if j < i else lt(xs[j], xs[i])
            parts = add(parts, num(c))
        ranks.append(parts)
    out = []
    for r in range(n):
        t = const(n - 1)
        for i in range(n - 2, -1, -1):
            t = ite(eq(ranks[i], const(r)), const(i), t)
        out.append(t)
    return out


def argext(xs, kind):
    """index of first minimum / maximum"""
    xs = [num(x) for x in xs]
    best, arg = xs[0], ZERO
    for i in range(1, len(xs)):
        c = lt(xs[i], best) if kind == "min" else lt(best, xs[i])
        arg = ite(c, const(i), arg)
        best = ite(c, xs[i], best)
    return arg


def uf(name, kind, *args):
    """uninterpreted function (name is part of identity; kind selects the family of interpretations)"""
    return _mk("uf", name, kind, *[num(x) for x in args])


def agg(name, t, lane):
    """aggregate over a whole lane (all rays): couples rays"""
    if name == "all":
        return not_(agg("any", not_(truth(t)), lane))
    if name == "any":
        t = truth(t)
        if t.k == "b" and not t.a[0]:
            return t
        return _mk("bagg", name, t, lane, b=True)
    return _mk("agg", name, num(t), lane)


def unk(reason):
    return _mk("unk", reason + "@%s:%s" % (CUR[0], CUR[2]))


# ---------------------------------------------------------------- traversal
def subterms(t, out=None):
    out = {} if out is None else out
    st = [t]
    while st:
        x = st.pop()
        if x.id in out:
            continue
        out[x.id] = x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
    return out


def has_kind(t, kinds):
    return [x for x in subterms(t).values() if x.k in kinds]


# ---------------------------------------------------------------- normal form (rational functions over atoms)
class TooBig(Exception):
    pass


_nf_cache = {}


def nf(t, cap=800):
    """polynomial normal form: dict mono -> Fraction, mono = sorted ((atom id, exp), ...); None when too large"""
    r = _nf_cache.get(t.id, 0)
    if r != 0:
        return r
    try:
        r = _nf(t, cap)
    except (TooBig, RecursionError):
        r = None
    _nf_cache[t.id] = r
    return r


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


def _pmul(p, q, cap):
    if len(p) * len(q) > cap * 4:
        raise TooBig()
    r = {}
    fix = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = _mmul(m1, m2)
            mono = tuple(sorted((a, e) for a, e in d.items() if e != 0))
            c = c1 * c2
            if any((abs(e) >= 2) and a in _rad for a, e in mono):
                fix.append((mono, c))
                continue
            v = r.get(mono, 0) + c
            if v == 0:
                r.pop(mono, None)
            else:
                r[mono] = v
    for mono, c in fix:
        q2 = {(): c}
        rest = []
        for a, e in mono:
            if a in _rad and abs(e) >= 2:
                rule = _rad[a]
                if e < 0:
                    rest.append((a, e))
                    continue
                k, rem = divmod(e, 2)
                for _ in range(k):
                    q2 = _pmul(q2, rule, cap)
                if rem:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        if rest:
            base = {tuple(rest): Fraction(1)}
            r2 = {}
            for m1, c1 in q2.items():
                d = _mmul(m1, tuple(rest))
                mm = tuple(sorted((a, e) for a, e in d.items() if e != 0))
                r2[mm] = r2.get(mm, 0) + c1
            q2 = r2
        r = _padd(r, q2)
    if len(r) > cap:
        raise TooBig()
    return r


_rad = {}  # atom id -> nf of its square (sqrt atoms, abs atoms, cos atoms)
_atoms = {}


def _atom(t):
    _atoms[t.id] = t
    return {((t.id, 1),): Fraction(1)}


def poly_key(p):
    return tuple(sorted(p.items()))


_poly_atoms = {}


def _inv_atom(p):
    """atom standing for 1/p, p normalised"""
    key = ("inv", poly_key(p))
    t = _poly_atoms.get(key)
    if t is None:
        t = _mk("nfinv", key)
        _poly_atoms[key] = t
        _atoms[t.id] = t
        _invs[t.id] = p
    return t


_invs = {}


def _lead(p):
    return max(p)


def _pdivexact(a, b):
    """exact multivariate division a/b or None (lex leading monomials; only non-negative exponents)"""
    if not a:
        return {}
    if any(e < 0 for m in a for _, e in m) or any(e < 0 for m in b for _, e in m):
        return None
    atoms = sorted(set(x for m in list(a) + list(b) for x, _ in m))
    pos = {x: i for i, x in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for x, e in m:
            v[pos[x]] = e
        return tuple(v)
    A = {vec(m): c for m, c in a.items()}
    B = {vec(m): c for m, c in b.items()}
    lb = max(B)
    cb = B[lb]
    Q = {}
    n = 0
    while A:
        la = max(A)
        d = tuple(x - y for x, y in zip(la, lb))
        if min(d, default=0) < 0:
            return None
        c = A[la] / cb
        Q[d] = c
        for m, cc in B.items():
            k = tuple(x + y for x, y in zip(m, d))
            v = A.get(k, 0) - c * cc
            if v == 0:
                A.pop(k, None)
            else:
                A[k] = v
        n += 1
        if n > 500:
            return None
    return {tuple((atoms[i], e) for i, e in enumerate(m) if e): c for m, c in Q.items()}


def _reduce_inv(p, cap):
    """cancel inv(q)*q"""
    ids = set(a for m in p for a, e in m if a in _invs and e > 0)
    for a in ids:
        changed = True
        while changed:
            changed = False
            maxe = max([e for m in p for x, e in m if x == a] or [0])
            for k in range(maxe, 0, -1):
                grp = {}
                for m, c in p.items():
                    if (a, k) in m:
                        grp[tuple(x for x in m if x[0] != a)] = c
                q = _pdivexact(grp, _invs[a]) if grp else None
                if q:
                    p = {m: c for m, c in p.items() if (a, k) not in m}
                    for m, c in q.items():
                        d = dict(m)
                        if k > 1:
                            d[a] = k - 1
                        mm = tuple(sorted(d.items()))
                        v = p.get(mm, 0) + c
                        if v == 0:
                            p.pop(mm, None)
                        else:
                            p[mm] = v
                    changed = True
                    break
    return p


def _recip(p, cap):
    if not p:
        raise TooBig()
    if len(p) == 1:
        (m, c), = p.items()
        out = []
        extra = {(): Fraction(1)}
        for a, e in m:
            if a in _rad and e == 1:
                # 1/sqrt(x) = sqrt(x) * 1/x
                extra = _pmul(extra, {((a, 1),): Fraction(1)}, cap)
                extra = _pmul(extra, _recip(_rad[a], cap), cap)
            elif a in _invs:
                q = _invs[a]
                for _ in range(e):
                    extra = _pmul(extra, q, cap)
            else:
                out.append((a, -e))
        return _pmul(extra, {tuple(out): 1 / c}, cap)
    # pull out common monomial and leading coefficient
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
    # negative exponents anywhere
    for m in p:
        for a, e in m:
            if e < 0:
                common[a] = min(common.get(a, 0), e)
    common = {a: e for a, e in common.items() if e != 0}
    q = {}
    for m, c in p.items():
        d = dict(m)
        for a, e in common.items():
            d[a] = d.get(a, 0) - e
        q[tuple(sorted((a, e) for a, e in d.items() if e))] = c
    lc = q[_lead(q)]
    q = {m: c / lc for m, c in q.items()}
    inv = {((_inv_atom(q).id, 1),): 1 / lc}
    if common:
        cm = {tuple(sorted(common.items())): Fraction(1)}
        inv = _pmul(inv, _recip(cm, cap), cap)
    return inv


def _nf(t, cap):
    k = t.k
    if k == "c":
        v = t.a[0]
        if not isinstance(v, Fraction):
            return _atom(t)
        return {(): v} if v != 0 else {}
    if t.bool:
        return _nf(num(t), cap)
    if k == "add":
        p, q = nf(t.a[0], cap), nf(t.a[1], cap)
        if p is None or q is None:
            raise TooBig()
        r = _padd(p, q)
        if len(r) > cap:
            raise TooBig()
        return _reduce_inv(r, cap)
    if k == "mul":
        p, q = nf(t.a[0], cap), nf(t.a[1], cap)
        if p is None or q is None:
            raise TooBig()
        return _reduce_inv(_pmul(p, q, cap), cap)
    if k == "div":
        p, q = nf(t.a[0], cap), nf(t.a[1], cap)
        if p is None or q is None:
            raise TooBig()
        return _reduce_inv(_pmul(p, _recip(q, cap), cap), cap)
    if k == "f" and t.a[0] in ("sqrt", "abs", "sin", "cos"):
        inner = nf(t.a[1], cap)
        if inner is None:
            raise TooBig()
        return _nf_fn(t.a[0], inner, cap)
    if k in ("f", "min", "max", "sort", "uf", "ite", "agg"):
        # congruence: canonicalise arguments
        ca = []
        for x in t.a:
            if isinstance(x, T):
                ca.append(canon(x, cap))
            else:
                ca.append(x)
        key = (k,) + tuple(ca)
        at = _poly_atoms.get(key)
        if at is None:
            at = _poly_atoms[key] = t
        return _atom(at)
    return _atom(t)


_canon_ids = {}


def canon(t, cap=800):
    """canonical hashable key of a term (congruence closed over normal forms)"""
    if t.bool:
        if t.k in ("b", "bs"):
            return ("B", t.id)
        if t.k in ("lt", "le", "eq"):
            p, q = nf(t.a[0], cap), nf(t.a[1], cap)
            if p is not None and q is not None:
                d = _padd(p, q, -1)
                if not d:
                    return ("B", TRUE.id if t.k != "lt" else FALSE.id)
                lc = d[_lead(d)]
                kk = t.k
                if t.k == "eq":
                    return ("eq", poly_key({m: c / lc for m, c in d.items()}))
                s = 1 if lc > 0 else -1
                dd = poly_key({m: c / abs(lc) * s for m, c in d.items()})
                # d<0 ; with s: dd<0 if s>0 else dd>0
                if kk == "lt":
                    return ("lt0", dd) if s > 0 else ("gt0", dd)
                return ("not", ("gt0", dd)) if s > 0 else ("not", ("lt0", dd))
        if t.k == "not":
            c = canon(t.a[0], cap)
            return c[1] if c[0] == "not" else ("not", c)
        if t.k == "and":
            return ("and",) + tuple(sorted((canon(x, cap) for x in t.a), key=repr))
        return (t.k,) + tuple(canon(x, cap) if isinstance(x, T) else x for x in t.a)
    p = nf(t, cap)
    if p is None:
        return ("id", t.id)
    return ("nf", poly_key(p))


def _sqfree_content(p):
    """p = s^2 * q for rational s (integers' square content)"""
    from math import gcd
    dens = 1
    for c in p.values():
        dens = dens * c.denominator // gcd(dens, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, int(c * dens))
    # content g/dens
    cont = Fraction(g, dens)
    n, d = cont.numerator, cont.denominator

    def sq(n):
        s = 1
        f = 2
        while f * f <= n and f < 2000:
            while n % (f * f) == 0:
                n //= f * f
                s *= f
            f += 1
        return s
    # make denominator a square:  n/d = n*d/d^2
    s = Fraction(sq(n * d), d)
    return s


def _nf_fn(name, p, cap):
    if name == "sqrt":
        if not p:
            return {}
        s = _sqfree_content(p)
        q = {m: c / (s * s) for m, c in p.items()}
        if len(q) == 1:
            (m, c), = q.items()
            if c == 1 and all(e % 2 == 0 for _, e in m):
                r = {(): s}
                for a, e in m:
                    for _ in range(abs(e) // 2):
                        ab = _nf_fn("abs", {((a, 1 if e > 0 else -1),): Fraction(1)}, cap)
                        r = _pmul(r, ab, cap)
                return r
        key = ("sqrt", poly_key(q))
        at = _poly_atoms.get(key)
        if at is None:
            at = _mk("nfsqrt", key)
            _poly_atoms[key] = at
            _rad[at.id] = q
        _atoms[at.id] = at
        return {((at.id, 1),): s}
    if name == "abs":
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): abs(c)}
            for a, e in m:
                at = _atoms.get(a)
                if e % 2 == 0 or (at is not None and (at.k in ("nfsqrt", "nfabs") or _known_pos(at))):
                    r = _pmul(r, {((a, e),): Fraction(1)}, cap)
                else:
                    key = ("abs", a)
                    ab = _poly_atoms.get(key)
                    if ab is None:
                        ab = _mk("nfabs", a)
                        _poly_atoms[key] = ab
                        _rad[ab.id] = {((a, 2),): Fraction(1)}
                        _atoms[ab.id] = ab
                    r = _pmul(r, {((ab.id, 1 if e > 0 else -1),): Fraction(1)}, cap)
                    if abs(e) > 1:
                        r = _pmul(r, {((a, e - (1 if e > 0 else -1)),): Fraction(1)}, cap)
            return r
        lc = p[_lead(p)]
        q = p if lc > 0 else {m: -c for m, c in p.items()}
        key = ("absp", poly_key(q))
        ab = _poly_atoms.get(key)
        if ab is None:
            ab = _mk("nfabsp", key)
            _poly_atoms[key] = ab
            _rad[ab.id] = _pmul(q, q, cap)
            _atoms[ab.id] = ab
        return {((ab.id, 1),): Fraction(1)}
    if name in ("sin", "cos"):
        if not p:
            return {} if name == "sin" else {(): Fraction(1)}
        lc = p[_lead(p)]
        s = 1
        if lc < 0:
            p = {m: -c for m, c in p.items()}
            s = -1 if name == "sin" else 1
        sk, ck = ("sin", poly_key(p)), ("cos", poly_key(p))
        sa = _poly_atoms.get(sk)
        if sa is None:
            sa = _poly_atoms[sk] = _mk("nfsin", sk)
            ca = _poly_atoms[ck] = _mk("nfcos", ck)
            _atoms[sa.id] = sa
            _atoms[ca.id] = ca
            _rad[ca.id] = {(): Fraction(1), ((sa.id, 2),): Fraction(-1)}
        a = _poly_atoms[sk if name == "sin" else ck]
        return {((a.id, 1),): Fraction(s)}
    raise TooBig()


def _known_pos(at):
    if at.k == "s":
        s = _samplers.get(at.a[0])
        return bool(getattr(s, "pos", False))
    return at.k == "f" and at.a[0] in ("sqrt", "abs")


def nf_equal(a, b, cap=800):
    if a is b:
        return True
    if a.bool != b.bool:
        return False
    if a.bool:
        return canon(a, cap) == canon(b, cap)
    p, q = nf(a, cap), nf(b, cap)
    if p is None or q is None:
        return False
    return p == q


# ---------------------------------------------------------------- random interpretation
class Sampler(object):
    finite = True
    pos = False
    lane = False        # does the symbol vary from ray to ray

    def __init__(self, f, finite=True, pos=False):
        self.f = f
        self.finite = finite
        self.pos = pos

    def __call__(self, rng, n):
        return self.f(rng, n)


def uniform(lo, hi, extra=(), p=0.25):
    def f(rng, n):
        v = rng.uniform(lo, hi, size=n)
        if extra:
            m = rng.random(n) < p
            v = np.where(m, rng.choice(np.asarray(extra, dtype=float), size=n), v)
        return v
    r = Sampler(f, pos=lo >= 0 and all(e > 0 for e in extra))
    r.lo, r.hi, r.extra = lo, hi, extra
    return r


def choice(vals, finite=True):
    vals = np.asarray(vals, dtype=float)
    return Sampler(lambda rng, n: rng.choice(vals, size=n), finite=finite, pos=bool((vals > 0).all()))


REAL = uniform(-2.0, 2.0)
GROUPSIZE = Sampler(lambda rng, n: np.ones(n), pos=True)      # number of rays in the run


class Pool(object):
    """K interpretations of all symbols, in groups.  The members of one group agree on every symbol that is not
    per-ray; aggregates over all rays are the aggregates over the group.  (Each group is one run of the analysed
    code, each member one of its rays.)"""

    def __init__(self, G=400, seed=1, sizes=(1, 2, 3, 5)):
        self.seed = seed
        sz = [sizes[i % len(sizes)] for i in range(G)]
        self.gid = np.repeat(np.arange(G), sz)
        self.starts = np.concatenate([[0], np.cumsum(sz)[:-1]]).astype(int)
        self.size = np.repeat(np.asarray(sz, dtype=float), sz)
        self.K = len(self.gid)
        self.pos = np.arange(self.K) - self.starts[self.gid]
        self.G = G
        self.mask = np.ones(self.K, dtype=bool)
        self.memo = {}
        self.forced = {}

    def solo(self):
        """the same interpretations, each member in a run of its own"""
        p = Pool.__new__(Pool)
        p.seed, p.K, p.G = self.seed, self.K, self.K
        p.gid = np.arange(self.K)
        p.starts = np.arange(self.K)
        p.size = np.ones(self.K)
        p.pos = np.zeros(self.K, dtype=int)
        p.mask = np.ones(self.K, dtype=bool)
        p.memo = {}
        p.forced = {}
        p.parent = self
        return p

    parent = None

    def rng(self, name):
        return np.random.default_rng([self.seed, zlib.crc32(name.encode())])

    def group(self, f, v):
        return f.reduceat(v, self.starts)[self.gid]

    dtype = float

    def hi(self):
        """the same interpretations in extended precision"""
        p = Pool.__new__(Pool)
        p.__dict__.update(self.__dict__)
        p.memo = {}
        p.dtype = np.longdouble
        return p

    def leaf(self, t):
        v = self.leaf_(t)
        if self.dtype is not float and v.dtype == float:
            v = np.longdouble(np.pi) * 0 + np.arctan2(np.longdouble(0), np.longdouble(-1)) + np.zeros(self.K, np.longdouble) if t.a[0] == "pi" else v.astype(self.dtype)
        return v

    def leaf_(self, t):
        name = t.a[0]
        if name in self.forced:
            return self.forced[name]
        s = _samplers.get(name)
        if name.startswith("lidx:"):
            return self.pos.astype(float)
        if s is GROUPSIZE:
            return self.size
        if self.parent is not None:
            return self.parent.leaf_(t)
        rng = self.rng(name)
        lane = getattr(s, "lane", False)
        n = self.K if lane else self.G
        if t.k == "bs":
            v = rng.random(n) < 0.5 if s is None else np.asarray(s(rng, n), dtype=bool)
        else:
            v = np.asarray((REAL if s is None else s)(rng, n), dtype=float)
        return v if lane else v[self.gid]

    def eval(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        st = [t]
        with np.errstate(all="ignore"):
            while st:
                x = st[-1]
                if x.id in memo:
                    st.pop()
                    continue
                pend = [y for y in x.a if isinstance(y, T) and y.id not in memo]
                if pend:
                    st.extend(pend)
                    continue
                memo[x.id] = self._ev(x)
                st.pop()
        return memo[t.id]

    def _n(self, x):
        v = self.memo[x.id]
        return v.astype(self.dtype) if v.dtype == bool else v

    def _ev(self, x):
        k = x.k
        K = self.K
        if k == "c":
            v = x.a[0]
            if self.dtype is not float and isinstance(v, Fraction):
                return np.full(K, self.dtype(v.numerator) / self.dtype(v.denominator))
            return np.full(K, float(v))
        if k == "b":
            return np.full(K, x.a[0], dtype=bool)
        if k in ("s", "bs"):
            return self.leaf(x)
        if k == "add":
            return self._n(x.a[0]) + self._n(x.a[1])
        if k == "mul":
            return self._n(x.a[0]) * self._n(x.a[1])
        if k == "div":
            return self._n(x.a[0]) / self._n(x.a[1])
        if k == "ite":
            return np.where(self.memo[x.a[0].id], self._n(x.a[1]), self._n(x.a[2]))
        if k == "lt":
            return self._n(x.a[0]) < self._n(x.a[1])
        if k == "le":
            return self._n(x.a[0]) <= self._n(x.a[1])
        if k == "eq":
            return self._n(x.a[0]) == self._n(x.a[1])
        if k == "close":
            a, b, r, at = [self._n(y) for y in x.a]
            return np.where(np.isfinite(a) & np.isfinite(b), np.abs(a - b) <= at + r * np.abs(b), a == b)
        if k == "not":
            return ~self.memo[x.a[0].id]
        if k == "and":
            r = self.memo[x.a[0].id]
            for y in x.a[1:]:
                r = r & self.memo[y.id]
            return r
        if k == "xor":
            return self.memo[x.a[0].id] ^ self.memo[x.a[1].id]
        if k == "isfinite":
            return np.isfinite(self._n(x.a[0]))
        if k == "isinf":
            return np.isinf(self._n(x.a[0]))
        if k == "isnan":
            return np.isnan(self._n(x.a[0]))
        if k in ("min", "max"):
            r = self._n(x.a[0])
            f = np.minimum if k == "min" else np.maximum
            for y in x.a[1:]:
                r = f(r, self._n(y))
            return r
        if k == "sort":
            key = ("sort",) + tuple(y.id for y in x.a[1:])
            v = self.memo.get(key)
            if v is None:
                v = np.sort(np.stack([self._n(y) for y in x.a[1:]]), axis=0)
                self.memo[key] = v
            return v[x.a[0]]
        if k == "f":
            name = x.a[0]
            if name == "inv4":
                i, j = int(fv(x.a[1])), int(fv(x.a[2]))
                key = ("inv4",) + tuple(y.id for y in x.a[3:])
                v = self.memo.get(key)
                if v is None:
                    n = int(round(math.sqrt(len(x.a) - 3)))
                    m = np.stack([np.asarray(self._n(y), dtype=float) for y in x.a[3:]]).T.reshape(K, n, n)
                    v = np.full((K, n, n), np.nan)
                    ok = np.isfinite(m).all(axis=(1, 2))
                    mm = m[ok]
                    det = np.linalg.det(mm)
                    good = np.abs(det) > 1e-12
                    idx = np.flatnonzero(ok)[good]
                    v[idx] = np.linalg.inv(m[idx])
                    self.memo[key] = v
                return v[:, i, j]
            f = NPF.get(name)
            if f is not None:
                return f(*[self._n(y) for y in x.a[1:]])
            return self._hash(name, [self._n(y) for y in x.a[1:]], "real")
        if k == "uf":
            return self._hash(x.a[0], [self._n(y) for y in x.a[2:]], x.a[1])
        if k == "bagg":
            return self.group(np.logical_or, self.memo[x.a[1].id])
        if k == "agg":
            name = x.a[0]
            v = self._n(x.a[1])
            if name in ("count", "sum"):
                return self.group(np.add, v)
            if name == "prod":
                return self.group(np.multiply, v)
            if name == "max":
                return self.group(np.maximum, v)
            if name == "min":
                return self.group(np.minimum, v)
            if name == "rank":
                c = np.cumsum(v) - v
                return c - c[self.starts][self.gid]
            if name == "align":
                gs, gd = self.memo[x.a[3].id].astype(bool), self.memo[x.a[4].id].astype(bool)
                out = np.full(self.K, np.nan)
                ends = np.append(self.starts[1:], self.K)
                for a, b in zip(self.starts, ends):
                    w = v[a:b][gs[a:b]]
                    i = np.flatnonzero(gd[a:b])[:len(w)]
                    out[a + i] = w[:len(i)]
                return out
            if name == "seq":
                return self._seq(x)
            if name == "pick":
                g = self.memo[x.a[2].id].astype(bool)
                i = x.a[3]
                out = np.full(self.K, np.nan)
                ends = np.append(self.starts[1:], self.K)
                for a, b in zip(self.starts, ends):
                    w = v[a:b][g[a:b]]
                    if -len(w) <= i < len(w):
                        out[a:b] = w[i]
                return out
            return self._hash("agg:" + name, [v], "real")
        if k == "unk":
            return np.full(K, np.nan)
        return self._hash(k, [self._n(y) for y in x.a if isinstance(y, T)], "real")

    def _seq(self, x):
        """a sequence over all rays of a run: blocks of selected rays (L) or single elements (E), one after the other.
        x.a: "seq", first value, lane, operation, kinds, position, second kinds, guards/values..., [ray-wise operand]"""
        op, kinds, j, kinds2 = x.a[3:7]
        rest = list(x.a[7:])
        key = ("seq", op, kinds, kinds2, x.a[1].id) + tuple(y.id for y in rest)
        hit = self.memo.get(key)
        if hit is None:
            terms = [x.a[1]] + rest[:2 * len(kinds) - 1]
            rest = rest[2 * len(kinds) - 1:]
            first = [(self._n(terms[2 * i]), np.asarray(self.memo[terms[2 * i + 1].id], dtype=bool)) for i in range(len(kinds))]
            second = [(self._n(rest[2 * i]), np.asarray(self.memo[rest[2 * i + 1].id], dtype=bool)) for i in range(len(kinds2))]
            rest = rest[2 * len(kinds2):]
            extra = [self._n(y) for y in rest]
            res = [np.full(self.K, np.nan, dtype=self.dtype) for _ in kinds]
            ends = np.append(self.starts[1:], self.K)

            def members(bl, kd, a, b):
                out = []
                for (v, g), c in zip(bl, kd):
                    out.append(a + (np.flatnonzero(g[a:b]) if c == "L" else np.flatnonzero(g[a:a + 1])))
                return out
            for a, b in zip(self.starts, ends):
                m = members(first, kinds, a, b)
                s = np.concatenate([v[i] for (v, g), i in zip(first, m)])
                if op == "take":
                    i = extra[0][a:b]
                    ok = np.isfinite(i) & (i >= -len(s)) & (i < len(s))
                    res[0][a:b][ok] = s[i[ok].astype(int)]
                    continue
                if op == "put":
                    m2 = members(second[:len(second) // 2], kinds2[:len(second) // 2], a, b)
                    h = len(second) // 2
                    at = np.concatenate([v[i] for (v, g), i in zip(second[:h], m2)])
                    val = np.concatenate([v[i] for (v, g), i in zip(second[h:], m2)])
                    ok = np.isfinite(at) & (at >= -len(s)) & (at < len(s))
                    s = s.copy()
                    for p, q in zip(at[ok].astype(int), val[ok]):
                        s[p] = q
                    r = s
                elif op == "sort":
                    r = np.sort(s)
                elif op == "argsort":
                    r = np.argsort(s, kind="stable")
                elif op == "flip":
                    r = s[::-1]
                elif op.startswith("roll:"):
                    r = np.roll(s, int(op[5:]))
                elif op == "cumsum":
                    r = np.cumsum(s)
                elif op == "cumprod":
                    r = np.cumprod(s)
                elif op in ("argmin", "argmax", "pick"):
                    if op == "pick":
                        i = extra[0][a]
                        v = s[int(i)] if np.isfinite(i) and -len(s) <= i < len(s) else np.nan
                    else:
                        v = getattr(np, op)(s) if len(s) else np.nan
                    res[0][a:b] = v
                    continue
                else:
                    raise AssertionError(op)
                off = 0
                for o, i, c in zip(res, m, kinds):
                    w = r[off:off + len(i)]
                    off += len(i)
                    if c == "L":
                        o[i] = w
                    elif len(w):
                        o[a:b] = w[0]
            hit = self.memo[key] = res
        return hit[0 if op in ("take", "argmin", "argmax", "pick") else j]

    def _hash(self, name, args, kind):
        rng = np.random.default_rng([self.seed + 17, zlib.crc32(name.encode())])
        h = np.zeros(self.K) + rng.uniform(0, 6)
        for v in args:
            v = np.round(np.asarray(v, dtype=float), 9)
            w = np.where(np.isnan(v), 7.7, np.arctan(np.nan_to_num(v, posinf=1e9, neginf=-1e9)))
            h = h + rng.uniform(1.5, 4.5) * w
        u = np.sin(h) * 0.5 + np.sin(2.3 * h + 1.0) * 0.5
        if not args:
            u = np.full(self.K, u[0])
        v = u * 7919.137
        frac = v - np.floor(v)  # pseudo-random in [0,1)
        if kind == "real":
            return 2 * u + 0.3 * np.sin(5 * h)
        if kind == "pos":
            return 0.6 + 0.5 * u + 0.05 * np.sin(5 * h)
        if kind == "unitint":
            return np.sin(3 * h)
        if kind.startswith("choice:"):
            vals = np.array([float(s) for s in kind[7:].split(",")])
            return vals[np.minimum((frac * len(vals)).astype(int), len(vals) - 1)]
        return 2 * u


def pool_num(x):
    return x.astype(float) if x.dtype == bool else x


def eval_equal(pool, a, b, mask=None, rtol=1e-6, atol=1e-7):
    """-> (ok, index of a distinguishing interpretation or None, number compared)"""
    x, y = pool.eval(a), pool.eval(b)
    m = pool.mask if mask is None else (pool.mask & mask)
    if x.dtype == bool and y.dtype == bool:
        bad = (x != y) & m
    else:
        x, y = pool_num(x), pool_num(y)
        with np.errstate(all="ignore"):
            scale = 1 + np.maximum(np.abs(x), np.abs(y))
            okv = np.abs(x - y) <= atol + rtol * np.where(np.isfinite(scale), scale, 1)
        okv = okv | (np.isnan(x) & np.isnan(y)) | (x == y)
        bad = ~okv & m
    i = np.flatnonzero(bad)
    return (len(i) == 0), (int(i[0]) if len(i) else None), int(m.sum())
