"""Abstract n-d arrays: concrete axes are cell-exact, ray axes ("lanes") are summarised by one generic element.

An array is a view (index grid) on a buffer of value terms, so aliasing and in-place writes through views behave as
in numpy.  A lane axis has one slot per block; a block is (lane, guard): the generic element of that lane restricted
to the elements for which guard holds (boolean-mask selection).  Two arrays may only be combined when their blocks
agree - a mismatch is a broadcast error of the analysed program."""
import itertools
from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import T


class PyRaise(Exception):
    """an exception raised by the analysed program"""

    def __init__(self, cls, msg="", obj=None):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg
        self.obj = obj
        self.site = tuple(tm.CUR)


class Unsupported(Exception):
    def __init__(self, msg):
        super().__init__("%s (at %s:%s:%s)" % ((msg,) + tuple(tm.CUR)))
        self.site = tuple(tm.CUR)


class LDim(object):
    __slots__ = ("blocks",)

    def __init__(self, blocks):
        self.blocks = tuple(blocks)

    def __len__(self):
        return len(self.blocks)

    def __eq__(self, o):
        return isinstance(o, LDim) and same_ldim(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(b[0] for b in self.blocks))

    def __repr__(self):
        return "L[%s]" % ", ".join("%s%s" % (l, "" if g is tm.TRUE else "|%s" % tm.show(g, 3)) for l, g in self.blocks)


POOL = [None]
LANES = {}      # lane name -> size term
SIZES = {}      # canonical size key -> LDim


def new_lane(name, size):
    LANES[name] = size
    ld = LDim([(name, tm.TRUE)])
    SIZES[tm.canon(size)] = ld
    return ld


def same_guard(a, b):
    if a is b:
        return True
    if tm.canon(a) == tm.canon(b):
        return True
    if POOL[0] is not None:
        ok, _, n = tm.eval_equal(POOL[0], a, b)
        return ok and n > 0
    return False


def same_ldim(a, b):
    if a is b:
        return True
    if len(a.blocks) != len(b.blocks):
        return False
    return all(x[0] == y[0] and same_guard(x[1], y[1]) for x, y in zip(a.blocks, b.blocks))


def block_size(b):
    lane, g = b
    if isinstance(lane, tuple) and lane[0] == "e":
        base = tm.ONE
        if g is tm.TRUE:
            return base
        return tm.num(g)
    base = LANES[lane]
    if g is tm.TRUE:
        return base
    if g is tm.FALSE:
        return tm.ZERO
    return tm._mk("agg", "count", tm.num(g), lane)


def dim_size(d):
    """int, or a size term"""
    if isinstance(d, LDim):
        s = tm.ZERO
        for b in d.blocks:
            s = tm.add(s, block_size(b))
        SIZES.setdefault(tm.canon(s), d)
        f = tm.fv(s)
        if f is not None and all(isinstance(b[0], tuple) for b in d.blocks):
            return int(f)
        return s
    return d


def _counted(t):
    """an axis as long as the number of rays a mask selects is the axis of those rays"""
    if t.k == "agg" and t.a[0] == "count" and isinstance(t.a[2], str) and t.a[2] in LANES:
        g = t.a[1]
        if g.k == "ite" and tm.fv(g.a[1]) == 1 and tm.fv(g.a[2]) == 0:
            return LDim([(t.a[2], g.a[0])])
    return None


def ldim_for_size(t):
    k = tm.canon(t)
    d = SIZES.get(k)
    if d is None:
        d = _counted(t)
        if d is not None:
            SIZES[k] = d
    if d is not None:
        return d
    # integer combination of known sizes
    p = tm.nf(t)
    if p:
        for f in (2, 3, 4):
            if all(c.denominator == 1 and c % f == 0 for c in p.values()):
                d = SIZES.get(tm.canon(tm.mul(tm.const(Fraction(1, f)), t)))
                if d is not None:
                    return LDim(list(d.blocks) * f)
        blocks = []
        ok = True
        extra = int(p.get((), 0)) if getattr(p.get((), 0), "denominator", 1) == 1 else None
        for m, c in sorted(p.items()):
            d = None
            if m == () and extra is not None and len(p) > 1:
                continue
            if len(m) == 1 and m[0][1] == 1:
                at = tm._atoms[m[0][0]]
                d = SIZES.get(tm.canon(at)) or _counted(at)
                if d is None and at.k == "s":
                    d = new_lane("n:" + at.a[0], at)
            if d is None or c.denominator != 1 or c <= 0:
                ok = False
                break
            blocks.extend(d.blocks * int(c))
        if ok and extra and extra < 0:
            # a few less than the rays: the first ones
            if len(blocks) == 1 and blocks[0][1] is tm.TRUE and not isinstance(blocks[0][0], tuple):
                ld = LDim([(blocks[0][0], tm.lt(lidx(blocks[0][0]), t))])
                SIZES[k] = ld
                return ld
            ok = False
        if ok:
            for i in range(extra or 0):
                blocks.append((("e", extra, i), tm.TRUE))
            return LDim(blocks)
        if len(p) == 1:
            # product of sizes: an own lane
            return new_lane("n:" + tm.show(t), t)
    if t.k in ("f", "agg", "s", "ite", "uf"):
        return new_lane("n:%d" % t.id, t)
    raise Unsupported("array size %s" % tm.show(t))


class Buf(object):
    __slots__ = ("cells", "dtype", "last_write", "tag", "nwrites")

    def __init__(self, cells, dtype="f", tag=None):
        self.cells = cells
        self.dtype = dtype
        self.last_write = None
        self.nwrites = 0
        self.tag = tag


class AArray(object):
    __slots__ = ("buf", "idx", "dims", "cls", "attrs")

    def __init__(self, buf, idx, dims, cls=None):
        self.buf = buf
        self.idx = idx
        self.dims = tuple(dims)
        self.cls = cls
        self.attrs = None

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def dtype(self):
        return self.buf.dtype

    def cells(self):
        c = self.buf.cells
        return [c[i] for i in self.idx.ravel()]

    def grid(self):
        """numpy object array of terms with the index-grid shape"""
        out = np.empty(self.idx.shape, dtype=object)
        c = self.buf.cells
        flat = out.reshape(-1) if out.ndim else None
        if out.ndim == 0:
            out[()] = c[int(self.idx)]
            return out
        for j, i in enumerate(self.idx.ravel()):
            flat[j] = c[i]
        return out

    def item(self, *ix):
        return self.buf.cells[int(self.idx[ix])]

    def has_lane(self):
        return any(isinstance(d, LDim) for d in self.dims)

    def view(self, idx, dims, cls="same"):
        a = AArray(self.buf, idx, dims, self.cls if cls == "same" else cls)
        return a

    def __repr__(self):
        return "AArray%s%s" % (self.dims, "" if self.cls is None else ":" + getattr(self.cls, "name", "?"))


def make(grid, dims, dtype="f", cls=None):
    """array from numpy object grid of terms"""
    grid = np.asarray(grid, dtype=object)
    cells = list(grid.ravel())
    idx = np.arange(len(cells), dtype=np.int64).reshape(grid.shape)
    return AArray(Buf(cells, dtype), idx, dims, cls)


def from_cells(cells, idxshape, dims, dtype="f", cls=None):
    idx = np.arange(len(cells), dtype=np.int64).reshape(idxshape)
    return AArray(Buf(list(cells), dtype), idx, dims, cls)


def full(dims, val, dtype="f", cls=None):
    shp = tuple(len(d) if isinstance(d, LDim) else d for d in dims)
    n = int(np.prod(shp)) if shp else 1
    return from_cells([val] * n, shp, dims, dtype, cls)


class Narrow(str):
    """a dtype code ("i" or "f") of less than full width"""
    def __new__(cls, code, narrow):
        o = str.__new__(cls, code)
        o.narrow = narrow
        return o


_WRAP = {"int8": (-128, 256), "uint8": (0, 256), "int16": (-32768, 65536), "uint16": (0, 65536), "int32": (-2 ** 31, 2 ** 32), "uint32": (0, 2 ** 32)}


def store_conv(t, dtype):
    if dtype == "b":
        return tm.truth(t)
    t = tm.num(t) if dtype in ("f", "i") else t
    if dtype == "i" and not isint(t):
        t = tm.fn("trunc", t)
    if isinstance(dtype, Narrow):
        if dtype == "f":
            f = tm.fv(t)
            return t if f is not None and f.denominator == 1 and abs(f) <= 2 ** 11 else tm.fn(dtype.narrow, t)
        lo, m = _WRAP[dtype.narrow]
        f = tm.fv(t)
        if f is not None:
            return tm.const((f - lo) % m + lo)
        if t.bool:
            return t
        if t.k == "ite" and all(x.k == "c" or x.k == "ite" for x in t.a[1:]):
            return tm.ite(t.a[0], store_conv(t.a[1], dtype), store_conv(t.a[2], dtype))
        return tm.fn(dtype.narrow, t)
    return t


_int_memo = {}


def isint(t):
    """is the term certainly integer-valued"""
    r = _int_memo.get(t.id)
    if r is None:
        k = t.k
        if t.bool:
            r = True
        elif k == "c":
            f = tm.fv(t)
            r = f is not None and f.denominator == 1
        elif k in ("add", "mul"):
            r = isint(t.a[0]) and isint(t.a[1])
        elif k == "ite":
            r = isint(t.a[1]) and isint(t.a[2])
        elif k in ("min", "max"):
            r = all(isint(x) for x in t.a)
        elif k == "sort":
            r = all(isint(x) for x in t.a[1:])
        elif k == "f":
            r = t.a[0] in ("floor", "ceil", "trunc", "rint") or t.a[0] in _WRAP or (t.a[0] in ("abs", "mod", "floordiv", "sign", "bitand", "bitor", "bitxor") and all(isint(x) for x in t.a[1:]))
        elif k == "s":
            r = t.a[0].startswith(("int:", "lidx:", "n:", "N:"))
        elif k == "uf":
            r = t.a[0].startswith("int:")
        elif k == "agg":
            r = t.a[0] in ("count", "rank") or (t.a[0] == "seq" and (t.a[3] in ("argsort", "argmin", "argmax") or all(isint(x) for x in _seq_values(t))))
            if t.a[0] in ("sum", "min", "max", "pick", "align"):
                r = isint(t.a[1])
        else:
            r = False
        _int_memo[t.id] = r
    return r


def _seq_values(t):
    n = len(t.a[4])
    v = [t.a[1]] + list(t.a[8:7 + 2 * n - 1:2])
    if t.a[3] == "put":
        h = len(t.a[6]) // 2
        v += list(t.a[7 + 2 * n - 1 + 2 * h:7 + 2 * n - 1 + 4 * h:2])
    return v


def _seq_parts(d, cells):
    """the elements along a ray axis in their order: kinds and [value, guard, ...]"""
    kinds, terms = "", []
    for b, c in zip(d.blocks, cells):
        if isinstance(b[0], tuple) and b[0][0] != "e":
            raise CrossLane("rays of several rows are put into an order")
        if not isinstance(b[0], tuple):
            z = LANES.get(b[0])
            if not isinstance(z, T) or z.k != "s" or tm._samplers.get(z.a[0]) is not tm.GROUPSIZE:
                raise CrossLane("elements of a derived axis are put into an order")
        kinds += "E" if isinstance(b[0], tuple) else "L"
        terms += [tm.num(c), tm.num(b[1])]
    return kinds, terms


def seq_node(op, d, cells, j=0, second=None, extra=()):
    if not len(d.blocks):
        raise PyRaise("IndexError", "no elements")
    kinds, terms = _seq_parts(d, cells)
    kinds2, more = second or ("", [])
    return tm._mk("agg", "seq", terms[0], "", op, kinds, j, kinds2, *(terms[1:] + more + [tm.num(tm.const(e)) for e in extra]))


def seq_map(op, d, cells, second=None):
    """an operation on all rays in their order that gives as many elements again"""
    return [seq_node(op, d, cells, j, second) for j in range(len(d.blocks))]


def seq_take(d, cells, index):
    """element number `index` (a value of its own for every ray)"""
    return seq_node("take", d, cells, 0, None, (index,))


def seq_at(d, cells, index):
    """element number `index` (the same for all rays)"""
    return seq_node("pick", d, cells, 0, None, (index,))


def lidx(lane):
    if isinstance(lane, tuple):
        return tm.ZERO
    return tm.sym("lidx:" + lane)


def arange_ldim(ld, start=0, step=1):
    cells = []
    off = tm.ZERO
    for b in ld.blocks:
        if b[1] is not tm.TRUE:
            v = tm._mk("agg", "rank", tm.num(b[1]), str(b[0]))
        else:
            v = lidx(b[0])
        cells.append(tm.add(tm.const(start), tm.mul(tm.const(step), tm.add(off, v))))
        off = tm.add(off, block_size(b))
    return from_cells(cells, (len(cells),), (ld,), "i")


# ------------------------------------------------------------------ broadcasting
def bdims(*dimss):
    n = max(len(d) for d in dimss)
    out = []
    for ax in range(n):
        cur = 1
        for d in dimss:
            j = ax - (n - len(d))
            if j < 0:
                continue
            x = d[j]
            if isinstance(x, LDim):
                if isinstance(cur, LDim):
                    if cur is not x and not same_ldim(cur, x):
                        raise mismatch(cur, x, "operands could not be broadcast together: ray axes %r and %r do not correspond" % (cur, x))
                elif cur == 1:
                    cur = x
                else:
                    raise PyRaise("ValueError", "operands could not be broadcast together: axis of length %s against a ray axis" % cur)
            else:
                if isinstance(cur, LDim):
                    if x != 1:
                        raise PyRaise("ValueError", "operands could not be broadcast together: axis of length %s against a ray axis" % x)
                elif cur == 1:
                    cur = x
                elif x != 1 and x != cur:
                    raise PyRaise("ValueError", "operands could not be broadcast together with shapes %s" % (tuple(dimss),))
        out.append(cur)
    return tuple(out)


def never(g):
    """the guard holds for no ray in any sampled world"""
    if g is tm.FALSE or g is tm.TRUE:
        return g is tm.FALSE
    if POOL[0] is None:
        return False
    ok, _, n = tm.eval_equal(POOL[0], g, tm.FALSE)
    return bool(ok and n)


def mismatch(x, y, msg, exc="ValueError"):
    """the error numpy raises for two axes whose lengths differ; if they may well be equally long, the pairing is not modelled"""
    a, b = tm.num(tm.const(dim_size(x))), tm.num(tm.const(dim_size(y)))
    same = tm.nf_equal(a, b)
    if not same and POOL[0] is not None:
        ok, _, n = tm.eval_equal(POOL[0], a, b)
        same = bool(ok and n)
    if same:
        return CrossLane("equally many, but differently selected rays are paired (%s)" % msg)
    return PyRaise(exc, msg)


def _gather(src, dst):
    """both axes select from the same rays, different ones but always equally many: numpy pairs them by rank -> pairing function on
    the cells along the axis"""
    ks, kd = ([i for i, b in enumerate(d.blocks) if not never(b[1])] for d in (src, dst))
    if (len(ks) < len(src.blocks) or len(kd) < len(dst.blocks)) and ks and len(ks) == len(kd) \
            and same_ldim(LDim([src.blocks[i] for i in ks]), LDim([dst.blocks[i] for i in kd])):
        pos = {j: i for i, j in zip(ks, kd)}
        return lambda cells: [cells[pos.get(j, ks[0])] for j in range(len(dst.blocks))]
    single = len(src.blocks) == 1 and len(dst.blocks) == 1 and src.blocks[0][0] == dst.blocks[0][0] and not isinstance(src.blocks[0][0], tuple)
    fixed = all(isinstance(b[0], tuple) and b[0][0] == "e" for b in src.blocks + dst.blocks)
    if not single and not fixed:
        return None
    x, y = tm.num(tm.const(dim_size(src))), tm.num(tm.const(dim_size(dst)))
    if not tm.nf_equal(x, y):
        if POOL[0] is None:
            return None
        ok, _, n = tm.eval_equal(POOL[0], x, y)
        if not ok or not n:
            return None
    if single:
        gs, gd, lane = tm.num(src.blocks[0][1]), tm.num(dst.blocks[0][1]), src.blocks[0][0]
        return lambda cells: [tm._mk("agg", "align", tm.num(cells[0]), lane, gs, gd)]

    def ranks(d):
        r, out = tm.ZERO, []
        for b in d.blocks:
            out.append(r)
            r = tm.add(r, tm.num(b[1]))
        return out
    rs, rd = ranks(src), ranks(dst)
    sel = [[tm.and_(b[1], tm.eq(r, q)) for b, r in zip(src.blocks, rs)] for q in rd]

    def pair(cells):
        out = []
        for row in sel:
            v = cells[-1]
            for c, g in zip(cells[-2::-1], row[-2::-1]):
                v = tm.ite(g, c, v)
            out.append(v)
        return out
    return pair


def realign(arrs):
    """arrays selected from the same rays by different criteria are paired by rank, as numpy does"""
    nd = max(a.ndim for a in arrs)
    for ax in range(1, nd + 1):
        first = None
        for i, a in enumerate(arrs):
            if a.ndim < ax or not isinstance(a.dims[-ax], LDim):
                continue
            d = a.dims[-ax]
            if first is None:
                first = d
            elif d is not first and not same_ldim(d, first):
                arrs = list(arrs)
                arrs[i] = regather(a, a.ndim - ax, first) or a
    return arrs


def regather(a, axis, dst):
    f = _gather(a.dims[axis], dst)
    if f is None:
        return None
    g = np.moveaxis(a.grid(), axis, -1)
    out = np.empty(g.shape[:-1] + (len(dst),), dtype=object)
    for ix in np.ndindex(*g.shape[:-1]):
        row = f([tm.truth(c) if a.dtype == "b" else tm.num(c) for c in g[ix]])
        for j, c in enumerate(row):
            out[ix + (j,)] = tm.truth(c) if a.dtype == "b" else c
    out = np.moveaxis(out, -1, axis)
    return from_cells(list(out.ravel()), out.shape, a.dims[:axis] + (dst,) + a.dims[axis + 1:], a.dtype, a.cls)


def gshape(dims):
    return tuple(len(d) if isinstance(d, LDim) else d for d in dims)


def broadcast_idx(a, dims):
    return np.broadcast_to(a.idx, gshape(dims))


def elementwise(f, arrs, dtype="f", cls=None):
    arrs = realign(arrs)
    dims = bdims(*[a.dims for a in arrs])
    shp = gshape(dims)
    cols = []
    for a in arrs:
        c = a.buf.cells
        cols.append([c[i] for i in np.broadcast_to(a.idx, shp).ravel()])
    cells = [f(*xs) for xs in zip(*cols)]
    return from_cells(cells, shp, dims, dtype, cls)


# ------------------------------------------------------------------ shapes
def reshape(a, shape):
    """shape: list of int / size terms / -1"""
    new = []
    unknown = None
    for i, s in enumerate(shape):
        if isinstance(s, T):
            f = tm.fv(s)
            if f is not None:
                s = int(f)
            else:
                s = ldim_for_size(s)
        if isinstance(s, int) and s == -1:
            if unknown is not None:
                raise PyRaise("ValueError", "can only specify one unknown dimension")
            unknown = i
        new.append(s)
    ldims = [d for d in a.dims if isinstance(d, LDim)]
    if not ldims:
        ints = [d for d in new if d != -1]
        if any(isinstance(d, LDim) for d in ints):
            raise PyRaise("ValueError", "cannot reshape array of fixed size into a ray-axis shape")
        total = int(np.prod(a.idx.shape)) if a.idx.shape else 1
        if unknown is not None:
            p = int(np.prod(ints)) if ints else 1
            if p == 0 or total % p:
                raise PyRaise("ValueError", "cannot reshape array of size %d into shape %s" % (total, new))
            new[unknown] = total // p
        if int(np.prod(new) if new else 1) != total:
            raise PyRaise("ValueError", "cannot reshape array of size %d into shape %s" % (total, new))
        return _rs(a, tuple(new), tuple(new))
    nl = [i for i, d in enumerate(new) if isinstance(d, LDim)]
    if len(ldims) > 1:
        if len(new) == 1 and all(isinstance(d, LDim) for d in a.dims):
            raise Unsupported("flatten of several ray axes")
        if tuple(new) == a.dims:
            return a
        raise Unsupported("reshape with several ray axes")
    ld = ldims[0]
    lax = [i for i, d in enumerate(a.dims) if isinstance(d, LDim)][0]
    pre = int(np.prod([d for d in a.dims[:lax]])) if lax else 1
    post = int(np.prod([d for d in a.dims[lax + 1:]])) if lax + 1 < len(a.dims) else 1
    ints = [d for d in new if not isinstance(d, LDim) and d != -1]
    p = int(np.prod(ints)) if ints else 1
    if len(nl) == 1 and unknown is not None:
        k = nl[0]
        rest = pre * post
        if rest % p:
            raise PyRaise("ValueError", "cannot reshape array")
        new[unknown] = rest // p
        unknown = None
    if unknown is not None and not nl:
        # the unknown axis takes the lane; blocks may be split into rows
        total = pre * len(ld) * post
        if post != 1 or unknown != len(new) - 1:
            # C order: (pre.., L, post..) keep factor structure
            after = int(np.prod([d for d in new[unknown + 1:]])) if unknown + 1 < len(new) else 1
            before = int(np.prod([d for d in new[:unknown]])) if unknown else 1
            if after == post and before == pre:
                new[unknown] = ld
                return _rs(a, gshape(new), tuple(new))
            if before == 1 and len(new) == 1 and post == 1:
                pass
            elif pre == 1 and post % after == 0 and before == 1:
                raise Unsupported("reshape mixing a ray axis with a fixed axis")
            raise Unsupported("reshape mixing a ray axis with a fixed axis")
        if total % p:
            raise PyRaise("ValueError", "cannot reshape array: ray axis does not divide")
        per = total // p
        # rows of the new array are consecutive runs of `per` blocks
        seq = []
        for r in range(pre):
            for b in ld.blocks:
                seq.append(b)
        rows = [seq[i * per:(i + 1) * per] for i in range(p)]
        first = LDim(rows[0])
        for r in rows[1:]:
            if not same_ldim(first, LDim(r)):
                raise Unsupported("reshape splits a ray axis unevenly")
        new[unknown] = first
        return _rs(a, gshape(new), tuple(new))
    if len(nl) == 1:
        k = nl[0]
        tgt = new[k]
        before = int(np.prod([d for d in new[:k]])) if k else 1
        after = int(np.prod([d for d in new[k + 1:]])) if k + 1 < len(new) else 1
        if post == after:
            per = len(tgt)
            total = pre * len(ld)
            if before * per != total:
                raise PyRaise("ValueError", "cannot reshape array of shape %s into %s" % (a.dims, new))
            seq = [b for _ in range(pre) for b in ld.blocks]
            for i in range(before):
                if not same_ldim(tgt, LDim(seq[i * per:(i + 1) * per])):
                    raise Unsupported("reshape misaligns a ray axis")
            return _rs(a, gshape(new), tuple(new))
        raise Unsupported("reshape moves a fixed axis across a ray axis")
    raise PyRaise("ValueError", "cannot reshape array with a ray axis into %s" % (new,))


def _rs(a, shp, dims):
    idx = a.idx.reshape(shp)
    if a.idx.flags["C_CONTIGUOUS"] or True:
        # numpy reshape returns a view when the memory layout allows, otherwise a copy
        if _is_regular(a.idx):
            return a.view(idx, dims)
        cells = [a.buf.cells[i] for i in idx.ravel()]
        return from_cells(cells, shp, dims, a.dtype, a.cls)


def _is_regular(idx):
    """does the grid enumerate its buffer like a C-contiguous block (possibly at an offset)"""
    f = idx.ravel()
    if len(f) <= 1:
        return True
    return bool((np.diff(f) == 1).all())


def transpose(a, axes=None):
    axes = list(range(a.ndim))[::-1] if axes is None else [x % a.ndim for x in axes]
    return a.view(a.idx.transpose(axes), tuple(a.dims[i] for i in axes))


def concat(arrs, axis=0, dtype=None, cls=None):
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise PyRaise("ValueError", "all the input array dimensions must match for concatenation")
    if nd == 0:
        raise PyRaise("ValueError", "zero-dimensional arrays cannot be concatenated")
    if not -nd <= axis < nd:
        raise PyRaise("AxisError", "axis %d is out of bounds" % axis)
    axis %= nd
    dims = list(arrs[0].dims)
    for a in arrs[1:]:
        for i in range(nd):
            if i == axis:
                continue
            x, y = dims[i], a.dims[i]
            if isinstance(x, LDim) != isinstance(y, LDim):
                raise PyRaise("ValueError", "concatenation: axis %d lengths differ (ray axis against fixed axis)" % i)
            if x is not y and x != y:
                raise PyRaise("ValueError", "concatenation: axis %d lengths differ: %r, %r" % (i, x, y))
    parts = [a.dims[axis] for a in arrs]
    if any(isinstance(p, LDim) for p in parts):
        blocks = []
        for p in parts:
            if isinstance(p, LDim):
                blocks.extend(p.blocks)
            else:
                blocks.extend([(("e", p, i), tm.TRUE) for i in range(p)])
        nd_ = LDim(blocks)
    else:
        nd_ = sum(parts)
    dims[axis] = nd_
    grids = [a.grid() for a in arrs]
    g = np.concatenate(grids, axis=axis)
    if dtype is None:
        dtype = result_dtype(*[a.dtype for a in arrs])
    cells = [store_conv(c, dtype) if isinstance(c, T) else c for c in g.ravel()]
    return from_cells(cells, g.shape, tuple(dims), dtype, cls)


ORDER = {"b": 0, "i": 1, "f": 2, "o": 3}


def result_dtype(*ds):
    m = max(ds, key=lambda d: ORDER[d])
    if isinstance(m, Narrow) and any(d == m and not (isinstance(d, Narrow) and d.narrow == m.narrow) for d in ds):
        return str(m)
    return m


# ------------------------------------------------------------------ indexing
def as_pyint(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, T):
        f = tm.fv(v)
        if f is not None and f.denominator == 1:
            return int(f)
    return None


class _Adv(object):
    """an advanced index on one axis: grid of positions (ints or terms), its dims, and per-cell write condition"""

    def __init__(self, grid, dims, cond=None):
        self.grid = grid
        self.dims = dims
        self.cond = cond


def _lane_slice(d, sl):
    blocks = d.blocks
    n = len(blocks)
    if sl.step is not None and as_pyint(sl.step) != 1:
        raise Unsupported("strided or reversed slice along the ray axis")

    def locate(v, default):
        if v is None:
            return default
        i = as_pyint(v)
        if i == 0:
            return 0
        if i is not None:
            if all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in blocks):
                return max(0, min(n, i if i >= 0 else n + i))
            edge = blocks[:i] if i > 0 else blocks[i:]
            if len(edge) == abs(i) < n and all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in edge):
                return i if i > 0 else n + i
            raise Unsupported("fixed-size slice [%d] along the ray axis" % i)
        off = tm.ZERO
        for j in range(n + 1):
            if tm.nf_equal(off, v):
                return j
            if j < n:
                off = tm.add(off, block_size(blocks[j]))
        raise Unsupported("slice bound %s not aligned with the ray axis" % tm.show(v))
    s, e = locate(sl.start, 0), locate(sl.stop, n)
    return s, e


def _rank_slice(d, sl):
    """a slice along the rays that is not aligned with how they were joined: the rays whose rank lies within the bounds"""
    step = 1 if sl.step is None else as_pyint(sl.step)
    if step is None or step < 1:
        raise Unsupported("reversed slice along the ray axis")
    n = dim_size(d)

    def bound(v, default):
        if v is None:
            return tm.num(tm.const(default))
        v = tm.num(tm.const(v))
        if isint(v) or as_pyint(v) is not None:
            return tm.ite(tm.lt(v, tm.ZERO), tm.minmax("max", tm.ZERO, tm.add(tm.num(tm.const(n)), v)), v)
        raise Unsupported("slice bound %s" % tm.show(v))
    lo, hi = bound(sl.start, 0), bound(sl.stop, n)
    cells = []
    for p in arange_ldim(d).cells() if isinstance(d, LDim) else [tm.const(i) for i in range(d)]:
        c = tm.and_(tm.le(lo, p), tm.lt(p, hi))
        if step != 1:
            c = tm.and_(c, tm.eq(tm.fn("mod", tm.sub(p, lo), tm.const(step)), tm.ZERO))
        cells.append(c)
    return _mask(d, from_cells(cells, (len(cells),), (d,), "b"))


def parse_index(a, key):
    """-> list of per-axis items:  ('new',) | ('slice', start, stop, step, newdim) | ('int', i) | ('adv', _Adv)"""
    if not isinstance(key, tuple):
        key = (key,)
    items = []
    for k in key:
        if isinstance(k, list):
            k = list_to_index(k)
        items.append(k)
    nreal = 0
    for k in items:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, AArray) and k.dtype == "b":
            nreal += k.ndim
        else:
            nreal += 1
    if not any(k is Ellipsis for k in items):
        items.append(Ellipsis)
    elif sum(1 for k in items if k is Ellipsis) > 1:
        raise PyRaise("IndexError", "an index can only have a single ellipsis")
    if nreal > a.ndim:
        raise PyRaise("IndexError", "too many indices for array: array is %d-dimensional, but %d were indexed" % (a.ndim, nreal))
    out = []
    ax = 0
    for k in items:
        if k is None:
            out.append(("new",))
            continue
        if k is Ellipsis:
            for _ in range(a.ndim - nreal):
                d = a.dims[ax]
                out.append(("slice", 0, len(d) if isinstance(d, LDim) else d, 1, d))
                ax += 1
            continue
        d = a.dims[ax]
        if isinstance(k, slice):
            if isinstance(d, LDim):
                try:
                    s, e = _lane_slice(d, k)
                except Unsupported:
                    out.append(("adv", _rank_slice(d, k)))
                    ax += 1
                    continue
                out.append(("slice", s, e, 1, d if (s, e) == (0, len(d)) else LDim(d.blocks[s:e])))
            else:
                st = [as_pyint(x) if x is not None else None for x in (k.start, k.stop, k.step)]
                if any(raw is not None and v is None for raw, v in zip((k.start, k.stop, k.step), st)):
                    out.append(("adv", _rank_slice(d, k)))
                    ax += 1
                    continue
                r = range(*slice(*st).indices(d))
                out.append(("sl", r, len(r)))
            ax += 1
            continue
        if isinstance(k, AArray):
            if k.ndim == 0:
                k = k.item()
            elif k.dtype == "b":
                if k.ndim > 1:
                    adv = _bool_nd(a, ax, k)
                    for g in adv:
                        out.append(("adv", g))
                        ax += 1
                    continue
                out.append(("adv", _mask(d, k)))
                ax += 1
                continue
            else:
                if k.dtype == "f":
                    raise PyRaise("IndexError", "arrays used as indices must be of integer (or boolean) type")
                out.append(("adv", _intindex(d, k)))
                ax += 1
                continue
        i = as_pyint(k)
        if i is not None and not isinstance(k, bool):
            if isinstance(d, LDim):
                if all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in d.blocks):
                    n = len(d)
                    if not -n <= i < n:
                        raise PyRaise("IndexError", "index %d is out of bounds for axis with size %d" % (i, n))
                    out.append(("int", i % n))
                else:
                    out.append(("pick", d, i))
            else:
                if not -d <= i < d:
                    raise PyRaise("IndexError", "index %d is out of bounds for axis %d with size %d" % (i, ax, d))
                out.append(("int", i % d))
            ax += 1
            continue
        if isinstance(k, T) and k.bool:
            raise Unsupported("boolean scalar index")
        if isinstance(k, T):
            if isinstance(d, LDim):
                raise Unsupported("symbolic scalar index along the ray axis")
            g = np.empty((), dtype=object)
            g[()] = k
            out.append(("adv", _Adv(g, ())))
            ax += 1
            continue
        if isinstance(k, (bool,)):
            raise Unsupported("boolean scalar index")
        raise PyRaise("IndexError", "only integers, slices, ellipsis, None and integer or boolean arrays are valid indices (got %r)" % (k,))
    return out


def list_to_index(k):
    from . import npmodel
    return npmodel.asarray(k)


def _mask(d, k):
    kd = k.dims[0]
    cells = k.cells()
    if isinstance(d, LDim):
        if not isinstance(kd, LDim) or not same_ldim(d, kd):
            if isinstance(kd, LDim):
                raise mismatch(d, kd, "boolean index did not match indexed array along the ray axis (%r against %r)" % (kd, d), "IndexError")
            raise PyRaise("IndexError", "boolean index did not match indexed array along the ray axis (%r against %r)" % (kd, d))
        g = np.empty(len(d), dtype=object)
        for i in range(len(d)):
            g[i] = i
        nd = LDim([(b[0], tm.and_(b[1], c)) for b, c in zip(d.blocks, cells)])
        if all(isinstance(b[0], tuple) for b in d.blocks) and all(tm.isc(c) for c in cells):
            sel = [i for i, c in enumerate(cells) if c is tm.TRUE]
            g = np.array(sel, dtype=object)
            return _Adv(g, (LDim([d.blocks[i] for i in sel]),))
        return _Adv(g, (nd,), np.array(cells, dtype=object))
    if isinstance(kd, LDim):
        if len(kd) == d and all(isinstance(b[0], tuple) for b in kd.blocks):
            pass
        else:
            raise PyRaise("IndexError", "boolean index did not match indexed array: ray axis mask on an axis of length %s" % d)
    elif kd != d:
        raise PyRaise("IndexError", "boolean index did not match indexed array; dimension is %s but boolean dimension is %s" % (d, kd))
    if all(tm.isc(c) for c in cells):
        sel = [i for i, c in enumerate(cells) if c is tm.TRUE]
        return _Adv(np.array(sel, dtype=object), (len(sel),))
    g = np.empty(d, dtype=object)
    for i in range(d):
        g[i] = i
    nd = LDim([(("e", d, i), c) for i, c in enumerate(cells)])
    cond = np.empty(d, dtype=object)
    for i, c in enumerate(cells):
        cond[i] = c
    return _Adv(g, (nd,), cond)


def _bool_nd(a, ax, k):
    if all(not isinstance(x, LDim) for x in k.dims) and all(tm.isc(c) for c in k.cells()):
        if tuple(k.dims) != tuple(a.dims[ax:ax + k.ndim]):
            raise PyRaise("IndexError", "boolean index did not match indexed array")
        m = np.array([c is tm.TRUE for c in k.cells()]).reshape(k.idx.shape)
        nz = np.nonzero(m)
        return [_Adv(np.array(list(map(int, n)), dtype=object), (len(n),)) for n in nz]
    for x, y in zip(k.dims, a.dims[ax:ax + k.ndim]):
        if x != y:
            raise PyRaise("IndexError", "boolean index did not match indexed array")
    # flattened list of guarded elements; fixed axes become singleton lanes, one lane axis allowed
    shp = gshape(k.dims)
    cells = k.cells()
    blocks = []
    poss = [[] for _ in shp]
    for flat, ix in enumerate(np.ndindex(*shp)):
        lane = None
        fixed = []
        for d, i in zip(k.dims, ix):
            if isinstance(d, LDim):
                lane = d.blocks[i]
            else:
                fixed.append((d, i))
        c = cells[flat]
        if lane is None:
            blocks.append((("e", tuple(fixed)), c))
        elif not fixed:
            blocks.append((lane[0], tm.and_(lane[1], c)))
        else:
            blocks.append(((lane[0],) + tuple(fixed), tm.and_(lane[1], c)))
        for p, i in zip(poss, ix):
            p.append(i)
    nd = LDim(blocks)
    out = []
    for n, p in enumerate(poss):
        out.append(_Adv(np.array(p, dtype=object), (nd,), np.array(cells, dtype=object) if n == 0 else None))
    return out


def _intindex(d, k):
    grid = k.grid()
    if isinstance(d, LDim):
        # must be the identity (arange) or a sub-selection (flatnonzero) of this ray axis
        offs = []
        off = tm.ZERO
        for b in d.blocks:
            offs.append(off)
            off = tm.add(off, block_size(b))
        lax = [i for i, x in enumerate(k.dims) if isinstance(x, LDim)]
        if len(lax) == 1:
            kd = k.dims[lax[0]]
            g = np.empty(grid.shape, dtype=object)
            cond = np.empty(grid.shape, dtype=object)
            ok = True
            for ix in np.ndindex(*grid.shape):
                kb = kd.blocks[ix[lax[0]]]
                hit = None
                for j, b in enumerate(d.blocks):
                    if b[0] == kb[0] and (b[1] is tm.TRUE or same_guard(b[1], kb[1]) or same_guard(tm.and_(b[1], kb[1]), kb[1])):
                        want = tm.add(offs[j], lidx(b[0])) if b[1] is tm.TRUE else tm.add(offs[j], tm._mk("agg", "rank", tm.num(b[1]), str(b[0])))
                        if tm.nf_equal(want, grid[ix]):
                            hit = j
                            break
                if hit is None:
                    ok = False
                    break
                g[ix] = hit
                cond[ix] = kb[1] if not same_guard(kb[1], d.blocks[hit][1]) else tm.TRUE
            if ok:
                if all(c is tm.TRUE for c in cond.ravel()):
                    cond = None
                return _Adv(g, k.dims, cond)
        if all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in d.blocks):
            d = len(d)
        else:
            e = CrossLane("rays are indexed by something other than their own position (%s)" % ", ".join(tm.show(c, 3) for c in list(grid.ravel())[:3]))
            e.index = (d, k)
            raise e
    g = np.empty(grid.shape, dtype=object)
    for ix in np.ndindex(*grid.shape):
        c = grid[ix]
        i = as_pyint(c)
        if i is not None:
            if not -d <= i < d:
                raise PyRaise("IndexError", "index %d is out of bounds for axis with size %d" % (i, d))
            g[ix] = i % d
        else:
            g[ix] = c
    # elements of a selection that may be absent are only written where they are there
    sel = [(i, x) for i, x in enumerate(k.dims) if isinstance(x, LDim) and any(b[1] is not tm.TRUE for b in x.blocks)]
    if not sel:
        return _Adv(g, k.dims)
    cond = np.empty(grid.shape, dtype=object)
    for ix in np.ndindex(*grid.shape):
        cond[ix] = tm.and_(*[x.blocks[ix[i]][1] for i, x in sel])
    return _Adv(g, k.dims, cond)


class CrossLane(Unsupported):
    """a value of one ray depends on the position/identity of other rays in a way outside the lane abstraction"""
    index = None


def resolve(a, key):
    """-> (selector, dims, cond) ; selector: object grid whose entries are buffer offsets (int) or lists of
    (condition term, offset) alternatives; cond: grid of write conditions or None"""
    items = parse_index(a, key)
    if not any(it[0] == "adv" for it in items):
        np_key = []
        dims = []
        pick = False
        for it in items:
            if it[0] == "new":
                np_key.append(None)
                dims.append(1)
            elif it[0] == "slice":
                np_key.append(slice(it[1], it[2]))
                dims.append(it[4])
            elif it[0] == "sl":
                r = it[1]
                stop = r.stop if not (r.step < 0 and r.stop < 0) else None
                np_key.append(slice(r.start, stop, r.step) if len(r) else slice(0, 0))
                dims.append(it[2])
            elif it[0] == "int":
                np_key.append(it[1])
            elif it[0] == "pick":
                np_key.append(0)
                if pick:
                    raise Unsupported("picking along two ray axes")
                pick = (it[1], it[2])
        return ("basic", a.idx[tuple(np_key)], tuple(dims), pick)
    # advanced indexing
    adv_pos = [i for i, it in enumerate(items) if it[0] in ("adv", "int", "pick")]
    contiguous = adv_pos == list(range(adv_pos[0], adv_pos[-1] + 1))
    advs = []
    for i in adv_pos:
        it = items[i]
        if it[0] == "int":
            g = np.empty((), dtype=object)
            g[()] = it[1]
            advs.append(_Adv(g, ()))
        elif it[0] == "pick":
            raise Unsupported("picking one ray inside an advanced index")
        else:
            advs.append(it[1])
    bd = bdims(*[x.dims for x in advs])
    bshape = gshape(bd)
    cond = None
    grids = []
    for x in advs:
        grids.append(np.broadcast_to(x.grid, bshape))
        if x.cond is not None:
            c = np.broadcast_to(x.cond, bshape)
            if cond is None:
                cond = c.copy()
            else:
                cond = np.array([tm.and_(p, q) for p, q in zip(cond.ravel(), c.ravel())], dtype=object).reshape(bshape)
    # result axes
    basic = [(i, it) for i, it in enumerate(items) if i not in adv_pos]
    res = []  # list of ('b', item index) or ('A',)
    if contiguous:
        placed = False
        for i, it in enumerate(items):
            if i in adv_pos:
                if not placed:
                    res.append(("A",))
                    placed = True
            else:
                res.append(("b", i))
    else:
        res.append(("A",))
        res.extend(("b", i) for i, _ in basic)
    dims = []
    ranges = []
    for r in res:
        if r[0] == "A":
            dims.extend(bd)
            for n in bshape:
                ranges.append(("A", n))
        else:
            it = items[r[1]]
            if it[0] == "new":
                dims.append(1)
                ranges.append((r[1], [0]))
            elif it[0] == "slice":
                dims.append(it[4])
                ranges.append((r[1], list(range(it[1], it[2]))))
            else:
                dims.append(it[2])
                ranges.append((r[1], list(it[1])))
    shp = gshape(dims)
    sel = np.empty(shp, dtype=object)
    conds = np.empty(shp, dtype=object) if cond is not None else None
    for ix in np.ndindex(*shp):
        aix = tuple(i for i, r in zip(ix, ranges) if r[0] == "A")
        bmap = {r[0]: r[1][i] for i, r in zip(ix, ranges) if r[0] != "A"}
        pos = []
        symb = []
        ai = 0
        for i, it in enumerate(items):
            if it[0] == "new":
                continue
            if i in adv_pos:
                v = grids[adv_pos.index(i)][aix]
                if isinstance(v, T):
                    symb.append((len(pos), v))
                    pos.append(None)
                else:
                    pos.append(v)
            else:
                pos.append(bmap[i])
        if not symb:
            sel[ix] = int(a.idx[tuple(pos)])
        else:
            alts = []
            for combo in itertools.product(*[range(a.idx.shape[p]) for p, _ in symb]):
                q = list(pos)
                c = tm.TRUE
                for (p, v), w in zip(symb, combo):
                    q[p] = w
                    c = tm.and_(c, tm.or_(tm.eq(v, tm.const(w)), tm.eq(v, tm.const(w - a.idx.shape[p]))) if False else tm.eq(v, tm.const(w)))
                alts.append((c, int(a.idx[tuple(q)])))
            sel[ix] = alts
        if conds is not None:
            conds[ix] = cond[aix]
    return ("adv", sel, tuple(dims), conds)


def _foreign(a, key, e):
    """an index that picks rays by number, not its own: -> (key without it, axis in the result of that key, the index)"""
    if e.index is None:
        raise e
    d, k = e.index
    items = list(key) if isinstance(key, tuple) else [key]
    items = [list_to_index(x) if isinstance(x, list) else x for x in items]
    arrays = [i for i, x in enumerate(items) if isinstance(x, AArray)]
    if len(arrays) != 1 or items[arrays[0]].dtype != "i" or items[arrays[0]].ndim != 1:
        raise e
    at = arrays[0]
    axis = 0
    rest = a.ndim - sum(1 for x in items if x is not None and x is not Ellipsis)
    for i, x in enumerate(items[:at]):
        if x is Ellipsis:
            axis += rest
        elif x is None or isinstance(x, slice):
            axis += 1
        elif not all(not (y is None or y is Ellipsis or isinstance(y, slice)) for y in items[i:at]):
            raise e
    if any(not (x is None or x is Ellipsis or isinstance(x, slice)) for x in items[at + 1:]):
        raise e
    k = items[at]
    items[at] = slice(None)
    return tuple(items), axis, k


def take_rays(a, axis, k):
    """the rays with the given numbers"""
    d = a.dims[axis]
    if a.dtype == "o":
        raise CrossLane("objects are picked by ray")
    idx = k.cells()
    g = np.moveaxis(a.grid(), axis, -1)
    nd = k.dims[0]
    out = np.empty(g.shape[:-1] + (len(idx),), dtype=object)
    for ix in np.ndindex(*g.shape[:-1]):
        row = list(g[ix])
        for j, i in enumerate(idx):
            v = seq_take(d, row, i)
            out[ix + (j,)] = tm.truth(v) if a.dtype == "b" else v
    out = np.moveaxis(out, -1, axis)
    return from_cells(list(out.ravel()), out.shape, a.dims[:axis] + (nd,) + a.dims[axis + 1:], a.dtype, a.cls)


def put_rays(a, axis, k, val):
    """write to the rays with the given numbers"""
    d = a.dims[axis]
    if a.dtype == "o":
        raise CrossLane("objects are put by ray")
    kd = k.dims[0] if isinstance(k.dims[0], LDim) else LDim([(("e", k.dims[0], i), tm.TRUE) for i in range(k.dims[0])])
    dims = a.dims[:axis] + (k.dims[0],) + a.dims[axis + 1:]
    src = np.empty(len(list(np.ndindex(*gshape(dims)))), dtype=object)
    for i, c in enumerate(assign_cells(val, dims)):
        src[i] = c
    src = np.moveaxis(src.reshape(gshape(dims)), axis, -1)
    idx = k.cells()
    where = np.moveaxis(a.idx, axis, -1)
    k1, t1 = _seq_parts(kd, idx)
    note_write(a.buf)
    for ix in np.ndindex(*where.shape[:-1]):
        offs = [int(o) for o in where[ix]]
        k2, t2 = _seq_parts(kd, [store_conv(c, a.dtype) for c in src[ix]])
        new = seq_map("put", d, [a.buf.cells[o] for o in offs], (k1 + k2, t1 + t2))
        for o, v in zip(offs, new):
            a.buf.cells[o] = tm.truth(v) if a.dtype == "b" else v


def _backwards(a, key):
    """a key that runs through the rays backwards: -> (the key running forwards, axis of the result), or None"""
    items = list(key) if isinstance(key, tuple) else [key]
    if not any(isinstance(x, slice) and x.step is not None and x.start is None and x.stop is None and as_pyint(x.step) == -1 for x in items):
        return None
    rest = a.ndim - sum(1 for x in items if x is not None and x is not Ellipsis)
    ax = axis = 0
    for n, x in enumerate(items):
        if x is None:
            axis += 1
        elif x is Ellipsis:
            ax += rest
            axis += rest
        elif isinstance(x, slice):
            d = a.dims[ax] if ax < a.ndim else 0
            if isinstance(d, LDim) and not all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in d.blocks) and x.step is not None and as_pyint(x.step) == -1 \
                    and x.start is None and x.stop is None:
                return tuple(items[:n] + [slice(None)] + items[n + 1:]), axis
            ax += 1
            axis += 1
        elif isinstance(x, AArray) or isinstance(x, list):
            return None
        else:
            ax += 1
    return None


def _numbered(a, key):
    """a key that names one ray by a computed number: -> (the key for all rays, axis of the result, the number), or None"""
    items = list(key) if isinstance(key, tuple) else [key]
    items = [x.item() if isinstance(x, AArray) and x.ndim == 0 else x for x in items]
    if not any(isinstance(x, T) and not x.bool and as_pyint(x) is None for x in items) or any(isinstance(x, (AArray, list)) for x in items):
        return None
    rest = a.ndim - sum(1 for x in items if x is not None and x is not Ellipsis)
    ax = axis = 0
    for n, x in enumerate(items):
        if x is None:
            axis += 1
        elif x is Ellipsis:
            ax += rest
            axis += rest
        elif isinstance(x, slice):
            ax += 1
            axis += 1
        else:
            d = a.dims[ax] if ax < a.ndim else 0
            if isinstance(x, T) and isinstance(d, LDim) and not all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in d.blocks):
                return tuple(items[:n] + [slice(None)] + items[n + 1:]), axis, x
            ax += 1
    return None


def getitem(a, key):
    one = _numbered(a, key)
    if one is not None and a.dtype != "o":
        v = getitem(a, one[0])
        g = np.moveaxis(v.grid(), one[1], -1)
        out = np.empty(g.shape[:-1], dtype=object)
        for ix in np.ndindex(*g.shape[:-1]):
            c = seq_take(v.dims[one[1]], list(g[ix]), one[2])
            out[ix] = tm.truth(c) if a.dtype == "b" else c
        dims = v.dims[:one[1]] + v.dims[one[1] + 1:]
        return out[()] if not dims else from_cells(list(out.ravel()), out.shape, dims, a.dtype, a.cls)
    back = _backwards(a, key)
    if back is not None and a.dtype != "o":
        v = getitem(a, back[0])
        g = np.moveaxis(v.grid(), back[1], -1)
        out = np.empty(g.shape, dtype=object)
        for ix in np.ndindex(*g.shape[:-1]):
            for j, c in enumerate(seq_map("flip", v.dims[back[1]], list(g[ix]))):
                out[ix + (j,)] = tm.truth(c) if a.dtype == "b" else c
        return from_cells(list(np.moveaxis(out, -1, back[1]).ravel()), v.idx.shape, v.dims, a.dtype, a.cls)
    try:
        r = resolve(a, key)
    except CrossLane as e:
        key, axis, k = _foreign(a, key, e)
        return take_rays(getitem(a, key), axis, k)
    if r[0] == "basic":
        _, idx, dims, pick = r
        if pick:
            if not all(isinstance(a.buf.cells[i], T) for i in np.asarray(idx).ravel()):
                raise Unsupported("picking one of many objects")
            pd, pi = pick
            if len(pd.blocks) != 1 or pd.blocks[0][0] not in LANES:
                return _pick_joined(a, key, pi)
            cells = [tm._mk("agg", "pick", tm.num(a.buf.cells[i]), pd.blocks[0][1], pi) for i in np.asarray(idx).ravel()]
            if not dims:
                return cells[0]
            return from_cells(cells, np.shape(idx), dims, a.dtype, a.cls)
        if not dims:
            return a.buf.cells[int(idx)]
        return a.view(np.asarray(idx), dims)
    _, sel, dims, _ = r
    c = a.buf.cells
    out = []
    for s in sel.ravel():
        if isinstance(s, list):
            t = c[s[-1][1]]
            for cond, off in reversed(s[:-1]):
                t = tm.ite(cond, c[off], t)
            out.append(t)
        else:
            out.append(c[s])
    if not dims:
        return out[0]
    return from_cells(out, sel.shape, dims, a.dtype, a.cls)


def _pick_joined(a, key, i):
    """element number i of rays joined from several parts"""
    items = list(key) if isinstance(key, tuple) else [key]
    ints = [n for n, x in enumerate(items) if x is not None and x is not Ellipsis and not isinstance(x, slice) and as_pyint(x) is not None]
    rest = a.ndim - sum(1 for x in items if x is not None and x is not Ellipsis)
    lane = [n for n, x in enumerate(a.dims) if isinstance(x, LDim) and not all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in x.blocks)]
    ax = 0
    for n, x in enumerate(items):
        if x is None:
            continue
        if x is Ellipsis:
            ax += rest
            continue
        if lane and ax == lane[-1] and n in ints:
            break
        ax += 1
    else:
        raise Unsupported("picking one element of a concatenated ray axis")
    if len(lane) != 1:
        raise Unsupported("picking one element of several ray axes")
    items[n] = slice(None)
    axis = sum(1 for m, x in enumerate(items[:n]) if m not in ints and x is not Ellipsis) + (rest if Ellipsis in [x for x in items[:n] if x is Ellipsis] else 0)
    v = getitem(a, tuple(items))
    g = np.moveaxis(v.grid(), axis, -1)
    out = np.empty(g.shape[:-1], dtype=object)
    for ix in np.ndindex(*g.shape[:-1]):
        t = seq_at(v.dims[axis], list(g[ix]), i)
        out[ix] = tm.truth(t) if a.dtype == "b" else t
    dims = v.dims[:axis] + v.dims[axis + 1:]
    if not dims:
        return out[()]
    return from_cells(list(out.ravel()), out.shape, dims, a.dtype, a.cls)


WRITE_HOOK = [None]


def note_write(buf):
    buf.last_write = tuple(tm.CUR)
    buf.nwrites += 1


def setitem(a, key, val):
    """val: AArray or T or python scalar already converted to AArray (0-d) by the caller"""
    try:
        r = resolve(a, key)
    except CrossLane as e:
        key, axis, k = _foreign(a, key, e)
        v = getitem(a, key)
        if not isinstance(v, AArray) or v.buf is not a.buf:
            raise
        return put_rays(v, axis, k, val)
    buf = a.buf
    c = buf.cells
    if r[0] == "basic":
        _, idx, dims, pick = r
        if pick:
            raise CrossLane("a single ray is written by position")
        idx = np.asarray(idx)
        src = assign_cells(val, dims)
        note_write(buf)
        for i, v in zip(idx.ravel(), src):
            c[i] = store_conv(v, buf.dtype)
        return
    _, sel, dims, conds = r
    src = assign_cells(val, dims)
    note_write(buf)
    cl = [None] * len(src) if conds is None else list(conds.ravel())
    for s, v, cd in zip(sel.ravel(), src, cl):
        v = store_conv(v, buf.dtype)
        if isinstance(s, list):
            for cond, off in s:
                cc = cond if cd is None else tm.and_(cond, cd)
                c[off] = tm.ite(cc, v, c[off])
        elif cd is None:
            c[s] = v
        else:
            c[s] = tm.ite(cd, v, c[s])


def assign_cells(val, dims):
    """cells of val broadcast to dims (numpy assignment rules)"""
    vd = list(val.dims)
    vi = val.idx
    while len(vd) > len(dims) and vd and vd[0] == 1 and not isinstance(vd[0], LDim):
        vd = vd[1:]
        vi = vi[0]
    if len(vd) > len(dims):
        raise PyRaise("ValueError", "could not broadcast input array from shape %s into shape %s" % (val.dims, dims))
    full_ = [1] * (len(dims) - len(vd)) + vd
    for i, (x, y) in enumerate(zip(full_, dims)):
        if isinstance(x, LDim) and isinstance(y, LDim) and x is not y and x != y:
            j = val.ndim - (len(dims) - i)
            r = regather(val, j, y)
            if r is not None:
                return assign_cells(r, dims)
    for x, y in zip(full_, dims):
        if isinstance(x, LDim) or isinstance(y, LDim):
            if not isinstance(x, LDim):
                if x != 1:
                    raise PyRaise("ValueError", "could not broadcast input array from shape %s into shape %s" % (val.dims, dims))
            elif not isinstance(y, LDim) or (x is not y and x != y):
                raise mismatch(x, y, "could not broadcast input array: ray axes differ (%r into %r)" % (x, y))
        elif x != 1 and x != y:
            raise PyRaise("ValueError", "could not broadcast input array from shape %s into shape %s" % (val.dims, dims))
    g = np.broadcast_to(vi.reshape(gshape(full_)), gshape(dims))
    c = val.buf.cells
    return [c[i] for i in g.ravel()]


def copy_array(a, cls="same"):
    return from_cells(a.cells(), a.idx.shape, a.dims, a.dtype, a.cls if cls == "same" else cls)
