"""definitions of less common numpy functions in terms of the modelled ones; interpreted (never executed) together with the analysed code"""
import numpy as np


def fill_diagonal(a, val, wrap=False):
    if a.ndim != 2:
        raise ValueError("array must be at least 2-d")
    n = min(a.shape)
    values = np.ravel(np.asarray(val))
    for i in range(n):
        a[i, i] = values[i % values.shape[0]]


def diag_indices(n, ndim=2):
    return (np.arange(n),) * ndim


def diag_indices_from(arr):
    return diag_indices(arr.shape[0], arr.ndim)


def diagflat(v, k=0):
    return np.diag(np.ravel(np.asarray(v)), k)


def tri(N, M=None, k=0, dtype=float):
    M = N if M is None else M
    return np.array([[1 if j <= i + k else 0 for j in range(M)] for i in range(N)], dtype=dtype)


def tril(m, k=0):
    m = np.asarray(m)
    return np.where(tri(m.shape[-2], m.shape[-1], k, bool), m, np.zeros_like(m))


def triu(m, k=0):
    m = np.asarray(m)
    return np.where(tri(m.shape[-2], m.shape[-1], k - 1, bool), np.zeros_like(m), m)


def tril_indices(n, k=0, m=None):
    return np.nonzero(tri(n, m, k, bool))


def triu_indices(n, k=0, m=None):
    return np.nonzero(~tri(n, m, k - 1, bool))


def indices(dimensions, dtype=int, sparse=False):
    return np.stack(np.meshgrid(*[np.arange(d) for d in dimensions], indexing="ij"))


def fromfunction(function, shape, dtype=float, **kwargs):
    return function(*indices(shape), **kwargs)


def block(arrays):
    if not isinstance(arrays, list):
        return np.asarray(arrays)
    depth, probe = 0, arrays
    while isinstance(probe, list):
        depth, probe = depth + 1, probe[0]

    def join(part, level):
        if not isinstance(part, list):
            part = np.asarray(part)
            while part.ndim < depth:
                part = part[np.newaxis]
            return part
        return np.concatenate([join(p, level + 1) for p in part], axis=level - depth)
    return join(arrays, 0)


def kron(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return np.ravel(a[:, np.newaxis] * b[np.newaxis])
    a, b = np.atleast_2d(a), np.atleast_2d(b)
    return np.concatenate([np.concatenate([a[i, j] * b for j in range(a.shape[1])], axis=1) for i in range(a.shape[0])], axis=0)


def tensordot(a, b, axes=2):
    a, b = np.asarray(a), np.asarray(b)
    if isinstance(axes, int):
        ax, bx = tuple(range(a.ndim - axes, a.ndim)), tuple(range(axes))
    else:
        ax, bx = axes
        ax = (ax,) if isinstance(ax, int) else tuple(ax)
        bx = (bx,) if isinstance(bx, int) else tuple(bx)
    ax, bx = [i % a.ndim for i in ax], [i % b.ndim for i in bx]
    letters = "abcdefghijklmnopqrstuvwxyz"
    la = [letters[i] for i in range(a.ndim)]
    lb = [letters[a.ndim + i] for i in range(b.ndim)]
    for i, j in zip(ax, bx):
        lb[j] = la[i]
    out = [c for i, c in enumerate(la) if i not in ax] + [c for j, c in enumerate(lb) if j not in bx]
    return np.einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


def vecdot(a, b, axis=-1):
    return np.sum(np.asarray(a) * np.asarray(b), axis=axis)


def polyval(p, x):
    y = np.zeros_like(np.asarray(x), dtype=float)
    for c in p:
        y = y * x + c
    return y


def vander(x, N=None, increasing=False):
    x = np.asarray(x)
    N = x.shape[0] if N is None else N
    powers = range(N) if increasing else range(N - 1, -1, -1)
    return np.stack([x ** i for i in powers], axis=-1)


def rot90(m, k=1, axes=(0, 1)):
    m = np.asarray(m)
    for _ in range(k % 4):
        m = np.flip(np.swapaxes(m, axes[0], axes[1]), axes[0])
    return m


def argpartition(a, kth, axis=-1, kind="introselect", order=None):
    return np.argsort(a, axis=axis)


def partition(a, kth, axis=-1, kind="introselect", order=None):
    return np.sort(a, axis=axis)


def extract(condition, arr):
    return np.ravel(np.asarray(arr))[np.ravel(np.asarray(condition)).astype(bool)]


def compress(condition, a, axis=None, out=None):
    condition = np.asarray(condition).astype(bool)
    if axis is None:
        return np.ravel(np.asarray(a))[condition]
    return np.moveaxis(np.moveaxis(np.asarray(a), axis, 0)[condition], 0, axis)


def isposinf(x, out=None):
    return np.asarray(x) == np.inf


def isneginf(x, out=None):
    return np.asarray(x) == -np.inf


def isreal(x):
    return np.ones_like(np.asarray(x), dtype=bool)


def iscomplex(x):
    return np.zeros_like(np.asarray(x), dtype=bool)


def isrealobj(x):
    return True


def iscomplexobj(x):
    return False


def real_if_close(a, tol=100):
    return np.asarray(a)


def nanargmin(a, axis=None, out=None):
    return np.argmin(np.where(np.isnan(a), np.inf, a), axis=axis)


def nanargmax(a, axis=None, out=None):
    return np.argmax(np.where(np.isnan(a), -np.inf, a), axis=axis)


def nanmean(a, axis=None):
    ok = ~np.isnan(a)
    return np.sum(np.where(ok, a, 0.0), axis=axis) / np.sum(ok, axis=axis)


def nanprod(a, axis=None):
    return np.prod(np.where(np.isnan(a), 1.0, a), axis=axis)


def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = np.asarray(a)
    if axis is None:
        a, axis = np.ravel(a), 0
    s = np.moveaxis(np.sort(a, axis=axis), axis, 0)
    n = s.shape[0]
    r = s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])
    return np.expand_dims(r, axis) if keepdims else r


def array_equiv(a1, a2):
    return np.all(np.asarray(a1) == np.asarray(a2))


def exp2(x):
    return np.power(2.0, x)


def arcsinh(x):
    return np.log(x + np.sqrt(np.square(x) + 1.0))


def arccosh(x):
    return np.log(x + np.sqrt(np.square(x) - 1.0))


def arctanh(x):
    return 0.5 * np.log((1.0 + x) / (1.0 - x))


def sinc(x):
    y = np.pi * np.where(np.equal(x, 0), 1.0e-20, x)
    return np.sin(y) / y


def modf(x):
    whole = np.trunc(x)
    return x - whole, whole


def angle(z, deg=False):
    r = np.where(np.less(z, 0), np.pi, 0.0)
    return np.degrees(r) if deg else r


def broadcast_shapes(*shapes):
    return np.broadcast_arrays(*[np.empty(s) for s in shapes])[0].shape


def permute_dims(a, axes=None):
    return np.transpose(a, axes)


def matrix_transpose(x):
    return np.swapaxes(x, -1, -2)


def unstack(x, axis=0):
    return tuple(np.moveaxis(x, axis, 0))


def vectorise(f):
    return np.vectorize(f)


def frompyfunc(func, nin, nout):
    return np.vectorize(func)


def put(a, ind, v, mode="raise"):
    flat = np.reshape(a, -1)
    flat[ind] = v


def resize(a, new_shape):
    flat = np.ravel(np.asarray(a))
    n = 1
    for s in ((new_shape,) if isinstance(new_shape, int) else new_shape):
        n = n * s
    return np.array([flat[i % flat.shape[0]] for i in range(n)]).reshape(new_shape)


def pad(array, pad_width, mode="constant", constant_values=0):
    array = np.asarray(array)
    if isinstance(pad_width, int):
        pad_width = ((pad_width, pad_width),) * array.ndim
    elif isinstance(pad_width[0], int):
        pad_width = (tuple(pad_width) if len(pad_width) == 2 else (pad_width[0], pad_width[0]),) * array.ndim
    for axis in range(array.ndim):
        before, after = pad_width[axis]
        if before == 0 and after == 0:
            continue
        moved = np.moveaxis(array, axis, 0)
        if mode == "constant":
            top = [np.full_like(moved[0], constant_values)] * before
            bottom = [np.full_like(moved[0], constant_values)] * after
        elif mode == "edge":
            top, bottom = [moved[0]] * before, [moved[-1]] * after
        else:
            raise NotImplementedError("pad mode")
        array = np.moveaxis(np.stack(top + [r for r in moved] + bottom), 0, axis)
    return array


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(np.asarray(y), axis, -1)
    d = dx if x is None else np.diff(x)
    return np.sum(d * (y[..., 1:] + y[..., :-1]) / 2.0, axis=-1)


def trapz(y, x=None, dx=1.0, axis=-1):
    return trapezoid(y, x, dx, axis)


def geomspace(start, stop, num=50, endpoint=True):
    return start * np.power(stop / start, np.linspace(0, 1, num, endpoint=endpoint))


def require(a, dtype=None, requirements=None):
    return np.asarray(a, dtype=dtype)


def asfortranarray(a, dtype=None):
    return np.asarray(a, dtype=dtype)


def asarray_chkfinite(a, dtype=None, order=None):
    a = np.asarray(a, dtype=dtype)
    if not np.isfinite(a).all():
        raise ValueError("array must not contain infs or NaNs")
    return a


def ediff1d(ary, to_end=None, to_begin=None):
    return np.diff(np.ravel(ary))


def unravel_index(indices, shape):
    out = []
    for s in shape[::-1]:
        out.append(indices % s)
        indices = indices // s
    return tuple(out[::-1])


def ravel_multi_index(multi_index, dims):
    r = 0
    for i, d in zip(multi_index, dims):
        r = r * d + i
    return r


def cumulative_sum(x, axis=None):
    return np.cumsum(x, axis=axis)


def nancumsum(a, axis=None):
    return np.cumsum(np.where(np.isnan(a), 0.0, a), axis=axis)


def convolve(a, v, mode="full"):
    n, m = len(a), len(v)
    full = [sum([a[i] * v[k - i] for i in range(n) if 0 <= k - i < m]) for k in range(n + m - 1)]
    if mode == "full":
        return np.array(full)
    lo = min(n, m) - 1 if mode == "valid" else (min(n, m) - 1) // 2
    size = max(n, m) - min(n, m) + 1 if mode == "valid" else max(n, m)
    return np.array(full[lo:lo + size])


def gradient(f, *varargs, axis=None, edge_order=1):
    f = np.asarray(f)
    h = varargs[0] if varargs else 1.0
    n = f.shape[0]
    return np.stack([(f[1] - f[0]) / h] + [(f[i + 1] - f[i - 1]) / (2.0 * h) for i in range(1, n - 1)] + [(f[n - 1] - f[n - 2]) / h])


def logaddexp(a, b):
    return np.log(np.exp(a) + np.exp(b))


def linalg_vector_norm(x, axis=None, ord=2, keepdims=False):
    return np.linalg.norm(x, axis=axis, keepdims=keepdims)


def lexsort(keys, axis=-1):
    order = None
    for k in keys:
        k = np.asarray(k)
        if k.ndim != 1:
            raise NotImplementedError("lexsort of several sequences")
        order = np.argsort(k, kind="stable") if order is None else order[np.argsort(k[order], kind="stable")]
    return order
