"""Less common numpy functions, composed from those of nparr (registered through nparr.HANDLERS)."""

import numpy as np

from . import nparr
from .nparr import arr, is_cplx
from .poly import S, Unsupported


def _n(a):
    """own copy as plain object array"""
    return nparr._orig["array"](arr(a).view(np.ndarray))


def _w(a, *src):
    return nparr.wrap(a, any(is_cplx(s) for s in src))


def column_stack(tup):
    return np.concatenate([arr(t).reshape(-1, 1) if arr(t).ndim < 2 else arr(t) for t in tup], axis=1)


def kron(a, b):
    a, b = arr(a), arr(b)
    n = max(a.ndim, b.ndim)
    a, b = a.reshape((1,) * (n - a.ndim) + a.shape), b.reshape((1,) * (n - b.ndim) + b.shape)
    x = a[tuple(s for _ in range(n) for s in (slice(None), None))] * b[tuple(s for _ in range(n) for s in (None, slice(None)))]
    return x.reshape(tuple(p * q for p, q in zip(a.shape, b.shape)))


def fill_diagonal(a, val, wrap=False):
    k = min(a.shape)
    i = np.arange(k)
    a[(i,) * a.ndim] = val


def put_along_axis(a, indices, values, axis):
    if axis is None:
        raise Unsupported("put_along_axis axis=None")
    axis %= a.ndim
    idx = np.ix_(*[range(s) for s in np.shape(indices)])
    ii = [np.broadcast_to(np.arange(a.shape[d]).reshape([-1 if e == d else 1 for e in range(a.ndim)]), np.shape(indices)) if d != axis else indices
          for d in range(a.ndim)]
    del idx
    a[tuple(ii)] = values


def tril(m, k=0):
    m = arr(m)
    return m * np.tri(m.shape[-2], m.shape[-1], k)


def triu(m, k=0):
    m = arr(m)
    return m * (1 - np.tri(m.shape[-2], m.shape[-1], k - 1))


def putmask(a, mask, values):
    a[np.asarray(mask)] = values


def diagflat(v, k=0):
    return np.diag(arr(v).ravel(), k)


def apply_along_axis(f, axis, x, *args, **kw):
    x = arr(x)
    y = np.moveaxis(x, axis, -1)
    sh = y.shape[:-1]
    rows = [f(y[i], *args, **kw) for i in np.ndindex(*sh)]
    r = np.stack([arr(q) for q in rows]) if rows else None
    r = r.reshape(sh + r.shape[1:])
    k = r.ndim - len(sh)
    if k == 0:
        return r
    if k == 1:
        return np.moveaxis(r, -1, axis)
    raise Unsupported("apply_along_axis of arrays")


def broadcast_arrays(*a, **k):
    a = [arr(x) for x in a]
    sh = np.broadcast_shapes(*[x.shape for x in a])
    return tuple(np.broadcast_to(x, sh) for x in a)


def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        s = np.broadcast_to(arr(src), dst.shape)
        m = nparr._broadcast_to(nparr._tobool(where) if nparr.has_sym(where) else np.asarray(where), dst.shape)
        dst[m] = s[m]


def cumprod(a, axis=None, dtype=None, out=None):
    a = arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    y = np.moveaxis(a, axis, 0)
    rows = [y[0]]
    for k in range(1, y.shape[0]):
        rows.append(rows[-1] * y[k])
    return np.moveaxis(np.stack([arr(r) for r in rows]), 0, axis)


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np.where(c, v, r)
    return r


def extract(c, a):
    c = nparr._tobool(c) if nparr.has_sym(c) else np.asarray(c, dtype=bool)
    return arr(a).ravel()[c.ravel()]


def compress(c, a, axis=None, out=None):
    a = arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return np.take(a, np.nonzero(np.asarray(c, dtype=bool))[0], axis=axis)


def choose(a, choices, out=None, mode="raise"):
    a = np.asarray(a)
    ch = [np.broadcast_to(arr(c), np.broadcast_shapes(a.shape, *[arr(x).shape for x in choices])) for c in choices]
    a = nparr._broadcast_to(a, ch[0].shape)
    r = ch[0].copy()
    for i in np.ndindex(*a.shape):
        r[i] = ch[int(a[i])][i]
    return r


def block(x):
    def depth(y):
        return 1 + depth(y[0]) if isinstance(y, list) else 0

    d = depth(x)

    def go(y, k):
        if not isinstance(y, list):
            y = arr(y)
            return y.reshape((1,) * (d - y.ndim) + y.shape) if y.ndim < d else y
        return np.concatenate([go(z, k - 1) for z in y], axis=-k)

    return go(x, d)


def diff(a, n=1, axis=-1, **k):
    a = np.moveaxis(arr(a), axis, 0)
    for _ in range(n):
        a = a[1:] - a[:-1]
    return np.moveaxis(a, 0, axis)


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return nparr._mean(a, axis, keepdims is True)
    a, w = arr(a), arr(weights)
    if w.shape != a.shape:
        if axis is None or isinstance(axis, tuple):
            raise Unsupported("average weights")
        w = w.reshape([-1 if d == axis % a.ndim else 1 for d in range(a.ndim)])
        w = np.broadcast_to(w, a.shape)
    kd = keepdims is True
    s = np.sum(w, axis=axis, keepdims=kd)
    r = np.sum(a * w, axis=axis, keepdims=kd) / s
    return (r, s) if returned else r


def nans(f):
    return lambda a, axis=None, *x, **k: getattr(np, f)(a, axis=axis, **{q: v for q, v in k.items() if q == "keepdims"})


def real_if_close(a, tol=100):
    a = arr(a)
    if not is_cplx(a):
        return a
    t = tol * float(np.finfo(float).eps) if tol > 1 else tol
    im = np.imag(a)
    for x in im.view(np.ndarray).ravel():
        if not bool(abs(x) < t):
            return a
    return np.real(a)


def iscomplex(a):
    return np.imag(arr(a)) != 0


def polyval(p, x):
    y = 0
    for c in p:
        y = y * x + c
    return y


def correlate(a, v, mode="valid"):
    return np.convolve(a, np.conj(arr(v))[::-1], mode)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    if x is not None:
        raise Unsupported("trapezoid x")
    y = np.moveaxis(arr(y), axis, -1)
    return np.sum((y[..., 1:] + y[..., :-1]) / 2, axis=-1) * dx


def cross(a, b, **k):
    a, b = arr(a), arr(b)
    if k or a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("cross")
    return np.stack([a[..., (i + 1) % 3] * b[..., (i + 2) % 3] - a[..., (i + 2) % 3] * b[..., (i + 1) % 3] for i in range(3)], axis=-1)


def result_type(*a):
    return np.dtype("complex128") if any(is_cplx(x) for x in a if nparr.has_sym(x)) else np.dtype("float64")


def rot90(m, k=1, axes=(0, 1)):
    m = arr(m)
    for _ in range(k % 4):
        m = np.flip(np.swapaxes(m, *axes), axes[0])
    return m


def partition_sort(a, kth, axis=-1, **k):
    return np.sort(a, axis=axis)


def vector_norm(x, axis=None, keepdims=False, ord=2):
    if ord != 2:
        raise Unsupported("vector_norm order")
    return np.sqrt(np.sum(np.abs(x) ** 2, axis=axis, keepdims=keepdims))


def la_cond(*a, **k):
    raise Unsupported("cond")


HANDLERS = {
    "tril": tril, "triu": triu, "putmask": putmask,
    "column_stack": column_stack, "kron": kron, "fill_diagonal": fill_diagonal, "put_along_axis": put_along_axis, "diagflat": diagflat,
    "apply_along_axis": apply_along_axis, "broadcast_arrays": broadcast_arrays, "copyto": copyto, "cumprod": cumprod, "select": select,
    "extract": extract, "compress": compress, "choose": choose, "block": block, "diff": diff, "average": average,
    "ptp": lambda a, axis=None, **k: np.max(a, axis=axis) - np.min(a, axis=axis), "nansum": nans("sum"), "nanmax": nans("max"), "nanmin": nans("min"),
    "nanmean": nans("mean"), "real_if_close": real_if_close, "iscomplex": iscomplex, "isreal": lambda a: np.imag(arr(a)) == 0, "polyval": polyval,
    "correlate": correlate, "trapezoid": trapezoid, "cross": cross, "result_type": result_type, "rot90": rot90,
    "partition": partition_sort, "argpartition": lambda a, kth, axis=-1, **k: np.argsort(a, axis=axis),
    "unstack": lambda x, axis=0: tuple(np.moveaxis(arr(x), axis, 0)), "astype": lambda x, dtype, copy=True, **k: arr(x).astype(dtype),
    "cumulative_sum": lambda x, axis=None, **k: np.cumsum(x, axis=axis), "shares_memory": lambda a, b, **k: native(np.shares_memory, a, b),
    "may_share_memory": lambda a, b, **k: native(np.may_share_memory, a, b),
}


def native(f, *a):
    return nparr._native_call(lambda: f(*[x.view(np.ndarray) if isinstance(x, np.ndarray) else x for x in a]))()


LINALG = {
    "trace": lambda x, offset=0, dtype=None: np.trace(x, offset=offset, axis1=-2, axis2=-1),
    "diagonal": lambda x, offset=0: np.diagonal(x, offset=offset, axis1=-2, axis2=-1),
    "matmul": lambda a, b: nparr._matmul(a, b), "vecdot": lambda a, b, axis=-1: np.sum(np.conj(a) * b, axis=axis),
    "outer": lambda a, b: np.outer(a, b), "vector_norm": vector_norm, "matrix_transpose": lambda x: np.swapaxes(x, -1, -2),
    "matrix_norm": lambda x, keepdims=False, ord="fro": vector_norm(x, axis=(-2, -1), keepdims=keepdims, ord=2 if ord == "fro" else ord),
    "svdvals": lambda x: np.linalg.svd(x, compute_uv=False), "tensordot": lambda a, b, axes=2: np.tensordot(a, b, axes=axes),
}


def ufunc(name, inputs):
    """extra elementwise functions; None if unknown"""
    E = S.ENG
    if name == "fabs":
        return nparr._fmap1("absolute", inputs[0])
    if name == "logaddexp":
        return nparr._map2(lambda a, b: E.log(E.exp(a) + E.exp(b)), *inputs)
    if name == "matvec":
        return nparr._matmul(inputs[0], arr(inputs[1])[..., None])[..., 0]
    if name == "vecmat":
        return nparr._matmul(np.conj(arr(inputs[0]))[..., None, :], inputs[1])[..., 0, :]
    if name == "float_power":
        return arr(inputs[0]) ** inputs[1]
    if name == "cosh":
        return nparr._map(lambda a: (E.exp(a) + E.exp(-a)) / 2, inputs[0])
    if name == "sinh":
        return nparr._map(lambda a: (E.exp(a) - E.exp(-a)) / 2, inputs[0])
    if name in ("deg2rad", "radians"):
        return arr(inputs[0]) * (np.pi / 180)
    if name == "copysign":
        return nparr._fmap1("absolute", inputs[0]) * np.where(arr(inputs[1]) >= 0, 1, -1)
    if name == "heaviside":
        return np.where(arr(inputs[0]) > 0, 1, np.where(arr(inputs[0]) < 0, 0, inputs[1]))
    if "vectorized" in name:
        return None
    return None


def vectorized(f, inputs):
    xs = [arr(i) for i in inputs]
    sh = np.broadcast_shapes(*[x.shape for x in xs])
    xs = [nparr._broadcast_to(x.view(np.ndarray), sh) for x in xs]
    flat = [f(*[x[i] for x in xs]) for i in np.ndindex(*sh)]
    return np.stack([arr(v) for v in flat]).reshape(sh) if flat else xs[0]
