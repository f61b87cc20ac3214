"""Symbolic numpy: lets unmodified numpy code run on arrays of exact symbolic scalars."""

import builtins
import functools
import itertools
import math
from fractions import Fraction

import numpy as np
import numpy.linalg as nla

from .engine import Infinity
from .poly import S, Unsupported, of

_empty = np.empty
_asarr = np.asarray
_moveaxis = np.moveaxis
_take_along = np.take_along_axis
_broadcast_to = np.broadcast_to
_prod = np.prod
_shape = np.shape
_eye = np.eye

_orig = {}
_orig_la = {}


_native = 0


def active():
    return S.ENG is not None and not _native


def _R():
    return S.ENG.R


def _dt(a):
    """the storage dtype of an array (SymArray.dtype answers for the values it stands for)"""
    return np.ndarray.dtype.__get__(a)


class SymArray(np.ndarray):
    __array_priority__ = 100.0

    def __new__(cls, data, cplx=None):
        a = _empty(_shape(data), dtype=object) if not isinstance(data, np.ndarray) else data
        if not isinstance(data, np.ndarray):
            b = _orig_array(data, dtype=object)
            a = b
        if _dt(a) != object:
            if cplx is None:
                cplx = _dt(a).kind == "c"
            b = _empty(a.shape, dtype=object)
            R = _R()
            fl, fb = a.ravel(), b.reshape(-1)
            for i in range(a.size):
                fb[i] = of(R, fl[i])
            a = b
        obj = a.view(cls)
        obj.cplx = bool(cplx) if cplx is not None else getattr(data, "cplx", None)
        if obj.cplx is None:
            obj.cplx = _guess_cplx(a)
        return obj

    def __array_finalize__(self, obj):
        if obj is not None:
            self.cplx = getattr(obj, "cplx", None)

    # -- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return _ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch(func, args, kwargs)

    # -- item assignment: always scalars of the engine
    def __setitem__(self, key, value):
        if S.ENG is not None:
            if isinstance(value, S):
                if self.cplx is False and not value.is_real():
                    value = value.real
            else:
                cv = is_cplx(value)
                v = arr(value)
                if self.cplx is False and cv:
                    v = _real(v)
                value = v.view(np.ndarray) if v.ndim else v.view(np.ndarray)[()]
            if isinstance(key, SymArray):
                key = _orig_array([bool(x != 0) for x in key.ravel()], dtype=bool).reshape(key.shape)
        np.ndarray.__setitem__(self, key, value)

    # -- attributes
    @property
    def dtype(self):
        """the dtype the array stands for (the elements are engine scalars)"""
        d = _dt(self)
        return d if d != object else np.dtype(np.complex128 if is_cplx(self) else np.float64)

    @property
    def real(self):
        return _real(self)

    @real.setter
    def real(self, v):
        im = _imag(self)
        self[...] = _map2(lambda a, b: a + b * _R().I(), arr(v), im)

    @property
    def imag(self):
        return _imag(self)

    @imag.setter
    def imag(self, v):
        re = _real(self)
        self[...] = _map2(lambda a, b: a + b * _R().I(), re, arr(v))

    @property
    def H(self):
        return self.conj().swapaxes(-1, -2)

    def conj(self):
        return _map(lambda x: x.conjugate(), self, cplx=is_cplx(self))

    conjugate = conj

    def astype(self, dtype, **kw):
        dt = np.dtype(dtype)
        if dt == object:
            return self.copy()
        if dt.kind == "c":
            r = self.copy()
            r.cplx = True
            return r
        if dt.kind == "f":
            r = self.copy() if not is_cplx(self) else _real(self).copy()
            r.cplx = False
            return r
        if dt.kind == "b":
            return _orig_array([bool(x != 0) for x in self.ravel()], dtype=bool).reshape(self.shape)
        b = _empty(self.shape, dtype=dt)
        fb = b.reshape(-1)
        for i, x in enumerate(self.ravel()):
            fb[i] = int(x)
        return b

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _out(_sum(self, axis, keepdims), out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _out(_mean(self, axis, keepdims), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce(_pymul, self, axis, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return _var(self, axis, keepdims, ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return _fmap1("sqrt", _var(self, axis, keepdims, ddof))

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce(_pymax, self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce(_pymin, self, axis, keepdims)

    def argmax(self, axis=None, out=None, **kw):
        return _argext(self, axis, True, kw.get("keepdims", False))

    def argmin(self, axis=None, out=None, **kw):
        return _argext(self, axis, False, kw.get("keepdims", False))

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return _argsort(self, axis)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return _trace(self, offset, axis1, axis2)

    def dot(self, b, out=None):
        return _dot(self, b)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return _orig["all"](_tobool(self), axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return _orig["any"](_tobool(self), axis=axis, keepdims=keepdims)

    def sort(self, axis=-1, **kw):
        idx = _argsort(self, axis)
        self[...] = _take_along(self.view(np.ndarray), idx, axis)

    def clip(self, min=None, max=None, out=None, **kw):
        return _clip(self, min, max)

    def round(self, *a, **k):
        raise Unsupported("round")

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes")

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic array")

    def __matmul__(self, o):
        return _matmul(self, o)

    def __rmatmul__(self, o):
        return _matmul(o, self)

    def __imatmul__(self, o):
        self[...] = _matmul(self, o)
        return self


class HavocArray(SymArray):
    """Array whose writes are reported to a hook and then replaced by fresh symbols, so that the
    next step of the code under test starts from an arbitrary state (inductive step checking)."""

    hook = None

    def copy(self, order="C"):
        r = np.ndarray.copy(self, order).view(HavocArray)
        r.cplx = self.cplx
        r.hook = self.hook
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def __setitem__(self, key, value):
        h = self.hook
        if h is None:
            return SymArray.__setitem__(self, key, value)
        before = np.ndarray.copy(self).view(SymArray)
        before.cplx = self.cplx
        SymArray.__setitem__(self, key, value)
        after = np.ndarray.copy(self).view(SymArray)
        after.cplx = self.cplx
        fresh = h(before, after, key)
        if fresh is not None:
            b = self.view(np.ndarray)
            b[...] = fresh.view(np.ndarray)


_orig_array = np.array
_ORIG_EIGH = np.linalg.eigh
_ORIG_INV = np.linalg.inv
_ORIG_CHOL = np.linalg.cholesky
_ORIG_SVD = np.linalg.svd
_orig_where = np.where
_orig_zeros = np.zeros


# ---------------------------------------------------------------------------- helpers
def _guess_cplx(a):
    for x in a.ravel():
        if isinstance(x, S):
            if not isinstance(x, Infinity) and not x.is_real():
                return True
        elif isinstance(x, (complex, np.complexfloating)):
            return True
    return False


def is_cplx(x):
    if isinstance(x, SymArray):
        return bool(x.cplx)
    if isinstance(x, S):
        return not x.is_real()
    if isinstance(x, np.ndarray):
        if _dt(x) == object:
            return _guess_cplx(x)
        return _dt(x).kind == "c"
    if isinstance(x, (list, tuple)):
        return any(is_cplx(y) for y in x)
    return isinstance(x, (complex, np.complexfloating))


def has_sym(x):
    if isinstance(x, (S, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return _dt(x) == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def arr(x):
    """Anything -> SymArray (0-d allowed)."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, S):
        a = _empty((), dtype=object)
        a[()] = x
        r = a.view(SymArray)
        r.cplx = not (isinstance(x, Infinity) or x.is_real())
        return r
    if isinstance(x, np.ndarray):
        if _dt(x) == object:
            R = _R()
            y = _empty(x.shape, dtype=object)
            fx, fy = x.ravel(), y.reshape(-1)
            for i in range(x.size):
                fy[i] = of(R, fx[i])
            r = y.view(SymArray)
            r.cplx = _guess_cplx(y)
            return r
        return SymArray(x)
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, np.ndarray) for y in x):
            parts = [arr(y) for y in x]
            b = _empty((len(parts),) + parts[0].shape, dtype=object)
            for i, p in enumerate(parts):
                b[i] = p.view(np.ndarray)
            r = b.view(SymArray)
            r.cplx = any(p.cplx for p in parts)
            return r
        b = _orig_array(x, dtype=object)
        return arr(b)
    b = _empty((), dtype=object)
    b[()] = of(_R(), x)
    if b[()] is NotImplemented:
        raise Unsupported(f"operand {type(x)}")
    r = b.view(SymArray)
    r.cplx = isinstance(x, (complex, np.complexfloating))
    return r


def wrap(b, cplx):
    if isinstance(b, np.ndarray) and b.ndim == 0:
        return b[()]
    r = b.view(SymArray)
    r.cplx = bool(cplx)
    return r


def wrap0(b, cplx):
    r = b.view(SymArray)
    r.cplx = bool(cplx)
    return r


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    if _dt(out) != object:
        raise Unsupported("symbolic result written into a concrete array")
    out[...] = r
    if isinstance(out, SymArray) and is_cplx(r) and not out.cplx:
        raise np._core._exceptions._UFuncOutputCastingError if False else TypeError(
            "Cannot cast ufunc output from complex to real"
        )
    return out


def _map(f, x, cplx=None):
    x = arr(x)
    b = _empty(x.shape, dtype=object)
    fb, fx = b.reshape(-1), x.view(np.ndarray).ravel()
    for i in range(fx.size):
        fb[i] = f(fx[i])
    return wrap(b, is_cplx(x) if cplx is None else cplx)


def _map2(f, x, y, cplx=None):
    x, y = arr(x), arr(y)
    if cplx is None:
        cplx = is_cplx(x) or is_cplx(y)
    bx, by = np.broadcast_arrays(x.view(np.ndarray), y.view(np.ndarray))
    b = _empty(bx.shape, dtype=object)
    it = zip(bx.ravel(), by.ravel())
    fb = b.reshape(-1)
    for i, (p, q) in enumerate(it):
        fb[i] = f(p, q)
    return wrap(b, cplx)


def _mapbool2(f, x, y):
    x, y = arr(x), arr(y)
    bx, by = np.broadcast_arrays(x.view(np.ndarray), y.view(np.ndarray))
    b = _empty(bx.shape, dtype=bool)
    fb = b.reshape(-1)
    for i, (p, q) in enumerate(zip(bx.ravel(), by.ravel())):
        fb[i] = bool(f(p, q))
    return b if b.ndim else np.bool_(b[()])


def _tobool(x):
    x = arr(x)
    b = _empty(x.shape, dtype=bool)
    fb = b.reshape(-1)
    for i, p in enumerate(x.view(np.ndarray).ravel()):
        fb[i] = bool(p != 0)
    return b


def _real(x):
    return _map(lambda a: a.real, x, cplx=False)


def _imag(x):
    return _map(lambda a: a.imag, x, cplx=False)


def _pymul(a, b):
    return a * b


def _pymax(a, b):
    return b if a < b else a


def _pymin(a, b):
    return b if b < a else a


def _normax(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    return tuple(sorted(int(a) % nd for a in axis))


def _lists(x, axis):
    """iterate output index -> list of reduced elements; returns (kept shape, keepdims shape, iterator)"""
    x = arr(x)
    nd = x.ndim
    ax = _normax(axis, nd)
    keep = [i for i in range(nd) if i not in ax]
    v = x.view(np.ndarray).transpose(keep + list(ax))
    ks = tuple(x.shape[i] for i in keep)
    v = v.reshape(ks + (-1,)) if v.size else v.reshape(ks + (0,))
    kd = tuple(1 if i in ax else x.shape[i] for i in range(nd))
    return v, ks, kd


def _sum(x, axis=None, keepdims=False):
    x = arr(x)
    v, ks, kd = _lists(x, axis)
    b = _empty(ks, dtype=object)
    R = _R()
    if b.ndim == 0:
        b[()] = _nsum(R, list(v))
    else:
        fb = b.reshape(-1)
        for i, row in enumerate(v.reshape(fb.size, v.shape[-1])):
            fb[i] = _nsum(R, list(row))
    if keepdims:
        b = b.reshape(kd)
    return wrap(b, is_cplx(x))


def _nsum(R, row):
    for x in row:
        if isinstance(x, Infinity):
            return x
    return R.ssum(row)


def _mean(x, axis=None, keepdims=False):
    x = arr(x)
    n = 1
    for a in _normax(axis, x.ndim):
        n *= x.shape[a]
    return _sum(x, axis, keepdims) / n if n else _sum(x, axis, keepdims) / n


def _reduce(f, x, axis, keepdims):
    x = arr(x)
    v, ks, kd = _lists(x, axis)
    if 0 in ks:
        b = _empty(ks, dtype=object)
        return wrap(b.reshape(kd) if keepdims else b, is_cplx(x))
    if v.shape[-1] == 0:
        if f is _pymul:
            b = _empty(ks, dtype=object)
            b[...] = of(_R(), 1)
            return wrap(b, False)
        raise ValueError("zero-size array to reduction operation which has no identity")
    b = _empty(ks, dtype=object)
    if b.ndim == 0:
        b[()] = functools.reduce(f, list(v))
    else:
        fb = b.reshape(-1)
        for i, row in enumerate(v.reshape(fb.size, v.shape[-1])):
            fb[i] = functools.reduce(f, list(row))
    if keepdims:
        b = b.reshape(kd)
    return wrap(b, is_cplx(x))


def _var(x, axis, keepdims, ddof=0):
    x = arr(x)
    m = _mean(x, axis, True)
    d = x - m
    n = 1
    for a in _normax(axis, x.ndim):
        n *= x.shape[a]
    p = _fmap1("absolute", d)
    p = _map(lambda t: t * t, p, cplx=False)
    return _sum(p, axis, keepdims) / (n - ddof)


def _argext(x, axis, big, keepdims=False):
    x = arr(x)
    if axis is None:
        row = list(x.view(np.ndarray).ravel())
        return np.intp(_argrow(row, big))
    v, ks, kd = _lists(x, axis)
    b = _empty(ks, dtype=np.intp)
    if b.ndim == 0:
        r = np.intp(_argrow(list(v), big))
        return r
    fb = b.reshape(-1)
    for i, row in enumerate(v.reshape(fb.size, v.shape[-1])):
        fb[i] = _argrow(list(row), big)
    return b.reshape(kd) if keepdims else b


def _argrow(row, big):
    k = 0
    for j in range(1, len(row)):
        if (row[k] < row[j]) if big else (row[j] < row[k]):
            k = j
    return k


def _argsort(x, axis=-1):
    x = arr(x)
    if axis is None:
        x = x.reshape(-1)
        axis = -1
    v = _moveaxis(x.view(np.ndarray), axis, -1)
    b = _empty(v.shape, dtype=np.intp)
    for idx in np.ndindex(*v.shape[:-1]):
        row = list(v[idx])

        def cmp(i, j):
            if row[i] < row[j]:
                return -1
            if row[j] < row[i]:
                return 1
            return 0

        b[idx] = sorted(range(len(row)), key=functools.cmp_to_key(cmp))
    return _moveaxis(b, -1, axis)


def _trace(x, offset=0, axis1=0, axis2=1):
    d = _diagonal(x, offset, axis1, axis2)
    return _sum(d, -1)


def _diagonal(x, offset=0, axis1=0, axis2=1):
    x = arr(x)
    r = x.view(np.ndarray).diagonal(offset, axis1, axis2)
    return wrap0(r, is_cplx(x))


def _clip(x, lo, hi):
    if lo is not None:
        x = _map2(_pymax2, x, lo)
    if hi is not None:
        x = _map2(_pymin2, x, hi)
    return x


def _pymax2(a, b):
    # np.maximum
    return b if a < b else a


def _pymin2(a, b):
    return b if b < a else a


def _fmap1(name, x):
    E = S.ENG
    if name == "absolute":
        return _map(lambda a: a if isinstance(a, Infinity) else E.absolute(a), x, cplx=False)
    f = {
        "sqrt": E.sqrt,
        "exp": E.exp,
        "log": E.log,
        "cbrt": E.cbrt,
        "sign": E.sign,
        "square": lambda a: a * a,
        "negative": lambda a: -a,
        "positive": lambda a: a,
        "conjugate": lambda a: a.conjugate(),
        "reciprocal": lambda a: 1 / a,
        "log1p": lambda a: E.log(1 + a),
        "expm1": lambda a: E.exp(a) - 1,
        "log2": lambda a: E.log(a) / E.log(E.c(2)),
        "log10": lambda a: E.log(a) / E.log(E.c(10)),
        "exp2": lambda a: E.power(E.c(2), a),
        "tanh": lambda a: _tanh(E, a),
        "cos": lambda a: _trig(E, a, "cos"),
        "sin": lambda a: _trig(E, a, "sin"),
    }.get(name)
    if f is None:
        raise Unsupported(f"ufunc {name}")
    if name == "sqrt" and is_cplx(x):
        f = E.sqrt_complex
    if name in ("exp", "expm1", "exp2") and getattr(E, "exp_log", None) is not None:
        E.exp_log.append(arr(x).copy())
    return _map(f, x)


def _tanh(E, a):
    e = E.exp(2 * a)
    return (e - 1) / (e + 1)


def _trig(E, a, which):
    """cos / sin: exact at (floating-point) multiples of pi/2, otherwise an uninterpreted function."""
    c = a.const_complex()
    if c is not None and c[1] == 0:
        q = float(c[0]) / (math.pi / 2)
        k = round(q)
        if abs(q - k) < 1e-12:
            return of(E.R, [[1, 0, -1, 0], [0, 1, 0, -1]][which == "sin"][k % 4])
    Engine_impl = type(E).ufun_impl
    Engine_impl.setdefault(which, (lambda z, f=getattr(math, which): f(z.real)))
    return E.ufun(which, a)


def _cosine(j, N):
    """cos(2 pi j / N) for multiples of 1/8 and 1/12 of a turn"""
    q = Fraction(j, N) % 1
    q = min(q, 1 - q)
    sign = 1
    if q > Fraction(1, 4):
        q, sign = Fraction(1, 2) - q, -1
    rat = {Fraction(0): 1, Fraction(1, 6): Fraction(1, 2), Fraction(1, 4): 0}
    if q in rat:
        return sign * rat[q]
    rad = {Fraction(1, 8): 2, Fraction(1, 12): 3}
    if q not in rad:
        raise Unsupported("fft length")
    return S.ENG.sqrt(of(_R(), rad[q])) * Fraction(sign, 2)


def _irfft(a, n=None, axis=-1, norm=None, out=None):
    """inverse real DFT of a half spectrum (numpy's conventions; n even or odd)"""
    a = arr(a)
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    m = v.shape[-1]
    N = 2 * (m - 1) if n is None else int(n)
    if norm not in (None, "backward", "forward", "ortho"):
        raise Unsupported("fft norm")
    R = _R()
    o = _empty(v.shape[:-1] + (N,), dtype=object)
    sc = {"forward": Fraction(1), "ortho": None}.get(norm, Fraction(1, N))
    if sc is None:
        r = math.isqrt(N)
        if r * r != N:
            raise Unsupported("irrational fft scale")
        sc = Fraction(1, r)
    tab = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}
    for idx in np.ndindex(*v.shape[:-1]):
        for k in range(N):
            t = []
            for j in range(min(m, N // 2 + 1)):
                x = of(R, v[idx + (j,)])
                if 4 * j * k % N == 0:
                    c, d = tab[4 * j * k // N % 4]
                else:
                    c, d = _cosine(j * k, N), _cosine(4 * j * k - N, 4 * N)
                w = 1 if j == 0 or 2 * j == N else 2
                t.append((x.real * c - x.imag * d) * w)
            o[idx + (k,)] = R.ssum(t) * sc
    return wrap0(np.moveaxis(o, -1, axis), False)


_BIN = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b,
    "power": lambda a, b: a ** b,
    "float_power": lambda a, b: a ** b,
    "maximum": _pymax2,
    "minimum": _pymin2,
    "fmax": _pymax2,
    "fmin": _pymin2,
}
_CMP = {
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
}


def _hypot(a, b):
    a, b = of(_R(), a), of(_R(), b)
    z = b.coef and b._norm_of_parts_root(a)
    return S.ENG.absolute(z if z else a + b * _R().I())


def _ufunc(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    if not active():
        raise Unsupported("symbolic array used outside a symbolic run")
    if method == "__call__":
        where = kw.get("where", True)
        if name in _BIN:
            r = _map2(_BIN[name], inputs[0], inputs[1])
        elif name in _CMP:
            r = _mapbool2(_CMP[name], inputs[0], inputs[1])
            if out is not None and out[0] is not None:
                out[0][...] = r
                return out[0]
            return r
        elif name == "matmul":
            r = _matmul(*inputs)
        elif name in ("logical_and", "logical_or", "logical_not", "logical_xor", "bitwise_and"):
            return ufunc(*[_tobool(i) if has_sym(i) else i for i in inputs])
        elif name == "isnan" or name == "isinf":
            return _orig_zeros(_shape(inputs[0]), dtype=bool)
        elif name == "isfinite":
            return _orig["ones"](_shape(inputs[0]), dtype=bool)
        elif name == "hypot":
            x = _map2(lambda a, b: _hypot(a, b), *inputs)
            r = x
        elif name == "arctan2":
            r = _map2(lambda y, x: S.ENG.angle(x + y * _R().I()), *inputs)
        elif name == "vecdot":
            r = _sum(_map2(lambda a, b: a.conjugate() * b, *inputs), -1)
        elif name == "square" and len(inputs) == 1:
            r = _map(lambda a: a * a, inputs[0])
        elif name == "floor_divide" or name == "remainder":
            raise Unsupported(name)
        elif len(inputs) == 1:
            r = _more().ufunc(name, inputs)
            if r is None:
                r = _fmap1(name, inputs[0])
        else:
            r = _more().ufunc(name, inputs)
            if r is None:
                raise Unsupported(f"ufunc {name}")
        if where is not True:
            w = _asarr(where)
            if out is None or out[0] is None:
                raise Unsupported("ufunc where= without out=")
            o = out[0]
            r = arr(r)
            ww = _broadcast_to(w, o.shape)
            rr = _broadcast_to(r.view(np.ndarray), o.shape)
            o[ww] = rr[ww]
            return o
        return _out(r, out)
    if method == "at" and name in _BIN:
        a, idx, b = inputs
        if not isinstance(idx, tuple):
            idx = (idx,)
        pos = _orig["array"](range(int(np.prod(a.shape)))).reshape(a.shape)[idx]
        vals = _broadcast_to(arr(b).view(np.ndarray), pos.shape)
        for t, q in enumerate(pos.ravel()):
            i = np.unravel_index(q, a.shape)
            a[i] = _BIN[name](a[i], vals.ravel()[t])
        return None
    if method == "reduce":
        x = inputs[0]
        axis = kw.get("axis", 0)
        kd = kw.get("keepdims", False)
        init = kw.get("initial", None)
        if kw.get("where", True) is not True:
            raise Unsupported("reduce where=")
        if name == "add":
            r = _sum(x, axis, kd)
            if init is not None and init is not np._NoValue and not (isinstance(init, (int, float)) and init == 0):
                r = r + init
        elif name == "multiply":
            r = _reduce(_pymul, x, axis, kd)
        elif name == "maximum":
            r = _reduce(_pymax, x, axis, kd)
        elif name == "minimum":
            r = _reduce(_pymin, x, axis, kd)
        elif name in ("logical_and", "logical_or"):
            return ufunc.reduce(_tobool(x), axis=axis, keepdims=kd)
        elif name == "logaddexp":
            r = _fmap1("log", _sum(_fmap1("exp", x), axis, kd))
        else:
            raise Unsupported(f"{name}.reduce")
        return _out(r, out)
    if method == "outer":
        a, b = arr(inputs[0]), arr(inputs[1])
        a2 = a.reshape(a.shape + (1,) * b.ndim)
        return ufunc(a2, b)
    if method == "accumulate" and name == "add":
        x = arr(inputs[0])
        ax = kw.get("axis", 0)
        v = _moveaxis(x.view(np.ndarray), ax, 0)
        b = _empty(v.shape, dtype=object)
        for k in range(v.shape[0]):
            b[k] = v[k] if k == 0 else arr(arr(b[k - 1]) + arr(v[k])).view(np.ndarray)
        return wrap(_moveaxis(b, 0, ax), is_cplx(x))
    if method == "accumulate" and name == "multiply":
        return _more().cumprod(inputs[0], axis=kw.get("axis", 0))
    raise Unsupported(f"{name}.{method}")


def _matmul(a, b):
    a, b = arr(a), arr(b)
    cp = is_cplx(a) or is_cplx(b)
    A, B = a.view(np.ndarray), b.view(np.ndarray)
    sq1 = sq2 = False
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if A.ndim == 1:
        A = A[None, :]
        sq1 = True
    if B.ndim == 1:
        B = B[:, None]
        sq2 = True
    if A.shape[-1] != B.shape[-2]:
        raise ValueError(f"matmul: mismatch in core dimension {A.shape} {B.shape}")
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = _broadcast_to(A, bs + A.shape[-2:])
    B = _broadcast_to(B, bs + B.shape[-2:])
    out = _empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
    R = _R()
    for idx in np.ndindex(*bs):
        Ai, Bi = A[idx], B[idx]
        n, k, m = Ai.shape[0], Ai.shape[1], Bi.shape[1]
        for i in range(n):
            for j in range(m):
                out[idx + (i, j)] = R.ssum([Ai[i, l] * Bi[l, j] for l in range(k)])
    if sq1:
        out = out[..., 0, :]
    if sq2:
        out = out[..., 0]
    return wrap(out, cp)


def _dot(a, b, out=None):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim <= 2 and b.ndim <= 2:
        return _matmul(a, b)
    raise Unsupported("dot of high dimensional arrays")


def _einsum(*ops, **kw):
    if not isinstance(ops[0], str):
        raise Unsupported("einsum operand form")
    sub = ops[0].replace(" ", "")
    xs = [arr(o) for o in ops[1:]]
    cp = any(is_cplx(x) for x in xs)
    if "->" in sub:
        lhs, rhs = sub.split("->")
    else:
        lhs = sub
        cnt = {}
        for ch in lhs.replace(",", "").replace("...", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        rhs = ("..." if "..." in lhs else "") + "".join(sorted(c for c in cnt if cnt[c] == 1))
    terms = lhs.split(",")
    # expand ellipsis
    if "..." in lhs:
        maxe = 0
        for t, x in zip(terms, xs):
            if "..." in t:
                maxe = max(maxe, x.ndim - len(t.replace("...", "")))
        el = [chr(0x400 + k) for k in range(maxe)]
        nt = []
        for t, x in zip(terms, xs):
            if "..." in t:
                ne = x.ndim - len(t.replace("...", ""))
                t = t.replace("...", "".join(el[maxe - ne :]))
            nt.append(t)
        terms = nt
        rhs = rhs.replace("...", "".join(el))
    dims = {}
    for t, x in zip(terms, xs):
        if len(t) != x.ndim:
            raise ValueError("einsum dims")
        for ch, n in zip(t, x.shape):
            if dims.get(ch, 1) == 1:
                dims[ch] = n
            elif n not in (1, dims[ch]):
                raise ValueError("einsum dim mismatch")
    summed = [c for c in dims if c not in rhs]
    out = _empty(tuple(dims[c] for c in rhs), dtype=object)
    R = _R()
    vs = [x.view(np.ndarray) for x in xs]
    for oi in np.ndindex(*out.shape):
        env = dict(zip(rhs, oi))
        acc = []
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            p = None
            for t, v in zip(terms, vs):
                e = v[tuple(env[c] if v.shape[k] != 1 else 0 for k, c in enumerate(t))]
                p = e if p is None else p * e
            acc.append(p)
        out[oi] = R.ssum(acc)
    return wrap(out, cp)


# ---------------------------------------------------------------------------- linalg
def _batch(x):
    x = arr(x)
    return x, x.view(np.ndarray), x.shape[:-2]


def _minor_det(M, rows, cols, memo):
    key = (rows, cols)
    if key in memo:
        return memo[key]
    R = _R()
    if len(rows) == 0:
        r = of(R, 1)
    elif len(rows) == 1:
        r = M[rows[0], cols[0]]
    else:
        i = rows[0]
        terms = []
        for k, j in enumerate(cols):
            if M[i, j].coef == 0:
                continue
            d = _minor_det(M, rows[1:], cols[:k] + cols[k + 1 :], memo)
            t = M[i, j] * d
            terms.append(-t if k % 2 else t)
        r = R.ssum(terms)
    memo[key] = r
    return r


def _det1(M):
    n = M.shape[0]
    return _minor_det(M, tuple(range(n)), tuple(range(n)), {})


def _adj1(M):
    n = M.shape[0]
    out = _empty((n, n), dtype=object)
    memo = {}
    al = tuple(range(n))
    for i in range(n):
        for j in range(n):
            rows = al[:j] + al[j + 1 :]
            cols = al[:i] + al[i + 1 :]
            d = _minor_det(M, rows, cols, memo)
            out[i, j] = -d if (i + j) % 2 else d
    return out


def _la_det(a):
    x, v, bs = _batch(a)
    _sq(v)
    out = _empty(bs, dtype=object)
    for idx in np.ndindex(*bs):
        out[idx] = _det1(v[idx])
    return wrap(out, is_cplx(x))


def _sq(v):
    if v.ndim < 2 or v.shape[-1] != v.shape[-2]:
        raise nla.LinAlgError("Last 2 dimensions of the array must be square")


def _la_slogdet(a):
    d = _la_det(a)
    E = S.ENG
    ab = _fmap1("absolute", d)
    sgn = d / ab
    lg = _fmap1("log", ab)
    from collections import namedtuple

    return SlogdetResult(sgn, lg)


from collections import namedtuple  # noqa: E402

SlogdetResult = namedtuple("SlogdetResult", ["sign", "logabsdet"])
EighResult = namedtuple("EighResult", ["eigenvalues", "eigenvectors"])
SVDResult = namedtuple("SVDResult", ["U", "S", "Vh"])


def _inv1(M):
    n = M.shape[0]
    if n > 6:
        raise Unsupported(f"inverse of a {n}x{n} symbolic matrix")
    blocks = _blocks(M)
    out = _empty((n, n), dtype=object)
    out[...] = of(_R(), 0)
    for b in blocks:
        sub = M[np.ix_(b, b)]
        det = _det1(sub)
        if det.coef == 0:
            raise nla.LinAlgError("Singular matrix")
        adj = _adj1(sub)
        for i, p in enumerate(b):
            for j, q in enumerate(b):
                out[p, q] = adj[i, j] / det
    return out


def _blocks(M):
    n = M.shape[0]
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i

    for i in range(n):
        for j in range(n):
            if i != j and M[i, j].coef != 0:
                a, b = find(i), find(j)
                if a != b:
                    comp[b] = a
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())


def _la_inv(a):
    x, v, bs = _batch(a)
    _sq(v)
    out = _empty(v.shape, dtype=object)
    for idx in np.ndindex(*bs):
        if _is_opaque("inv"):
            k = "cplx" if is_cplx(x) else "real"
            out[idx] = _opaque("inv", [v[idx]], [(v[idx].shape, k)], lambda M: [_ORIG_INV(M)])[0]
        else:
            out[idx] = _inv1(v[idx])
    return wrap0(out, is_cplx(x))


def _la_solve(a, b):
    A, B = arr(a), arr(b)
    _sq(A.view(np.ndarray))
    # numpy 2: b is a vector only if it is 1-d
    vec = B.ndim == 1
    Ai = _la_inv(A)
    if vec:
        return _matmul(Ai, B)
    r = _matmul(Ai, B)
    return r


def _la_pinv(a, rcond=None, hermitian=False, rtol=None, *args, **k):
    """full rank: the inverse / (A^H A)^-1 A^H / A^H (A A^H)^-1.  Cut-offs below 1e-9 are out of scope; a larger one
    is decided for 2x2 matrices (smaller singular value dropped or not), the truncated inverse being that of rank one"""
    x = arr(a)
    xh = np.conj(np.swapaxes(x, -2, -1))
    if x.shape[-1] < x.shape[-2]:
        return np.matmul(np.linalg.inv(np.matmul(xh, x)), xh)
    if x.shape[-1] > x.shape[-2]:
        return np.matmul(xh, np.linalg.inv(np.matmul(x, xh)))
    rc = rcond if rcond is not None else rtol
    if rc is None or not isinstance(rc, (int, float)) or not 1e-9 < rc < 1 or x.shape[-1] != 2:
        return np.linalg.inv(x)
    E, R = S.ENG, _R()
    out = np.linalg.inv(x)
    v, o, h = x.view(np.ndarray), out.view(np.ndarray), xh.view(np.ndarray)
    rc = of(R, rc)
    for idx in np.ndindex(*x.shape[:-2]):
        M = v[idx]
        F = R.ssum([z * z.conjugate() for z in M.ravel()]).real
        d = R.ssum([M[0, 0] * M[1, 1], -(M[0, 1] * M[1, 0])])
        # s2 <= rc s1  <=>  |det|^2 (1 + rc^2)^2 <= rc^2 F^2
        t = 1 + rc * rc
        if not E.decide((d * d.conjugate()).real * t * t - rc * rc * F * F, ">"):
            o[idx] = np.array([[h[idx][i, j] / F for j in range(2)] for i in range(2)], dtype=object)
    return out


def _la_cholesky(a, upper=False):
    x, v, bs = _batch(a)
    _sq(v)
    E = S.ENG
    n = v.shape[-1]
    out = _empty(v.shape, dtype=object)
    R = _R()
    for idx in np.ndindex(*bs):
        M = v[idx]
        if _is_opaque("cholesky"):
            k = "cplx" if is_cplx(x) else "real"
            out[idx] = _opaque("cholesky", [M], [(M.shape, k)], lambda M: [_ORIG_CHOL(M)])[0]
            continue
        L = _empty((n, n), dtype=object)
        L[...] = of(R, 0)
        for j in range(n):
            d = R.ssum([M[j, j].real] + [-(L[j, k] * L[j, k].conjugate()) for k in range(j)])
            if d.sign_hint() not in ("pos",):
                E.assume(d, ">", None)
            L[j, j] = E.sqrt(d)
            for i in range(j + 1, n):
                t = R.ssum([M[i, j]] + [-(L[i, k] * L[j, k].conjugate()) for k in range(j)])
                L[i, j] = t / L[j, j]
        out[idx] = L
    r = wrap0(out, is_cplx(x))
    if upper:
        r = r.conj().swapaxes(-1, -2)
    return r


def _numeric(M):
    """complex ndarray of the sample-point values of an object matrix (None when unavailable)."""
    E = S.ENG
    cache = {}
    try:
        vals = [E.evalf(t, E.point, cache) for t in M.ravel()]
    except (KeyError, ValueError, ZeroDivisionError, OverflowError):
        return None
    return _cplx_array(vals, M.shape)


def _cplx_array(vals, shape):
    out = _orig_zeros(shape, dtype=np.complex128)
    f = out.ravel()
    for i, v in enumerate(vals):
        f[i] = v
    return f.reshape(shape)


def _opaque(name, ins, specs, compute):
    """Uninterpreted linear-algebra routine: equal operands give the same fresh symbols."""
    E = S.ENG
    memo = E.__dict__.setdefault("opaque_memo", {})
    key = (name,) + tuple((m.shape, tuple(t.key() for t in m.ravel())) for m in ins)
    if key in memo:
        return memo[key]
    pts = [_numeric(m) for m in ins]
    vals = compute(*pts) if all(p is not None for p in pts) else None
    k = len(memo)
    outs = []
    for j, (shape, kind) in enumerate(specs):
        o = _empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            nm = f"{name}{k}_{j}" + "".join(f"_{i}" for i in idx)
            if kind == "cplx":
                o[idx] = E.sym_cplx(nm)
            else:
                o[idx] = E.sym_real(nm, positive=kind == "pos")
            if vals is not None:
                v = complex(vals[j][idx])
                ((f, _),) = o[idx].fac.items()
                (m,) = E.R.factors[f]
                i0 = E.R.monovars(m)[0][0]
                E.point[i0] = v if kind == "cplx" else complex(v.real)
                c = E.R.vars[i0].conj
                if c != i0:
                    E.point[c] = v.conjugate()
        outs.append(o)
    memo[key] = outs
    note = f"np.linalg.{name} uninterpreted (a function of its exact operand)"
    if note not in E.assumed:
        E.assumed.append(note)
    return outs


def _is_opaque(name):
    return name in S.ENG.policy.get("opaque", ())



def _herm_lower(M):
    n = M.shape[0]
    H = _empty((n, n), dtype=object)
    for i in range(n):
        H[i, i] = M[i, i].real
        for j in range(i):
            H[i, j] = M[i, j]
            H[j, i] = M[i, j].conjugate()
    return H


def _eigh1(M, cplx):
    """One symbolic Hermitian eigendecomposition -> (list lam ascending, V)."""
    E = S.ENG
    R = _R()
    n = M.shape[0]
    H = _herm_lower(M)
    one, zero = of(R, 1), of(R, 0)
    if n == 1:
        V = _empty((1, 1), dtype=object)
        V[0, 0] = one
        return [H[0, 0]], V
    free = getattr(E, "eigh_free", None)
    if free is not None:
        r = free(wrap0(H.copy(), cplx))
        if r is not None:
            return list(arr(r[0]).view(np.ndarray)), arr(r[1]).view(np.ndarray)
    if _is_opaque("eigh"):
        return _eigh_opaque(H, cplx)
    # registered decompositions (affine match  H = r K + c I)
    for K, lam, V in E.contracts:
        if K.shape != H.shape:
            continue
        m = _affine(H, K)
        if m is None:
            continue
        r, c = m
        if (r - 1).coef == 0:
            r = r / r
        elif (r + 1).coef == 0:
            r = -(r / r)
        sg = r.sign_hint()
        if sg in ("pos",):
            neg = False
        elif sg == "neg":
            neg = True
        else:
            neg = not (r > 0)
        ll = [x * r + c for x in lam]
        VV = V
        if neg:
            ll = ll[::-1]
            VV = V[:, ::-1]
        return ll, VV
    # block structure
    bl = _blocks(H)
    if len(bl) == n or all(len(b) <= 2 for b in bl):
        pairs = []
        for b in bl:
            if len(b) == 1:
                v = [zero] * n
                v[b[0]] = one
                pairs.append((H[b[0], b[0]], v))
            else:
                for l, (p, q) in _eigh2(H[b[0], b[0]], H[b[1], b[0]], H[b[1], b[1]]):
                    v = [zero] * n
                    v[b[0]], v[b[1]] = p, q
                    pairs.append((l, v))
        if len(pairs) > 1 and len(bl) > 1:

            def cmp(i, j):
                if i == j:
                    return 0
                a, b = pairs[i][0], pairs[j][0]
                if a < b:
                    return -1
                if b < a:
                    return 1
                return 0

            order = sorted(range(n), key=functools.cmp_to_key(cmp))
            pairs = [pairs[i] for i in order]
        V = _empty((n, n), dtype=object)
        for k, (_, v) in enumerate(pairs):
            for i in range(n):
                V[i, k] = v[i]
        return [p[0] for p in pairs], V
    return _eigh_opaque(H, cplx)


def _eigh_opaque(H, cplx):
    n = H.shape[0]
    kind = "pos" if S.ENG.policy.get("eigh_pos", True) else "real"

    def comp(M):
        return _ORIG_EIGH(M if cplx else M.real)

    lam, V = _opaque("eigh", [H], [((n,), kind), ((n, n), "cplx" if cplx else "real")], comp)
    return list(lam), V


def _affine(H, K):
    n = H.shape[0]
    R = _R()
    r = None
    for i in range(n):
        for j in range(i):
            h, k = H[i, j], K[i, j]
            if k.coef == 0:
                if h.coef != 0:
                    return None
                continue
            if r is None:
                r = h * k.inverse()
                if h.coef == 0 or not r.is_real():
                    return None
            elif (h - r * k).coef != 0:
                return None
    if r is None:
        # diagonal K
        d = K[1, 1] - K[0, 0]
        if d.coef == 0:
            return None
        r = (H[1, 1] - H[0, 0]) / d
        if r.coef == 0:
            return None
    c = H[0, 0] - r * K[0, 0]
    for i in range(1, n):
        if (H[i, i] - r * K[i, i] - c).coef != 0:
            return None
    return r, c


def _eigh2(a, b, d):
    """[[a, conj b],[b, d]] ; b != 0 (generic)."""
    E = S.ENG
    bb = b * b.conjugate()
    diff = a - d
    D2 = diff * diff + 4 * bb
    if D2.sign_hint() not in ("pos",):
        E.assume(D2, ">", None)
    D = E.sqrt(D2)
    half = Fraction(1, 2)
    res = []
    for sg in (-1, 1):
        lam = (a + d + sg * D) * half
        # eigenvector (conj(b), lam - a); |.|^2 = bb + (lam-a)^2 = D*(D + sg*(d-a))/2
        t = lam - a
        N2 = D * (D + sg * (d - a)) * half
        w = D + sg * (d - a)
        if w.sign_hint() != "pos":
            E.assume(w, ">", None)
        N = E.sqrt(N2)
        p, q = b.conjugate() / N, t / N
        if E.policy.get("eig_phase"):
            u = E.R.unimodular(f"ph{len(E.R.vars)}")
            E.base.append((E.R.vars[-2].name, "unim", u))
            p, q = p * u, q * u
        res.append((lam, (p, q)))
    return res


def _la_eigh(a, UPLO="L"):
    x, v, bs = _batch(a)
    _sq(v)
    if UPLO != "L":
        v = v.swapaxes(-1, -2)
        v = _map(lambda t: t.conjugate(), wrap0(v, True)).view(np.ndarray)
    n = v.shape[-1]
    lam = _empty(bs + (n,), dtype=object)
    V = _empty(bs + (n, n), dtype=object)
    for idx in np.ndindex(*bs):
        l, w = _eigh1(v[idx], is_cplx(x))
        lam[idx] = _orig_array(l, dtype=object) if False else _objlist(l)
        V[idx] = w
    return EighResult(wrap0(lam, False), wrap0(V, is_cplx(x)))


def _objlist(l):
    b = _empty(len(l), dtype=object)
    for i, x in enumerate(l):
        b[i] = x
    return b


def _la_eigvalsh(a, UPLO="L"):
    return _la_eigh(a, UPLO)[0]


def _la_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    x, v, bs = _batch(a)
    E = S.ENG
    m, n = v.shape[-2:]
    U = _empty(bs + (m, m), dtype=object)
    s = _empty(bs + (min(m, n),), dtype=object)
    Vh = _empty(bs + (n, n), dtype=object)
    for idx in np.ndindex(*bs):
        M = v[idx]
        done = False
        for K, u, ss, vv in getattr(E, "svd_contracts", []):
            if K.shape != M.shape:
                continue
            # M = r K with r > 0
            r = None
            ok = True
            for p, q in zip(M.ravel(), K.ravel()):
                if q.coef == 0:
                    ok = ok and p.coef == 0
                elif r is None:
                    r = p * q.inverse()
                else:
                    ok = ok and (p - r * q).coef == 0
                if not ok:
                    break
            if not ok or r is None or r.sign_hint() != "pos":
                continue
            U[idx], Vh[idx] = u, vv
            s[idx] = _objlist([t * r for t in ss])
            done = True
            break
        free = getattr(E, "svd_free", None)
        if not done and free is not None:
            r = free(wrap0(M.copy(), is_cplx(x)))
            if r is not None:
                U[idx], Vh[idx] = arr(r[0]).view(np.ndarray), arr(r[2]).view(np.ndarray)
                s[idx] = list(arr(r[1]).view(np.ndarray))
                done = True
        if not done and _is_opaque("svd"):
            k = "cplx" if is_cplx(x) else "real"
            U[idx], sv, Vh[idx] = _opaque(
                "svd",
                [M],
                [((m, m), k), ((min(m, n),), "pos"), ((n, n), k)],
                lambda M: _ORIG_SVD(M),
            )
            s[idx] = sv
            done = True
        if not done:
            raise Unsupported("svd of an unregistered symbolic matrix")
    if not compute_uv:
        return wrap0(s, False)
    c = is_cplx(x)
    return SVDResult(wrap0(U, c), wrap0(s, False), wrap0(Vh, c))


def _la_norm(x, ord=None, axis=None, keepdims=False):
    x = arr(x)
    if ord not in (None, 2, "fro", 1):
        raise Unsupported(f"norm ord={ord}")
    if ord == 1:
        if x.ndim != 1 and (axis is None or isinstance(axis, tuple)):
            raise Unsupported("matrix 1-norm")
        return _sum(_fmap1("absolute", x), axis, keepdims)
    if ord == 2 and (isinstance(axis, tuple) or (axis is None and x.ndim == 2)):
        a = axis if axis is not None else (-2, -1)
        if len(a) != 2 or x.ndim < 2:
            raise Unsupported("spectral norm axes")
        a = tuple(k % x.ndim for k in a)
        m = wrap0(np.moveaxis(x.view(np.ndarray), a, (-2, -1)), is_cplx(x))
        r = _reduce(_pymax, _la_svd(m)[1], -1, False)
        if keepdims:
            raise Unsupported("keepdims")
        return r
    p = _map(lambda a: a * a.conjugate(), x, cplx=False)
    return _fmap1("sqrt", _sum(p, axis, keepdims))


def _la_multi_dot(xs):
    return functools.reduce(_matmul, xs)


def _la_matrix_power(a, n):
    if n == 0:
        return _eye(arr(a).shape[-1])
    b = _la_inv(a) if n < 0 else arr(a)
    r = b
    for _ in range(abs(n) - 1):
        r = _matmul(r, b)
    return r


# ---------------------------------------------------------------------------- numpy functions
def _iscomplexobj(x):
    return is_cplx(x)


def _where(cond, *xy):
    if has_sym(cond):
        cond = _tobool(cond)
    if not xy:
        return _orig_where(cond)
    x, y = arr(xy[0]), arr(xy[1])
    c, a, b = np.broadcast_arrays(_asarr(cond), x.view(np.ndarray), y.view(np.ndarray))
    out = _empty(c.shape, dtype=object)
    fo = out.reshape(-1)
    for i, (k, p, q) in enumerate(zip(c.ravel(), a.ravel(), b.ravel())):
        fo[i] = p if k else q
    return wrap(out, is_cplx(x) or is_cplx(y)) if out.ndim else out[()]


def _f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    r = _sum(a, axis, keepdims is True)
    return _out(r, out)


def _f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return _out(_mean(a, axis, keepdims is True), out)


def _average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return _mean(a, axis, keepdims)
    raise Unsupported("average weights")


def _allclose(a, b, *args, **kw):
    d = arr(a) - arr(b)
    return all(x.coef == 0 for x in arr(d).view(np.ndarray).ravel())


def _isclose(a, b, *args, **kw):
    d = arr(arr(a) - arr(b))
    return _orig_array([x.coef == 0 for x in d.view(np.ndarray).ravel()]).reshape(d.shape)


def _array(obj, *args, **kw):
    dt = kw.get("dtype", args[0] if args else None)
    if isinstance(obj, SymArray):
        r = obj.copy() if kw.get("copy", True) is not False else obj
        if dt is not None and np.dtype(dt) != object:
            r = r.astype(dt)
        return r
    if isinstance(obj, np.ndarray) and _dt(obj) == object or has_sym(obj):
        r = arr(obj)
        if r is obj:
            r = r.copy()
        if dt is not None and np.dtype(dt) != object:
            r = r.astype(dt)
        nd = kw.get("ndmin", 0)
        while r.ndim < nd:
            r = r[None]
        return r
    return _orig["array"](obj, *args, **kw)


def _asarray(obj, dtype=None, *a, **k):
    if isinstance(obj, SymArray):
        if dtype is not None and np.dtype(dtype) != object:
            return obj.astype(dtype)
        return obj
    if has_sym(obj):
        r = arr(obj)
        return r.astype(dtype) if dtype is not None and np.dtype(dtype) != object else r
    return _orig["asarray"](obj, dtype, *a, **k) if dtype is not None else _orig["asarray"](obj, *a, **k)


def _concatenate(arrays, axis=0, out=None, **kw):
    arrays = list(arrays)
    cp = any(is_cplx(a) for a in arrays)
    r = _orig["concatenate"]([arr(a).view(np.ndarray) for a in arrays], axis=axis)
    return wrap0(r, cp)


def _stack(arrays, axis=0, out=None, **kw):
    arrays = [arr(a) for a in arrays]
    cp = any(is_cplx(a) for a in arrays)
    r = _orig["stack"]([a.view(np.ndarray) for a in arrays], axis=axis)
    return wrap0(r, cp)


def _mk_join(name):
    def f(arrays, *a, **k):
        arrays = [arr(x) for x in arrays]
        cp = any(is_cplx(x) for x in arrays)
        return wrap0(_orig[name]([x.view(np.ndarray) for x in arrays], *a, **k), cp)

    return f


def _diag(v, k=0):
    v = arr(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        b = _empty((n, n), dtype=object)
        b[...] = of(_R(), 0)
        for i in range(v.shape[0]):
            r, c = (i, i + k) if k >= 0 else (i - k, i)
            b[r, c] = v[i]
        return wrap0(b, is_cplx(v))
    return _diagonal(v, k)


def _outer(a, b, out=None):
    a, b = arr(a).reshape(-1), arr(b).reshape(-1)
    return a[:, None] * b[None, :]


def _vdot(a, b):
    return _sum(arr(a).reshape(-1).conj() * arr(b).reshape(-1))


def _inner(a, b):
    return _matmul(a, arr(b).swapaxes(-1, -2)) if arr(b).ndim > 1 else _matmul(a, b)


def _tensordot(a, b, axes=2):
    a, b = arr(a), arr(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [i % a.ndim for i in ax]
    bx = [i % b.ndim for i in bx]
    ka = [i for i in range(a.ndim) if i not in ax]
    kb = [i for i in range(b.ndim) if i not in bx]
    A = a.transpose(ka + ax).reshape(int(_prod([a.shape[i] for i in ka], dtype=int)), -1)
    B = b.transpose(bx + kb).reshape(-1, int(_prod([b.shape[i] for i in kb], dtype=int)))
    r = _matmul(A, B)
    return r.reshape([a.shape[i] for i in ka] + [b.shape[i] for i in kb])


def _angle(z, deg=False):
    return _map(S.ENG.angle, z, cplx=False)


def _zeros_like(a, dtype=None, **kw):
    return _full_like(a, 0, dtype, **kw)


def _ones_like(a, dtype=None, **kw):
    return _full_like(a, 1, dtype, **kw)


def _full_like(a, val, dtype=None, shape=None, **kw):
    shape = _shape(a) if shape is None else shape
    if dtype is not None and np.dtype(dtype).kind in "biu":
        return _orig["full"](shape, val, dtype=dtype)
    b = _empty(shape, dtype=object)
    b[...] = of(_R(), val) if not isinstance(val, np.ndarray) else arr(val).view(np.ndarray)
    cp = is_cplx(a) if dtype is None or np.dtype(dtype) == object else np.dtype(dtype).kind == "c"
    return wrap0(b, cp)


def _empty_like(a, dtype=None, **kw):
    return _full_like(a, 0, dtype)


def _sort(a, axis=-1, **kw):
    a = arr(a)
    idx = _argsort(a, axis)
    return wrap0(_take_along(a.view(np.ndarray), idx, axis), is_cplx(a))


def _count_nonzero(a, *x, **k):
    return _orig["count_nonzero"](_tobool(a), *x, **k)


def _linalg_ns():
    return {
        "det": _la_det,
        "slogdet": _la_slogdet,
        "inv": _la_inv,
        "solve": _la_solve,
        "cholesky": _la_cholesky,
        "eigh": _la_eigh,
        "eigvalsh": _la_eigvalsh,
        "svd": _la_svd,
        "norm": _la_norm,
        "pinv": _la_pinv,
        "multi_dot": _la_multi_dot,
        "matrix_power": _la_matrix_power,
        **_more().LINALG,
    }


def _more():
    from . import npmore

    return npmore


HANDLERS = {
    "real": _real,
    "imag": _imag,
    "iscomplexobj": _iscomplexobj,
    "isrealobj": lambda x: not is_cplx(x),
    "where": _where,
    "sum": _f_sum,
    "mean": _f_mean,
    "average": _average,
    "prod": lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _reduce(
        _pymul, a, axis, keepdims is True
    ),
    "max": lambda a, axis=None, out=None, keepdims=False, **k: _reduce(_pymax, a, axis, keepdims is True),
    "amax": lambda a, axis=None, out=None, keepdims=False, **k: _reduce(_pymax, a, axis, keepdims is True),
    "min": lambda a, axis=None, out=None, keepdims=False, **k: _reduce(_pymin, a, axis, keepdims is True),
    "amin": lambda a, axis=None, out=None, keepdims=False, **k: _reduce(_pymin, a, axis, keepdims is True),
    "argmax": lambda a, axis=None, out=None, keepdims=False: _argext(a, axis, True, keepdims is True),
    "argmin": lambda a, axis=None, out=None, keepdims=False: _argext(a, axis, False, keepdims is True),
    "argsort": lambda a, axis=-1, *x, **k: _argsort(a, axis),
    "sort": _sort,
    "trace": lambda a, offset=0, axis1=0, axis2=1, dtype=None, out=None: _trace(a, offset, axis1, axis2),
    "diagonal": _diagonal,
    "diag": _diag,
    "dot": _dot,
    "vdot": _vdot,
    "inner": _inner,
    "outer": _outer,
    "tensordot": _tensordot,
    "einsum": _einsum,
    "allclose": _allclose,
    "isclose": _isclose,
    "array_equal": lambda a, b, **k: _shape(a) == _shape(b) and _allclose(a, b),
    "concatenate": _concatenate,
    "stack": _stack,
    "hstack": _mk_join("hstack"),
    "vstack": _mk_join("vstack"),
    "dstack": _mk_join("dstack"),
    "angle": _angle,
    "zeros_like": _zeros_like,
    "ones_like": _ones_like,
    "full_like": _full_like,
    "empty_like": _empty_like,
    "clip": lambda a, a_min=None, a_max=None, out=None, **k: _clip(
        a, k.get("min", a_min), k.get("max", a_max)
    ),
    "std": lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: _fmap1(
        "sqrt", _var(a, axis, keepdims is True, ddof)
    ),
    "var": lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: _var(
        a, axis, keepdims is True, ddof
    ),
    "all": lambda a, axis=None, out=None, keepdims=False, **k: _orig["all"](
        _tobool(a), axis=axis, keepdims=keepdims is True
    ),
    "any": lambda a, axis=None, out=None, keepdims=False, **k: _orig["any"](
        _tobool(a), axis=axis, keepdims=keepdims is True
    ),
    "count_nonzero": _count_nonzero,
    "nan_to_num": lambda a, *x, **k: a,
    "copy": lambda a, *x, **k: arr(a).copy(),
    "ndim": lambda a: arr(a).ndim,
    "convolve": lambda a, v, mode="full": _convolve(a, v, mode),
    "cumsum": lambda a, axis=None, dtype=None, out=None: _ufunc(
        np.add, "accumulate", (arr(a) if axis is not None else arr(a).reshape(-1),), None, {"axis": axis or 0}
    ),
}

# functions that only rearrange elements: native implementation on the object view
def _convolve(a, v, mode="full"):
    a, v = arr(a), arr(v)
    n, m = len(a), len(v)
    out = [0] * (n + m - 1)
    terms = [(j, x) for j, x in enumerate(v.view(np.ndarray)) if not (isinstance(x, (int, float, complex)) and x == 0 or isinstance(x, S) and x.is_zero())]
    for k, x in enumerate(a.view(np.ndarray)):
        if isinstance(x, S) and x.is_zero():
            continue
        for j, y in terms:
            out[k + j] = out[k + j] + x * y
    x = _orig_stack_list(out, is_cplx(a) or is_cplx(v))
    if mode == "full":
        return x
    lo, hi = min(n, m), max(n, m)
    if mode == "same":
        o = (lo - 1) // 2
        return x[o:o + hi]
    return x[lo - 1:hi]


def _orig_stack_list(vals, cplx):
    o = _orig_array([0] * len(vals), dtype=object)
    for i, x in enumerate(vals):
        o[i] = x
    r = o.view(SymArray)
    r.cplx = cplx
    return r


_SHAPE_FUNCS = [
    "tile",
    "repeat",
    "split",
    "array_split",
    "hsplit",
    "vsplit",
    "swapaxes",
    "transpose",
    "moveaxis",
    "rollaxis",
    "squeeze",
    "expand_dims",
    "reshape",
    "ravel",
    "broadcast_to",
    "take",
    "take_along_axis",
    "flip",
    "fliplr",
    "flipud",
    "roll",
    "atleast_1d",
    "atleast_2d",
    "atleast_3d",
    "pad",
    "insert",
    "delete",
    "append",
    "matrix_transpose",
    "permute_dims",
    "shape",
    "size",
]


def _mk_shape(name):
    orig = _orig[name]

    def conv(x):
        if isinstance(x, SymArray):
            return x.view(np.ndarray)
        if isinstance(x, S):
            return arr(x).view(np.ndarray)
        return x

    def f(*args, **kw):
        cp = any(is_cplx(a) for a in args if isinstance(a, (SymArray, S)))
        na = [conv(a) for a in args]
        nk = {k: conv(v) for k, v in kw.items()}
        r = orig(*na, **nk)

        def back(t):
            if isinstance(t, np.ndarray) and _dt(t) == object:
                return wrap0(t, cp)
            if isinstance(t, (list, tuple)):
                return type(t)(back(u) for u in t)
            return t

        return back(r)

    return f


def dispatch(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    if "linalg" in mod:
        h = _linalg_ns().get(name)
    elif "fft" in mod:
        h = {"irfft": _irfft}.get(name)
    else:
        h = HANDLERS.get(name)
    if h is None:
        raise Unsupported(f"numpy function {mod}.{name}")
    return h(*args, **kwargs)


def _wrapper(name, orig, handler):
    @functools.wraps(orig)
    def w(*args, **kw):
        if active():
            for a in args:
                if has_sym(a):
                    return handler(*args, **kw)
            for a in kw.values():
                if has_sym(a):
                    return handler(*args, **kw)
        return orig(*args, **kw)

    w.__wrapped_sym__ = True
    return w


def _creator(name, orig):
    @functools.wraps(orig)
    def w(*args, **kw):
        if not active():
            return orig(*args, **kw)
        dt = kw.get("dtype")
        args = list(args)
        if name in ("zeros", "ones", "empty") and len(args) > 1:
            dt = args.pop(1)
        if name == "full" and len(args) > 2:
            dt = args.pop(2)
        if dt is not None and np.dtype(dt).kind in "biuSUmM":
            kw["dtype"] = dt
            return orig(*args, **kw)
        cp = dt is not None and np.dtype(dt).kind == "c"
        kw.pop("dtype", None)
        kw.pop("like", None)
        if name == "full":
            b = _empty(args[0], dtype=object)
            fill = args[1] if len(args) > 1 else kw["fill_value"]
            if dt is None and isinstance(fill, (bool, int, np.integer)):
                return orig(*args)
            b[...] = arr(fill).view(np.ndarray) if isinstance(fill, (np.ndarray, list)) else of(_R(), fill)
            return wrap0(b, cp or is_cplx(fill))
        base = orig(*args, **kw) if name != "empty" else _orig_zeros(*args, **kw)
        return SymArray(base, cplx=cp)

    w.__wrapped_sym__ = True
    return w


_installed = False


def install():
    """Patch the public numpy namespaces (idempotent).  Inactive outside symbolic runs."""
    global _installed
    if _installed:
        return
    _installed = True
    from . import npmore

    for k, v in npmore.HANDLERS.items():
        HANDLERS[k] = v
    for name in list(HANDLERS) + _SHAPE_FUNCS + [
        "array",
        "asarray",
        "asanyarray",
        "ascontiguousarray",
        "zeros",
        "ones",
        "empty",
        "eye",
        "identity",
        "full",
        "linspace",
    ]:
        if hasattr(np, name):
            _orig[name] = getattr(np, name)
    for name in _SHAPE_FUNCS:
        if name in _orig:
            HANDLERS[name] = _mk_shape(name)
    for name, h in HANDLERS.items():
        if name in _orig:
            setattr(np, name, _wrapper(name, _orig[name], h))
    for name in ("zeros", "ones", "empty", "eye", "identity", "full"):
        setattr(np, name, _creator(name, _orig[name]))
    np.array = _wrapper("array", _orig["array"], _array)
    for n in ("asarray", "asanyarray", "ascontiguousarray"):
        setattr(np, n, _wrapper(n, _orig[n], _asarray))
    for name, h in _linalg_ns().items():
        if hasattr(nla, name):
            _orig_la[name] = getattr(nla, name)
            setattr(nla, name, _wrapper(name, _orig_la[name], h))
    np.random.default_rng = _rng_sym
    # ufuncs called on python / S scalars and concrete numbers in symbolic mode
    for name in ("sqrt", "exp", "log", "cbrt"):
        uf = getattr(np, name)
        _orig[name] = uf
        setattr(np, name, _ScalarUfunc(uf, name))
    for name in ("abs", "absolute", "conj", "conjugate", "sign", "square"):
        uf = getattr(np, name)
        _orig[name] = uf
        setattr(np, name, _ScalarUfunc(uf, name, only_sym=True))
    for name in ("maximum", "minimum", "add", "subtract", "multiply", "divide", "true_divide", "matmul", "power"):
        uf = getattr(np, name)
        _orig[name] = uf
        setattr(np, name, _ScalarUfunc(uf, name, only_sym=True))


def _native_call(f):
    @functools.wraps(f)
    def w(*args, **kw):
        global _native
        _native += 1
        try:
            return f(*args, **kw)
        finally:
            _native -= 1

    return w


class _Generator(np.random.Generator):
    """numpy's generator: its compiled code must not meet the patched array constructors"""


for _n in dir(np.random.Generator):
    if not _n.startswith("_") and _n not in ("bit_generator",):
        setattr(_Generator, _n, _native_call(getattr(np.random.Generator, _n)))
_default_rng = np.random.default_rng


@functools.wraps(_default_rng)
def _rng_sym(*args, **kw):
    if not active():
        return _default_rng(*args, **kw)
    return _native_call(lambda: _Generator(_default_rng(*args, **kw).bit_generator))()


class _ScalarUfunc:
    """Proxy for a ufunc object: symbolic when active and fed symbols (or plain numbers)."""

    def __init__(self, uf, name, only_sym=False):
        self._uf = uf
        self._only = only_sym
        self.__name__ = name
        self.__doc__ = uf.__doc__

    def __call__(self, *args, **kw):
        if active():
            sym = any(isinstance(a, (S,)) or (isinstance(a, np.ndarray) and _dt(a) == object) for a in args)
            if sym and not any(isinstance(a, SymArray) for a in args):
                return _ufunc(self._uf, "__call__", args, kw.pop("out", None), kw)
            if sym:
                return self._uf(*args, **kw)
            if not self._only and len(args) == 1:
                a = args[0]
                if isinstance(a, (int, float, np.floating, np.integer)) and not isinstance(a, bool):
                    return getattr(S.ENG, self.__name__)(S.ENG.c(a))
                if isinstance(a, np.ndarray) and _dt(a).kind in "fc":
                    return _fmap1(self.__name__, a)
        return self._uf(*args, **kw)

    def __getattr__(self, k):
        return getattr(self._uf, k)


# ---- numpy-scalar behaviour of a symbolic scalar
def _s0(x):
    b = _empty((), dtype=object)
    b[()] = x
    return wrap0(b, not x.is_real())


def _scalar_methods():
    def arr_ufunc(self, ufunc, method, *inputs, out=None, **kw):
        return _ufunc(ufunc, method, inputs, out, kw)

    def arr_func(self, func, types, args, kwargs):
        return dispatch(func, args, kwargs)

    S.__array_ufunc__ = arr_ufunc
    S.__array_function__ = arr_func
    S.item = lambda self, *a: self
    S.tolist = lambda self: self
    S.copy = lambda self, *a, **k: self
    S.sum = lambda self, *a, **k: self
    S.mean = lambda self, *a, **k: self
    S.squeeze = lambda self, *a, **k: self
    S.max = S.min = S.sum
    S.shape = property(lambda self: ())
    S.ndim = property(lambda self: 0)
    S.size = property(lambda self: 1)
    S.T = property(lambda self: self)
    S.dtype = property(lambda self: np.dtype(np.float64 if self.is_real() else np.complex128))
    S.reshape = lambda self, *sh, **k: _s0(self).reshape(*sh)
    S.ravel = S.flatten = lambda self, *a, **k: _s0(self).reshape(1)
    S.transpose = lambda self, *a: self

    def astype(self, dt, **k):
        k = np.dtype(dt).kind
        return self.real if k == "f" else self

    S.astype = astype
    S.__getitem__ = lambda self, key: _s0(self)[key] if key != () else self


_scalar_methods()
