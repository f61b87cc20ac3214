"""Harness contexts (symbolic / numeric) and the per-property runner."""

import hashlib
import itertools
import json
import math
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

from . import nparr  # noqa: E402

nparr.install()

import z3  # noqa: E402

from .engine import Engine, Infeasible, Infinity, PathLimit, Stats  # noqa: E402
from .nparr import SymArray, arr, is_cplx, wrap0  # noqa: E402
from .poly import Budget, S, Unsupported, of  # noqa: E402


class Failure(Exception):
    """A requirement failed in a numeric run."""


def _rng(seed, name):
    h = hashlib.sha256(f"{seed}:{name}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def grid(r, lo, hi):
    """random multiple of 1/8 in [lo, hi], never 0"""
    while True:
        k = r.randint(int(lo * 8), int(hi * 8))
        if k:
            return Fraction(k, 8)


class Ctx:
    """Common part: value drawing."""

    def __init__(self, seed, values=None, tier="quick"):
        self.seed = seed
        self.values = values or {}
        self.tier = tier
        self.names = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def draw(self, name, kind, shape, lo=None, hi=None):
        """object array of Fractions (real kinds) or (re, im) pairs."""
        r = _rng(self.seed, name)
        a = np.ndarray(shape, dtype=object)
        for idx in itertools.product(*[range(n) for n in shape]):
            if kind == "cplx":
                a[idx] = (grid(r, -2, 2), grid(r, -2, 2))
            elif kind == "real":
                a[idx] = grid(r, -2 if lo is None else lo, 2 if hi is None else hi)
            elif kind in ("pos", "nonneg"):
                a[idx] = grid(r, 0.25 if lo is None else lo, 2.5 if hi is None else hi)
        return a

    # helpers available to harnesses in both modes
    def quad(self, w, A):
        """w^H A w for column vector w (..., n) and A (..., n, n)."""
        w = w[..., None]
        return (w.conj().swapaxes(-1, -2) @ A @ w)[..., 0, 0]

    def H(self, A):
        return A.conj().swapaxes(-1, -2)


class NumCtx(Ctx):
    mode = "num"

    def __init__(self, seed, values=None, tier="quick", tol=1e-6):
        super().__init__(seed, values, tier)
        self.tol = tol
        self.failures = []
        self.outs = []
        self.checks = 0
        self.assume_failed = None
        self.unstable_at = {}  # index of a failed comparison -> the value expected there
        self.watch = None  # indices of comparisons whose expected values are recorded (jittered run)
        self.seen = {}
        self.jitter = None

    def _jitter(self, out):
        if self.jitter is None:
            return out
        return out * (1 + 1e-9 * self.jitter.standard_normal(out.shape))

    def _get(self, name, kind, shape, sym, **kw):
        d = self.draw(name, kind, shape, **kw)
        cplx = kind == "cplx"
        out = np.zeros(shape, dtype=np.complex128 if cplx else np.float64)
        for idx in itertools.product(*[range(n) for n in shape]):
            key = name + "".join(f"_{i}" for i in idx)
            if key in self.values:
                v = self.values[key]
                out[idx] = complex(*v) if cplx else float(v)
            else:
                v = d[idx]
                out[idx] = complex(float(v[0]), float(v[1])) if cplx else float(v)
        return self._jitter(out)

    def cplx(self, name, shape, sym=None):
        return self._get(name, "cplx", tuple(shape), sym)

    def real(self, name, shape, sym=None, lo=None, hi=None):
        return self._get(name, "real", tuple(shape), sym, lo=lo, hi=hi)

    def pos(self, name, shape, sym=None, lo=None, hi=None):
        return self._get(name, "pos", tuple(shape), sym, lo=lo, hi=hi)

    def unim(self, name, shape):
        out = np.zeros(shape, dtype=np.complex128)
        for idx in np.ndindex(*shape):
            key = name + "".join(f"_{i}" for i in idx)
            if key in self.values:
                v = complex(*self.values[key])
                out[idx] = v / abs(v)
            else:
                out[idx] = complex(*_unit_point(self.seed, key))
        return out

    def const(self, a):
        return np.array(a)

    def scalar(self, x):
        return x

    def fn(self, name, positive=True):
        """An arbitrary (uninterpreted) function of a real argument; concrete stand-in here."""
        f = UFUN[name]

        def g(x):
            return f(np.asarray(x))

        return g

    def assume_pos(self, x, label=""):
        if not np.all(np.real(np.asarray(x)) > 0):
            self.assume_failed = label or "assume"
            raise _AssumeFailed(label)

    def assume_nonneg(self, x, label=""):
        if not np.all(np.real(np.asarray(x)) >= 0):
            self.assume_failed = label or "assume"
            raise _AssumeFailed(label)

    def havoc(self, a, on_write):
        return np.array(a)

    def register_eigh(self, K, lam, V):
        pass

    def register_svd(self, K, U, s, Vh):
        pass

    def free_svd(self, fn):
        pass

    def free_eigh(self, fn):
        pass

    # requirements
    def _fail(self, label, detail):
        self.failures.append((label, detail))

    def zero(self, x, label, scale=1.0):
        x = np.asarray(x)
        self.checks += 1
        if x.size and not (np.all(np.isfinite(x)) and np.max(np.abs(x)) <= self.tol * scale):
            self._fail(label, f"max |value| = {np.max(np.abs(x)) if x.size else None!r}, expected 0")

    def eq(self, a, b, label, tol=None):
        a, b = np.asarray(a), np.asarray(b)
        self.checks += 1
        if self.watch is not None:
            if self.checks in self.watch:
                self.seen[self.checks] = np.array(b)
            return
        tol = self.tol if tol is None else tol
        if a.shape != b.shape:
            try:
                np.broadcast_shapes(a.shape, b.shape)
            except ValueError:
                self._fail(label, f"shape {a.shape} vs {b.shape}")
                return
            if np.broadcast_shapes(a.shape, b.shape) != a.shape:
                self._fail(label, f"shape {a.shape} vs {b.shape}")
                return
        if not a.size:
            return
        b0 = b
        fin = np.isfinite(a) & np.isfinite(b) if a.shape == b.shape else None
        if fin is not None and not fin.all() and np.array_equal(a[~fin], b[~fin]):
            a, b = np.where(fin, a, 0), np.where(fin, b, 0)
        sc = 1.0 + max(float(np.max(np.abs(a))), float(np.max(np.abs(b))))
        d = np.abs(a - b)
        if not (np.all(np.isfinite(d)) and np.max(d) <= tol * sc):
            self.unstable_at[self.checks] = np.array(b0)
            self._fail(label, f"got {_short(a)}, expected {_short(b)}, largest difference {np.max(d):.3g}")
        self.outs.append((label, np.array(a)))

    def ge(self, a, b, label, tol=None):
        a, b = np.asarray(a), np.asarray(b)
        self.checks += 1
        tol = self.tol if tol is None else tol
        d = np.real(a - b)
        sc = 1.0 + float(np.max(np.abs(a))) + float(np.max(np.abs(b)))
        if not (np.all(np.isfinite(d)) and np.min(d) >= -tol * sc):
            self._fail(label, f"{_short(a)} >= {_short(b)} fails")

    def gt(self, a, b, label):
        a, b = np.asarray(a), np.asarray(b)
        self.checks += 1
        d = np.real(a - b)
        if not (np.all(np.isfinite(d)) and np.min(d) > 0):
            self._fail(label, f"{_short(a)} > {_short(b)} fails")

    def check(self, cond, label):
        self.checks += 1
        if not bool(cond):
            self._fail(label, "structural condition is false")

    def out(self, label, x):
        self.outs.append((label, np.array(x)))

    def same(self, a, b, label):
        """bit-for-bit / structurally equal arrays (used for 'not mutated')"""
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b):
            self._fail(label, f"{_short(a)} differs from {_short(b)}")


class _AssumeFailed(Exception):
    pass


UFUN = {
    "phi": lambda x: 0.5 + 1.0 / (1.0 + np.abs(x)),
    "psi": lambda x: 0.3 + np.abs(x) / (2.0 + np.abs(x)),
    "odd": lambda x: np.tanh(x),
    "gen": lambda x: np.sin(x) + 0.2 * x,
    "gen2": lambda x: np.cos(1.3 * x) - 0.1 * x,
    "G": lambda x: 0.5 * np.abs(x) + np.log1p(np.abs(x)),
}
UFUN_POS = {"phi", "psi"}
for _n, _f in UFUN.items():
    Engine.ufun_impl[_n] = (lambda f: (lambda z: float(f(np.float64(z.real)))))(_f)


def _short(a):
    s = np.array2string(np.asarray(a).ravel()[:4], precision=6)
    return s


def _unit_point(seed, key):
    r = _rng(seed, key)
    t = Fraction(r.randint(1, 15), 8)
    d = 1 + t * t
    return float((1 - t * t) / d), float(2 * t / d)


class SymCtx(Ctx):
    mode = "sym"

    def __init__(self, eng, seed, tier="quick"):
        super().__init__(seed, None, tier)
        self.E = eng
        self.obls = []
        self.outs = []
        self.nsym = 0

    def _which(self, name, n, sym):
        if sym is None:
            return set(range(n))
        if isinstance(sym, int):
            r = _rng(self.seed, name + "/sym")
            idx = list(range(n))
            r.shuffle(idx)
            return set(idx[:sym])
        return set(sym)

    def _get(self, name, kind, shape, sym, **kw):
        E = self.E
        memo = E.__dict__.setdefault("sym_memo", {})
        uses = self.__dict__.setdefault("sym_uses", {})
        key = (name, kind, shape)
        uses[key] = uses.get(key, -1) + 1
        key += (uses[key],)
        if key in memo:
            r, n = memo[key]
            self.nsym += n
            return r.copy()
        n0 = self.nsym
        r = self._make(name, kind, shape, sym, **kw)
        memo[key] = (r.copy(), self.nsym - n0)
        return r

    def _make(self, name, kind, shape, sym, **kw):
        E = self.E
        d = self.draw(name, kind, shape, **kw)
        b = np.ndarray(shape, dtype=object)
        n = b.size
        w = self._which(name, n, sym)
        for k, idx in enumerate(itertools.product(*[range(m) for m in shape])):
            key = name + "".join(f"_{i}" for i in idx)
            v = d[idx]
            if k in w:
                self.nsym += 1
                if kind == "cplx":
                    s = E.sym_cplx(key)
                    self._point(s, complex(float(v[0]), float(v[1])))
                else:
                    s = E.sym_real(key, positive=kind == "pos", nonneg=kind == "nonneg")
                    self._point(s, complex(float(v)))
                b[idx] = s
            elif kind == "cplx":
                b[idx] = of(E.R, v[0]) + of(E.R, v[1]) * E.R.I()
            else:
                b[idx] = of(E.R, v)
        return wrap0(b, kind == "cplx")

    def _point(self, s, v):
        ((f, _),) = s.fac.items()
        (m,) = self.E.R.factors[f]
        idx = self.E.R.monovars(m)[0][0]
        self.E.point[idx] = v
        c = self.E.R.vars[idx].conj
        if c != idx:
            self.E.point[c] = v.conjugate()

    def cplx(self, name, shape, sym=None):
        return self._get(name, "cplx", tuple(shape), sym)

    def real(self, name, shape, sym=None, lo=None, hi=None):
        return self._get(name, "real", tuple(shape), sym, lo=lo, hi=hi)

    def pos(self, name, shape, sym=None, lo=None, hi=None):
        return self._get(name, "pos", tuple(shape), sym, lo=lo, hi=hi)

    def unim(self, name, shape):
        b = np.ndarray(shape, dtype=object)
        for idx in np.ndindex(*shape):
            key = name + "".join(f"_{i}" for i in idx)
            s = self.E.sym_unim(key)
            self._point(s, complex(*_unit_point(self.seed, key)))
            b[idx] = s
            self.nsym += 1
        return wrap0(b, True)

    def const(self, a):
        return SymArray(np.array(a))

    def scalar(self, x):
        return of(self.E.R, x)

    def fn(self, name, positive=None):
        E = self.E
        pos = name in UFUN_POS

        def g(x):
            if isinstance(x, S):
                return E.ufun(name, x, pos)
            return nparr._map(lambda s: E.ufun(name, s, pos), x, cplx=False)

        return g

    def assume_pos(self, x, label=""):
        for s in arr(x).view(np.ndarray).ravel():
            self.E.assume(s.real, ">", label)

    def assume_nonneg(self, x, label=""):
        for s in arr(x).view(np.ndarray).ravel():
            self.E.assume(s.real, ">=", label)

    def register_eigh(self, K, lam, V):
        K, V = arr(K), arr(V)
        self.E.contracts.append(
            (nparr._herm_lower(K.view(np.ndarray)), list(arr(lam).view(np.ndarray)), V.view(np.ndarray))
        )

    def free_svd(self, fn):
        """fn(M) -> (U, s, Vh): arbitrary decomposition symbols returned for a symbolic matrix (sym mode only);
        the caller keeps M and states what holds for every M = U diag(s) Vh."""
        self.E.svd_free = fn

    def free_eigh(self, fn):
        """fn(H) -> (lam, V), as free_svd"""
        self.E.eigh_free = fn

    def register_svd(self, K, U, s, Vh):
        if not hasattr(self.E, "svd_contracts"):
            self.E.svd_contracts = []
        self.E.svd_contracts.append(
            (
                arr(K).view(np.ndarray),
                arr(U).view(np.ndarray),
                list(arr(s).view(np.ndarray)),
                arr(Vh).view(np.ndarray),
            )
        )

    def havoc(self, a, on_write):
        """Array that reports each write (before, after, key) and continues from fresh symbols."""
        E = self.E
        h = arr(a).copy().view(nparr.HavocArray)
        h.cplx = is_cplx(a)
        state = {"n": 0}

        def hook(before, after, key):
            mask = nparr._orig_zeros(before.shape, dtype=bool)
            mask[key] = True
            on_write(before, after, mask)
            state["n"] += 1
            new = after.copy()
            nb = new.view(np.ndarray)
            cache = {}
            for idx in zip(*np.nonzero(mask)):
                s = nb[idx]
                if s.const_complex() is not None and len(s.fac) <= 1 and state.get("keepconst"):
                    continue
                nm = f"havoc{state['n']}" + "".join(f"_{int(i)}" for i in idx)
                f = E.sym_cplx(nm) if h.cplx else E.sym_real(nm)
                try:
                    v = E.evalf(s, E.point, cache)
                    v = complex(round(v.real * 64) / 64 or 0.25, round(v.imag * 64) / 64 or 0.125)
                except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                    v = None
                if v is not None:
                    self._point(f, v if h.cplx else complex(v.real))
                nb[idx] = f
            return new

        h.hook = hook
        return h

    # requirements: (kind, label, lhs, rhs)
    def zero(self, x, label, scale=1.0):
        for s in arr(x).view(np.ndarray).ravel():
            self.obls.append(("eq", label, s, of(self.E.R, 0)))

    def eq(self, a, b, label, tol=None):
        a, b = arr(a), arr(b)
        if a.shape != b.shape:
            try:
                ok = np.broadcast_shapes(a.shape, b.shape) == a.shape
            except ValueError:
                ok = False
            if not ok:
                self.obls.append(("struct", label + f" (shape {a.shape} vs {b.shape})", False, None))
                return
        A = a.view(np.ndarray)
        B = np.broadcast_to(b.view(np.ndarray), a.shape)
        for p, q in zip(A.ravel(), B.ravel()):
            self.obls.append(("eq", label, p, q))
        self.outs.append((label, a))

    def ge(self, a, b, label, tol=None):
        d = arr(nparr._map2(self.E.flat_diff, a, b))
        for s in d.view(np.ndarray).ravel():
            self.obls.append(("ge", label, s, None))

    def gt(self, a, b, label):
        d = arr(nparr._map2(self.E.flat_diff, a, b))
        for s in d.view(np.ndarray).ravel():
            self.obls.append(("gt", label, s, None))

    def check(self, cond, label):
        self.obls.append(("struct", label, bool(cond), None))

    def out(self, label, x):
        self.outs.append((label, arr(x)))

    def same(self, a, b, label):
        a, b = arr(a), arr(b)
        if a.shape != b.shape:
            self.obls.append(("struct", label + " (shape)", False, None))
            return
        for p, q in zip(a.view(np.ndarray).ravel(), b.view(np.ndarray).ravel()):
            self.obls.append(("eq", label, p, q))


# ------------------------------------------------------------------------------ discharge
def _raw_eq_query(E, p, q):
    """z3 formulas for  p != q  (cross multiplied, not simplified by the engine)."""
    R = E.R
    used = set()

    def parts(s):
        num, den = s.numden()
        num = R.pscale(num, s.coef.numerator)
        den = R.pscale(den, s.coef.denominator)
        return num, den

    n1, d1 = parts(p)
    n2, d2 = parts(q)
    if max(map(len, (n1, d1, n2, d2))) > 150:
        return None

    def z(pd):
        re, im = E.realify(pd)
        if len(re) + len(im) > 400:
            raise Budget("raw")
        return E.zpoly(re, used), E.zpoly(im, used), bool(im)

    a, b, c, d = z(n1), z(d2), z(n2), z(d1)

    def mul(x, y):
        re = x[0] * y[0] - x[1] * y[1] if (x[2] and y[2]) else x[0] * y[0]
        im = x[0] * y[1] + x[1] * y[0] if (x[2] or y[2]) else z3.RealVal(0)
        return re, im

    l, r = mul(a, b), mul(c, d)
    defs, _ = E.zdefs(used)
    return defs + [z3.Or(l[0] != r[0], l[1] != r[1])]


def discharge(E, ob, timeout, seed):
    """-> (status, model_values or None, detail) ; status in holds/fails/unknown"""
    kind, label, a, b = ob
    E.stats.obligations += 1
    if kind == "struct":
        if a:
            E.stats.discharged += 1
            return "holds", None, ""
        return "fails", {}, "structural"
    if kind == "eq":
        if isinstance(a, Infinity) or isinstance(b, Infinity):
            return ("holds" if isinstance(a, Infinity) and isinstance(b, Infinity) and a.sign == b.sign
                    else "fails"), {}, "infinite"
        try:
            d = a - b
        except Budget as ex:
            return "unknown", None, f"budget: {ex}"
        pairs = []
        d = _log_zero(E, d, pairs)
        if d.coef == 0:
            pairs = pairs or [(a, b)]
            # the normal form is 0; have the solver decide the un-normalised query when small
            if E.stats.crosscheck < 12:
                for p, q in pairs:
                    try:
                        q = _raw_eq_query(E, p, q)
                    except (Budget, Unsupported):
                        q = None
                    if q is not None:
                        E.stats.crosscheck += 1
                        r, _m = E.check(q, 1500)
                        if r == "sat":
                            return "unknown", None, "normal form and solver disagree"
            r, _ = E.check([z3.RealVal(0) != z3.RealVal(0)], 1000)
            if r == "unsat":
                E.stats.discharged += 1
                return "holds", None, ""
            return "unknown", None, "?"
        return _refute(E, [(d, "!=")], timeout, seed)
    d = a
    h = d.sign_hint()
    if kind == "ge":
        if h in ("pos", "nonneg", "zero"):
            neg = None
        else:
            neg = (-d, ">")
    else:
        if h == "pos":
            neg = None
        else:
            neg = (-d, ">=")
    if neg is None:
        # syntactic certificate (sum of products of non-negative terms); confirm with the solver
        try:
            cs = E.path_z3(extra=[((-d), ">" if kind == "ge" else ">=")])
            r, m = E.check(cs, 2000)
        except (Budget, Unsupported):
            r = "unknown"
        if r == "sat":
            return "unknown", None, "sign certificate and solver disagree"
        E.stats.discharged += 1
        return "holds", None, ""
    if not d.is_real():
        return "fails", None, "complex value where an order is required"
    return _refute(E, [neg], timeout, seed)


def _log_zero(E, d, pairs):
    """Linear combinations of logarithms: try to recognise zero multiplicatively (log a = log b iff a = b);
    ``pairs`` receives the products that have to agree."""
    if d.coef == 0:
        return d
    R = E.R
    num, den = d.numden()
    logs = [v for v in R.vars if v.kind == "log"]
    if not logs:
        return d
    present = [v for v in logs if any((m >> v.shift) & 0xFFFF for m in num)]
    if not present or any((m >> v.shift) & 0xFFFF for v in logs for m in den):
        return d
    # group:  sum_v coef_v * log_v + rest, coef_v polynomials free of logs
    by = {}
    for m, c in num.items():
        hit = [(i, e) for i, e in R.monovars(m) if R.vars[i].kind == "log"]
        if len(hit) > 1 or (hit and hit[0][1] > 1):
            return d
        if hit:
            i = hit[0][0]
            by.setdefault(m - (1 << R.vars[i].shift), {})[i] = c
    rest = {m: c for m, c in num.items() if not any(R.vars[i].kind == "log" for i, _ in R.monovars(m))}
    if rest:
        return d
    for mono, combo in by.items():
        up, down = of(R, 1), of(R, 1)
        g = 0
        for c in combo.values():
            g = math.gcd(g, c)
        try:
            for i, c in combo.items():
                k = c // g
                if k > 0:
                    up = up * R.vars[i].defn[1] ** k
                else:
                    down = down * R.vars[i].defn[1] ** -k
            diff = up - down
        except Budget:
            return d
        if diff.coef != 0:
            pairs.clear()
            return d
        pairs.append((up, down))
    return of(R, 0)


def _model_values(E, model):
    vals = {}

    def num(v):
        if v is None:
            return None
        try:
            if z3.is_rational_value(v):
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v):
                a = v.approx(30)
                return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        except Exception:
            pass
        return None

    for name, kind, s in E.base:
        ((f, _),) = s.fac.items()
        (m,) = E.R.factors[f]
        idx = E.R.monovars(m)[0][0]
        pt = E.point.get(idx, 1.0)
        if kind in ("cplx", "unim"):
            if idx in E._realvars:
                x, y = E.realparts(idx)
                (mx,), (my,) = x, y
                ix, iy = E.R.monovars(mx)[0][0], E.R.monovars(my)[0][0]
                vx, vy = num(model[E.zvar(ix)]), num(model[E.zvar(iy)])
            else:
                vx = vy = None
            sgn = 1.0
            vals[name] = (
                pt.real if vx is None else vx,
                pt.imag if vy is None else vy * sgn,
            )
        else:
            v = num(model[E.zvar(idx)])
            vals[name] = pt.real if v is None else v
    return vals


def _point_eqs(E, values=None, free=()):
    out = []
    for name, kind, s in E.base:
        if name in free:
            continue
        ((f, _),) = s.fac.items()
        (m,) = E.R.factors[f]
        idx = E.R.monovars(m)[0][0]
        v = E.point.get(idx) if values is None else values.get(name, E.point.get(idx))
        if v is None:
            continue
        if isinstance(v, tuple):
            v = complex(*v)
        v = complex(v)
        if kind == "cplx":
            x, y = E.realparts(idx)
            (mx,), (my,) = x, y
            ix, iy = E.R.monovars(mx)[0][0], E.R.monovars(my)[0][0]
            out.append(E.zvar(ix) == z3.RealVal(str(Fraction(v.real).limit_denominator(10 ** 6))))
            out.append(E.zvar(iy) == z3.RealVal(str(Fraction(v.imag).limit_denominator(10 ** 6))))
        elif kind == "unim":
            continue
        else:
            out.append(E.zvar(idx) == z3.RealVal(str(Fraction(v.real).limit_denominator(10 ** 6))))
    return out


def _refute(E, neg, timeout, seed):
    """Is  path & neg  satisfiable?  holds / fails(model) / unknown."""
    tm = []
    try:
        used = set()
        cs = E.path_z3(extra=neg)
    except Budget as ex:
        # too large to hand over; fall back on the concrete point
        return "unknown", {"__point__": True}, f"budget: {ex}"
    # 1. all base symbols fixed at the sample point
    r, m = E.check(cs + _point_eqs(E), 6000, want_model=True)
    if r == "sat":
        return "fails", _model_values(E, m), "at the sample point"
    # 2. a few random subsets left free
    rr = random.Random(seed)
    names = [b[0] for b in E.base]
    for k in (1, 2, 4):
        if k >= len(names):
            break
        free = set(rr.sample(names, k))
        r, m = E.check(cs + _point_eqs(E, free=free), 4000, want_model=True)
        if r == "sat":
            return "fails", _model_values(E, m), f"with {k} free symbols"
    # 3. everything free
    for k, tactic in enumerate((None, "qfnra-nlsat")):
        r, m = E.check(cs, timeout / (k + 1), want_model=True, tactic=tactic, shift=17 * k)
        if r == "unsat":
            E.stats.discharged += 1
            return "holds", None, ""
        if r == "sat":
            return "fails", _model_values(E, m), "general"
    return "unknown", {"__point__": True}, "solver returned unknown"


# ------------------------------------------------------------------------------ exploring
class Result:
    def __init__(self, name):
        self.name = name
        self.status = "holds"  # holds / violation / inconclusive
        self.detail = ""
        self.replay = None
        self.stats = Stats()
        self.nsym = 0
        self.labels = {}
        self.witnessed = 0
        self.validated = 0
        self.validated_values = 0
        self.assumed = []
        self.wall = 0.0
        self.note = ""
        self.samples = []


def explore(fn, opts, seed, tier, res):
    """Symbolic exploration of all paths. Returns list of candidate violations."""
    stack = [()]
    cands = []
    unknowns = []
    maxpaths = opts.get("max_paths", 400)
    timeout = opts.get("timeout", 20000 if tier == "quick" else 90000)
    if timeout < 1000:
        timeout *= 1000  # given in seconds
    seen_paths = 0
    deadline = time.time() + opts.get("budget_s", 400 if tier == "quick" else 3000)
    while stack:
        prefix = stack.pop()
        if seen_paths >= maxpaths:
            unknowns.append(("paths", f"path limit {maxpaths}"))
            break
        if time.time() > deadline:
            unknowns.append(("time", "time budget used up"))
            break
        E = Engine(prefix, opts.get("policy"), res.stats, seed)
        E.point = {}
        ctx = SymCtx(E, seed, tier)
        S.ENG = E
        try:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if opts.get("warm"):
                        # first pass only collects the sign facts the path relies on, so that the
                        # second pass simplifies every expression with the same facts
                        fn(ctx)
                        ctx = SymCtx(E, seed, tier)
                    fn(ctx)
                seen_paths += 1
                res.stats.paths += 1
            except Infeasible:
                res.stats.pruned += 1
                continue_path = False
            except (Unsupported, Budget, PathLimit) as ex:
                unknowns.append(("engine", f"{type(ex).__name__}: {ex}"))
                if opts.get("debug"):
                    traceback.print_exc()
                continue_path = False
            except Exception as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                where = [f for f in tb if REPO in f.filename or "checks" in f.filename][-1:]
                unknowns.append(
                    ("raise", f"{type(ex).__name__}: {ex} at "
                     + (f"{where[0].filename}:{where[0].lineno}" if where else "?"))
                )
                if opts.get("debug"):
                    traceback.print_exc()
                continue_path = False
            else:
                continue_path = True
            # schedule alternatives
            for k in range(len(prefix), len(E.trail)):
                val, other = E.trail[k]
                if other:
                    stack.append(tuple(v for v, _ in E.trail[:k]) + (not val,))
            if not continue_path:
                if any(u[0] in ("engine", "raise") for u in unknowns):
                    if len(unknowns) > 3:
                        break
                continue
            res.nsym = max(res.nsym, ctx.nsym)
            # non-vacuity: does the sample point satisfy this path?
            try:
                ok = _point_on_path(E)
            except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                ok = False
            if ok:
                res.witnessed += 1
                # translation validation: symbolic values at the point, compared later
                vals = []
                for label, x in ctx.outs:
                    try:
                        cache = {}
                        vals.append(
                            (label, [E.evalf(s, E.point, cache) for s in x.view(np.ndarray).ravel()])
                        )
                    except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                        pass
                if vals:
                    res._symvals = vals
            else:
                # ask the solver for a witness of this path
                try:
                    r, _ = E.check(E.path_z3(), 3000)
                    if r == "sat":
                        res.witnessed += 1
                except (Budget, Unsupported):
                    pass
            for ob in ctx.obls:
                try:
                    # a harness with undecided queries does not spend the full time on each further one
                    st, model, det = discharge(E, ob, max(500, timeout / (1 + len(unknowns)) ** 2), seed)
                except (Unsupported, Budget) as ex:
                    st, model, det = "unknown", {"__point__": True}, f"{type(ex).__name__}: {ex}"
                lab = ob[1]
                res.labels[lab] = res.labels.get(lab, 0) + 1
                if st == "fails":
                    cands.append((lab, model, det))
                    if len(cands) >= opts.get("max_cands", 6):
                        return cands, unknowns
                elif st == "unknown":
                    unknowns.append(("solver", f"{lab}: {det}"))
                    if len(unknowns) > 20 or time.time() > deadline:
                        return cands, unknowns
            for a in E.assumed:
                if a and a not in res.assumed:
                    res.assumed.append(a)
        finally:
            S.ENG = None
    return cands, unknowns


def _point_on_path(E):
    cache = {}
    for s, rel in E.constraints:
        v = E.evalf(s, E.point, cache).real
        if rel == ">" and not v > 0 or rel == ">=" and not v >= -1e-12:
            return False
        if rel == "==" and abs(v) > 1e-9 or rel == "!=" and v == 0:
            return False
    return True


def run_numeric(fn, seed, values, tier, opts):
    ctx = NumCtx(seed, values, tier, tol=opts.get("tol", 1e-6))
    S.ENG = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(ctx)
    except _AssumeFailed as ex:
        return ctx, "assume"
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        repo = [f for f in tb if f.filename.startswith(os.path.join(REPO, "ssspy"))]
        if opts.get("debug"):
            traceback.print_exc()
        if repo:
            ctx.failures.append(
                ("exception", f"{type(ex).__name__}: {ex} at {repo[-1].filename}:{repo[-1].lineno}")
            )
            return ctx, "fail"
        return ctx, f"harness error: {type(ex).__name__}: {ex}"
    return ctx, "fail" if ctx.failures else "ok"


def ill_conditioned(fn, ctx, seed, values, tier, opts):
    """Is every failure of this run a comparison whose *expected* value is itself undetermined here?

    At a point where a matrix is singular (or an eigenvector's phase is LAPACK's to choose), the float
    value of both sides is decided by rounding. Such a point shows nothing: the run is repeated with the
    inputs moved by a relative 1e-9, and when the expected value of each failed comparison moves by more
    than 1e-3 the failure is not reported (the query stays undecided). An expected value that stays where
    it was makes the failure a violation.
    """
    if len(ctx.unstable_at) < len(ctx.failures) or opts.get("strict"):
        return False
    if values and all(np.isnan(b).any() for b in ctx.unstable_at.values()):
        return True  # the solver chose a point (0 / 0) where nothing is expected
    moved = set()
    for k in range(4):
        jc = NumCtx(seed, values, tier, tol=opts.get("tol", 1e-6))
        jc.jitter = np.random.default_rng([seed, 77, k])
        jc.watch = set(ctx.unstable_at)
        S.ENG = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    fn(jc)
        except Exception:
            return False
        for i, b in ctx.unstable_at.items():
            c = jc.seen.get(i)
            if c is None or c.shape != b.shape:
                return False
            fin = np.isfinite(b) & np.isfinite(c)
            same = (b == c) | (np.isnan(b) & np.isnan(c))
            if not np.all(fin | same):
                moved.add(i)
                continue
            sc = 1e-9 + float(np.max(np.abs(np.where(fin, b, 0))))
            if float(np.max(np.abs(np.where(fin, b, 0) - np.where(fin, c, 0)))) > 1e-3 * sc:
                moved.add(i)
        if len(moved) == len(ctx.unstable_at):
            return True
    return False


def degenerate(ctx, opts):
    """the run ended in numpy refusing a singular / indefinite matrix (harnesses about singular data set "strict")"""
    f = ctx.failures[0]
    return not opts.get("strict") and f[0] == "exception" and f[1].startswith("LinAlgError")


def run_harness(name, fn, opts, seed, tier):
    res = Result(name)
    t0 = time.time()
    cands, unknowns = [], []
    sys.set_int_max_str_digits(0)
    if opts.get("engine") == "int":
        from .ints import run_int_harness

        run_int_harness(fn, opts, seed, tier, res)
        res.wall = time.time() - t0
        return res
    if not opts.get("num_only"):
        cands, unknowns = explore(fn, opts, seed, tier, res)
    # --- replay candidates on the real code
    for lab, model, det in cands:
        vals = model or {}
        ctx, st = run_numeric(fn, seed, vals, tier, opts)
        if st == "fail" and not degenerate(ctx, opts) and not ill_conditioned(fn, ctx, seed, vals, tier, opts):
            res.status = "violation"
            f = ctx.failures[0]
            res.detail = f"{f[0]}: {f[1]} (solver counterexample {det})"
            res.replay = {"harness": name, "seed": seed, "values": vals, "failures": ctx.failures[:5]}
            break
    # --- translation validation / concrete confirmation on the unpatched float code
    if res.status != "violation":
        npts = opts.get("points", 2)
        if any(u[0] == "raise" for u in unknowns):
            npts = max(npts, 8)
        npts = max(npts, int(os.environ.get("VERIF_POINTS", 0)))
        for k in range(npts):
            sd = seed if k == 0 else seed + 1000 + k
            ctx, st = run_numeric(fn, sd, {}, tier, opts)
            for extra in range(1, 5):
                # a drawn point may happen to be singular: judge by another one, unless they all fail
                if st != "fail" or not degenerate(ctx, opts):
                    break
                sd = sd + 100000 * extra
                ctx, st = run_numeric(fn, sd, {}, tier, opts)
            if st == "fail" and ill_conditioned(fn, ctx, sd, {}, tier, opts):
                unknowns.append(("ill-conditioned point", f"{sd}: {ctx.failures[0][0]}"))
                continue
            if st == "fail":
                res.status = "violation"
                f = ctx.failures[0]
                res.detail = f"{f[0]}: {f[1]} (at validation point {sd})"
                res.replay = {"harness": name, "seed": sd, "values": {}, "failures": ctx.failures[:5]}
                break
            if st == "ok":
                res.validated += 1
                if sd == seed and not opts.get("noval"):
                    bad = _compare(res, ctx)
                    if bad:
                        unknowns.append(("validation", bad))
            elif st != "assume":
                unknowns.append(("harness", st))
    if res.status != "violation":
        if cands:
            res.status = "inconclusive"
            res.detail = (
                f"counterexample for '{cands[0][0]}' ({cands[0][2]}) does not reproduce on the real code"
            )
        elif unknowns:
            res.status = "inconclusive"
            res.detail = "; ".join(f"{a}: {b}" for a, b in unknowns[:3])
        elif not res.witnessed and not opts.get("num_only"):
            res.status = "inconclusive"
            res.detail = "no path is witnessed by the sample point (vacuous?)"
    res.wall = time.time() - t0
    if hasattr(res, "_symvals"):
        v = res._symvals
        res.samples = [
            {"label": l, "value_at_sample_point": [f"{z:.6g}" for z in zs[:3]]} for l, zs in v[:2]
        ]
        del res._symvals
    return res


def _compare(res, ctx):
    sv = getattr(res, "_symvals", None)
    if not sv:
        return None
    for (l1, zs), (l2, x) in zip(sv, ctx.outs):
        if l1 != l2:
            return f"output order {l1} / {l2}"
        x = np.asarray(x, dtype=complex).ravel()
        z = np.array(zs, dtype=complex)
        if x.shape != z.shape:
            return f"{l1}: shape"
        sc = 1 + np.max(np.abs(x)) if x.size else 1
        if x.size and not np.allclose(x, z, atol=1e-6 * sc, rtol=1e-6):
            return f"{l1}: symbolic value {z[:3]} vs float run {x[:3]}"
        res.validated_values += x.size
    return None


# ------------------------------------------------------------------------------ property runner
def _worker(args):
    modname, pid, name, opts, seed, tier, q = args
    try:
        lim = opts.get("mem_gb", 6) * (1 << 30)
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(10000)
    try:
        import importlib

        mod = importlib.import_module(modname)
        hs = {h[0]: h for h in mod.harnesses(tier)}
        _, fn, o = hs[name]
        r = run_harness(name, fn, o, seed, tier)
    except MemoryError:
        r = Result(name)
        r.status, r.detail = "inconclusive", "out of memory"
    except BaseException as ex:  # noqa: B902
        r = Result(name)
        r.status, r.detail = "inconclusive", f"worker: {type(ex).__name__}: {ex}"
        traceback.print_exc()
    q.put(r)


def run_property(mod, pid, tier, seed, only=None, jobs=None):
    """Run every harness of a property in parallel worker processes."""
    hs = mod.harnesses(tier)
    if only:
        hs = [h for h in hs if only in h[0]]
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    ctxm = mp.get_context("fork")
    pending = list(hs)
    # longest first when annotated
    pending.sort(key=lambda h: -h[2].get("cost", 1))
    running = []
    results = {}
    dflt = int(os.environ.get("VERIF_LIMIT", 0)) or (300 if tier == "quick" else 3600)
    stop = False
    total = int(os.environ.get("VERIF_TOTAL", 0)) or (780 if tier == "quick" else 6 * 3600)
    t_end = time.time() + total
    while (pending and not stop) or running:
        if time.time() > t_end:
            # e.g. on rewritten code whose terms are harder: what was not decided stays undecided
            for name, p, q, t0, lim in running:
                p.kill()
                p.join()
            for name in [r[0] for r in running] + [h[0] for h in pending]:
                if name not in results:
                    results[name] = r = Result(name)
                    r.status, r.detail = "inconclusive", f"total time limit {total} s"
            break
        while pending and len(running) < jobs and not stop:
            name, fn, opts = pending.pop(0)
            q = ctxm.SimpleQueue()
            p = ctxm.Process(
                target=_worker, args=((mod.__name__, pid, name, opts, seed, tier, q),)
            )
            p.start()
            running.append((name, p, q, time.time(), opts.get("limit_s", dflt)))
        nxt = []
        for name, p, q, t0, lim in running:
            if not q.empty():
                results[name] = q.get()
                p.join()
                continue
            if not p.is_alive():
                p.join()
                if not q.empty():
                    results[name] = q.get()
                else:
                    r = Result(name)
                    r.status, r.detail = "inconclusive", f"worker died (exit {p.exitcode})"
                    r.wall = time.time() - t0
                    results[name] = r
                continue
            if time.time() - t0 > lim:
                p.kill()
                p.join()
                r = Result(name)
                r.status, r.detail = "inconclusive", f"time limit {lim} s"
                r.wall = time.time() - t0
                results[name] = r
                continue
            nxt.append((name, p, q, t0, lim))
        running = nxt
        if any(r.status == "violation" for r in results.values()) and not os.environ.get("VERIF_ALL"):
            stop = True
            for name, p, q, t0, lim in running:
                p.kill()
                p.join()
            running = []
        time.sleep(0.01)
    return [results[h[0]] for h in hs if h[0] in results], len(hs)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        return json.load(open(path))
    return []


def main(pid, modname, argv):
    import importlib

    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--only="):
            only = a[7:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module(modname)
    results, total = run_property(mod, pid, tier, seed, only)
    wall = time.time() - t0
    tot = Stats()
    viol, inc = [], []
    known = [k for k in load_known() if k["property"] == pid and k.get("kind", "finding") == "finding"]
    known_hit = []
    for r in results:
        tot.add(r.stats)
        if r.status == "violation":
            k = [k for k in known if k["harness"] == r.name and k["match"] in r.detail]
            if k:
                known_hit.append((k[0], r))
            else:
                viol.append(r)
        elif r.status == "inconclusive":
            inc.append(r)
    verbose = os.environ.get("VERIF_VERBOSE")
    for r in results:
        if verbose or r.status != "holds":
            print(
                f"[{r.status}] {r.name}  paths={r.stats.paths} obligations={r.stats.discharged}/"
                f"{r.stats.obligations} queries={r.stats.queries} syms={r.nsym} "
                f"solver={r.stats.solver_s:.2f}s wall={r.wall:.2f}s {r.detail}"
            )
    for k, r in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.paths,
            "transitions": tot.branches + tot.obligations,
            "traces_validated_against_impl": sum(r.validated for r in results),
            "samples": [s for r in results for s in r.samples][:6]
            or [{"harness": r.name, "labels": list(r.labels)[:3]} for r in results[:4]],
            "explanation": "states = symbolic paths completed through the real code; transitions = "
            "symbolic branch decisions plus obligations put to the solver",
            "harnesses": {
                r.name: {
                    "status": r.status,
                    "symbols": r.nsym,
                    "paths": r.stats.paths,
                    "obligations": r.stats.obligations,
                    "discharged": r.stats.discharged,
                    "solver_queries": r.stats.queries,
                    "solver_s": round(r.stats.solver_s, 3),
                    "witnessed_paths": r.witnessed,
                    "values_cross_validated": r.validated_values,
                    "wall_s": round(r.wall, 2),
                }
                for r in results
            },
            "functions_encoded": getattr(mod, "FUNCTIONS", []),
            "bounds": getattr(mod, "BOUNDS", ""),
            "obligations": tot.obligations,
            "discharged": tot.discharged,
            "solver_queries": tot.queries,
            "solver_unsat": tot.unsat,
            "solver_sat": tot.sat,
            "solver_unknown": tot.unknown,
            "solver_s": round(tot.solver_s, 3),
        },
        "assumptions": sorted(
            set(getattr(mod, "ASSUMPTIONS", []) + [a for r in results for a in r.assumed if a])
        ),
        "wall_s": round(wall, 3),
        "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if viol:
        r = viol[0]
        path = os.path.join(VERIF, "evidence", f"replay_{pid}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": pid, "module": modname, "tier": tier, "detail": r.detail, **(r.replay or {})},
                f,
                indent=1,
                default=str,
            )
        print(f"  {r.name}: {r.detail}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(
        f"{pid} {tier}: {len(results)}/{total} harnesses, {tot.paths} paths, "
        f"{tot.discharged}/{tot.obligations} obligations, {tot.queries} queries, "
        f"{tot.solver_s:.1f}s solver, {wall:.1f}s wall"
    )
    for r in inc:
        print(f"UNDECIDED property={pid} harness={r.name}: {r.detail[:300]}")
    if len(inc) == len(results):
        print(f"ERROR property={pid}: no harness was decided")
        return 2
    return 0
