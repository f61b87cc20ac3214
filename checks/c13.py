"""C13: PSD projection, flooring, softmax, log-sum-exp."""

import functools

import numpy as np

from ssspy.special.flooring import add_flooring, identity, max_flooring
from ssspy.special.logsumexp import logsumexp
from ssspy.special.psd import to_psd
from ssspy.special.softmax import softmax
from ssspy.utils.flooring import choose_flooring_fn

from .c12 import unitary

FUNCTIONS = [
    "ssspy.special.psd.to_psd", "ssspy.special.flooring.{identity,max_flooring,add_flooring}", "ssspy.special.softmax.softmax",
    "ssspy.special.logsumexp.logsumexp", "ssspy.utils.flooring.choose_flooring_fn",
]
BOUNDS = (
    "to_psd: 2x2 (every unitary eigenvector matrix, every pair of eigenvalues incl. negative ones, plus any skew-Hermitian part), 3x3 with rotations "
    "in one plane, batches; floor symbolic; softmax/logsumexp: arrays up to 2x2 or 3 elements, every axis; flooring: 3 elements. Exact arithmetic."
)
ASSUMPTIONS = ["exp(a + b) = exp(a) exp(b), exp(log x) = x, exp > 0 (no overflow; concrete large arguments are replayed in floating point)"]
FORK = {"policy": {"clamp": False, "eq": "fork", "floor": "fork"}, "max_paths": 64}


def t_psd(n, batch, cplx, floor, order, skew=True, sign=None):
    def run(ctx):
        b = tuple(batch)
        U = unitary(ctx, "U", n, b, cplx)
        l0 = ctx.real("l", b + (1,))
        lam = [l0]
        for k in range(1, n):  # ascending
            lam.append(lam[-1] + ctx.pos(f"g{k}", b + (1,)))
        lam = np.concatenate(lam, axis=-1)
        Xh = (U * lam[..., None, :]) @ ctx.H(U)
        X = Xh
        if skew:
            A = (ctx.cplx if cplx else ctx.real)("A", b + (n, n), sym=2)
            X = Xh + (A - ctx.H(A))
        if ctx.mode == "sym":
            for idx in np.ndindex(*b):
                ctx.register_eigh(Xh[idx], lam[idx], U[idx])
        X0 = X.copy()
        eps = ctx.pos("eps", ())[()]
        if floor == "max":
            out = to_psd(X, flooring_fn=functools.partial(max_flooring, eps=eps))
        elif floor == "add":
            out = to_psd(X, flooring_fn=functools.partial(add_flooring, eps=eps))
        elif floor == "none":
            out = to_psd(X, flooring_fn=None)
        elif floor == "axes":
            out = to_psd(X, axis1=X.ndim - 2, axis2=X.ndim - 1, flooring_fn=functools.partial(max_flooring, eps=eps))
        elif floor == "default":
            out = to_psd(X)
            eps = 1e-10
        ctx.same(X, X0, "argument not modified")
        ctx.check(out.shape == X0.shape, "shape")
        ctx.eq(out, ctx.H(out), "Hermitian")
        I = np.eye(n)
        if floor == "none":
            ctx.eq(out, Xh, "identity flooring returns the Hermitian part")
        elif floor == "add":
            ctx.eq(out, Xh + eps * I, "shift by the floor")
        else:
            # nearest matrix with eigenvalues >= eps: complementary slackness in the eigenbasis
            D = ctx.H(U) @ out @ U
            for i in range(n):
                for j in range(n):
                    if i != j:
                        ctx.zero(D[..., i, j], "same eigenvectors")
                d = np.real(D[..., i, i])
                ctx.ge(d, eps, "eigenvalue at least the floor")
                ctx.ge(d, lam[..., i], "eigenvalues are never lowered")
                ctx.zero((d - eps) * (d - lam[..., i]), "eigenvalues above the floor are kept, others set to it")

    return run


def t_psd_herm(cplx):
    """free entries: the generic 2x2 eigendecomposition"""
    def run(ctx):
        X = (ctx.cplx if cplx else ctx.real)("X", (1, 2, 2))
        Xh = (X + ctx.H(X)) / 2
        eps = ctx.pos("eps", ())[()]
        out = to_psd(X, flooring_fn=functools.partial(max_flooring, eps=eps))
        ctx.eq(out, ctx.H(out), "Hermitian")
        P, Q = out - Xh, out - eps * np.eye(2)
        ctx.zero(P @ Q, "complementary slackness")
        for M, t in ((P, "never lowered"), (Q, "at least the floor")):
            ctx.ge(np.real(M[0, 0, 0]), 0, t)
            ctx.ge(np.real(M[0, 1, 1]), 0, t)

    return run


def t_floor(ctx):
    x = ctx.real("x", (3,))
    eps = ctx.pos("eps", ())[()]
    x0 = x.copy()
    y = max_flooring(x, eps=eps)
    ctx.same(x, x0, "argument not modified")
    ctx.ge(y, eps, "never below the floor")
    ctx.ge(y, x0, "never lowered")
    ctx.zero((y - eps) * (y - x0), "either the floor or unchanged")
    ctx.eq(max_flooring(y, eps=eps), y, "idempotent")
    ctx.eq(add_flooring(x, eps=eps), x0 + eps, "shift by the floor")
    ctx.eq(add_flooring(x), x0 + 1e-10, "default shift")
    ctx.same(identity(x), x0, "identity")
    d = max_flooring(x)
    ctx.ge(d, 1e-10, "default floor")
    ctx.zero((d - 1e-10) * (d - x0), "default floor or unchanged")
    ctx.same(x, x0, "argument not modified")


class Holder:
    pass


def t_choose(ctx):
    x = ctx.real("x", (2,))
    f = ctx.fn("gen")
    h = Holder()
    ctx.eq(choose_flooring_fn(lambda v: f(v), method=h)(x), f(x), "explicit function wins")
    ctx.eq(choose_flooring_fn("self", method=h)(x), x, "identity without a flooring attribute")
    ctx.eq(choose_flooring_fn("self")(x), x, "identity without a method")
    ctx.eq(choose_flooring_fn(None)(x), x, "None is the identity")
    h.flooring_fn = lambda v: f(v)
    ctx.eq(choose_flooring_fn("self", method=h)(x), f(x), "the method's own flooring function")


def t_softmax(shape, axis, big=False):
    def run(ctx):
        x = ctx.real("x", shape, sym=1 if big else None)
        if big:
            x = x * 0 + np.arange(x.size).reshape(shape) * 2000.0 - 1000.0
        x0 = x.copy()
        v = softmax(x, axis=axis) if axis != "default" else softmax(x)
        ax = None if axis == "default" else axis
        ctx.same(x, x0, "argument not modified")
        ctx.check(v.shape == x0.shape, "shape")
        ctx.eq(np.sum(v, axis=ax), np.ones(np.sum(np.ones(shape), axis=ax).shape), "sums to one")
        ctx.ge(v, 0, "nonnegative")
        if not big:
            e = np.exp(x0)
            ctx.eq(v * np.sum(e, axis=ax, keepdims=True), e, "proportional to the exponentials")
            # the same relative to each entry: no small probability is rounded to zero
            for i in np.ndindex(*shape):
                j = tuple(slice(None) if ax is None or k == ax % len(shape) else c for k, c in enumerate(i))
                ctx.eq(v[i] * np.sum(np.exp(x0[j] - x0[i])), 1, "exact also for improbable entries")

    return run


def t_lse(shape, axis, keep):
    def run(ctx):
        x = ctx.real("x", shape)
        x0 = x.copy()
        kw = {} if axis == "default" else {"axis": axis}
        ax = None if axis == "default" else axis
        out = logsumexp(x, **kw, **({"keepdims": True} if keep else {}))
        ctx.same(x, x0, "argument not modified")
        want = np.sum(np.exp(x0), axis=ax, keepdims=keep)
        ctx.check(np.shape(out) == np.shape(want), "shape")
        ctx.eq(np.exp(out), want, "exponential of the result is the sum of exponentials")

    return run


def t_range(fn, shape, axis):
    """the exponentials that are formed neither overflow nor vanish all at once within a slice, for inputs of any size
    (a counterexample counts if the real result is wrong in floating point)"""

    def run(ctx):
        x = ctx.real("x", shape)
        if ctx.mode == "sym":
            ctx.E.exp_log = log = []
        out = logsumexp(x, axis=axis) if fn == "lse" else softmax(x, axis=axis)
        if ctx.mode == "sym":
            ctx.E.exp_log = None
            for a in log:
                if a.shape == x.shape:
                    ctx.ge(720, np.max(a), "no overflow")
                    ctx.ge(np.max(a, axis=axis), -800, "no underflow of a whole slice")
            return
        m = np.logaddexp.reduce(x, axis=axis, keepdims=True) if axis is not None else np.logaddexp.reduce(x.ravel()).reshape((1,) * x.ndim)
        if fn == "lse":
            ctx.eq(out, np.squeeze(m, axis=axis), "finite and right for every magnitude")
        else:
            ctx.eq(out, np.exp(x - m), "finite and right for every magnitude")

    return run


def t_lse_big(ctx):
    z = ctx.real("z", (2,), sym=1) * 0
    for s in (1000.0, -1000.0):
        ctx.eq(logsumexp(z + s) - s, np.log(np.ones(()) * 2.0), "no overflow or underflow")


def harnesses(tier):
    hs = []
    for fl in ("max", "add", "none", "axes", "default"):
        for c in (True, False):
            hs.append((f"psd2-{fl}-{'c' if c else 'r'}", t_psd(2, (1,), c, fl, None), FORK))
    hs += [
        ("psd2-batch", t_psd(2, (2,), True, "max", None, False), FORK), ("psd2-2d", t_psd(2, (), True, "max", None), FORK),
        ("psd3", t_psd(3, (1,), True, "max", None), FORK), ("psd3-r", t_psd(3, (), False, "max", None, False), FORK),
        ("psd1", t_psd(1, (2,), True, "max", None), FORK),
        ("psd-free-r", t_psd_herm(False), FORK), ("psd-free-c", t_psd_herm(True), FORK),
        ("flooring", t_floor, dict(FORK, max_paths=200)), ("choose", t_choose, {}),
    ]
    for sh, ax in (((2,), 0), ((3,), None), ((3,), "default"), ((2, 2), 0), ((2, 2), 1), ((2, 2), -1), ((2, 2), None), ((2, 1, 2), 1)):
        hs.append((f"softmax-{sh}-{ax}", t_softmax(sh, ax), FORK))
        for k in (False, True):
            hs.append((f"logsumexp-{sh}-{ax}-{k:d}", t_lse(sh, ax, k), FORK))
    for sh, ax in (((2,), 0), ((2, 2), 0), ((2, 2), 1), ((2, 2), -1), ((3,), None), ((2, 1, 2), 1), ((2, 1, 2), 0)):
        hs += [(f"{f}-range-{sh}-{ax}", t_range(f, sh, ax), dict(FORK, noval=True)) for f in ("lse", "softmax")]
    hs += [("softmax-big", t_softmax((3,), 0, True), FORK), ("logsumexp-big", t_lse_big, FORK), ("logsumexp-tuple", t_lse((2, 1, 2), (0, 2), False), FORK)]
    return hs
