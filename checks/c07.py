"""C07: block vector-wise coordinate descent (IPSDTA spatial update)."""

import numpy as np

from ssspy.bss._update_spatial_model import update_by_block_decomposition_vcd

from .common import hpd

FUNCTIONS = [
    "ssspy.bss._update_spatial_model.update_by_block_decomposition_vcd",
    "ssspy.linalg._solve.solve",
]
BOUNDS = (
    "1-3 blocks x 1-4 neighbours x 2-4 sources (slices of the entries symbolic); every write to the filter is checked as an inductive step from an arbitrary (fresh symbolic) state; exact real arithmetic."
)
ASSUMPTIONS = ['diagonal covariance blocks positive definite']


def cov(ctx, name, nblk, nnb, nsrc, n, sym, cross, cplx=True):
    """RXX (blocks, nb, nb, src, ch, ch): Hermitian, diagonal blocks positive definite."""
    D = hpd(ctx, name + "D", n, cplx, sym, (nblk, nnb, nsrc))
    X = (ctx.cplx if cplx else ctx.real)(name + "X", (nblk, nnb, nnb, nsrc, n, n), sym=cross)
    rows = []
    for i in range(nnb):
        row = []
        for j in range(nnb):
            if i == j:
                row.append(D[:, i])
            elif i < j:
                row.append(X[:, i, j])
            else:
                row.append(ctx.H(X[:, j, i]))
        rows.append(np.stack(row, axis=1))
    return np.stack(rows, axis=1)


def step(ctx, R, before, after, b, i, s):
    """stationarity of coordinate (i, s) of block b; every other row is that of ``after``."""
    n = after.shape[-1]
    nnb = after.shape[1]
    g = R[b, i, i, s] @ after[b, i, s].conj()
    for j in range(nnb):
        if j != i:
            g = g + R[b, i, j, s] @ before[b, j, s].conj()
    for k in range(n):
        row = after[b, i, k] if k == s else before[b, i, k]
        ctx.eq(row @ g, 1 if k == s else 0, "stationary point of the coordinate")


def f(nblk, nnb, n, symW, symD, symX, cplx=True, overwrite=True, singular=None, opt=False):
    def run(ctx):
        W = (ctx.cplx if cplx else ctx.real)("W", (nblk, nnb, n, n), sym=symW)
        R = cov(ctx, "R", nblk, nnb, n, n, symD, symX, cplx)
        W0, R0 = W.copy(), R.copy()
        order = []

        def on_write(before, after, mask):
            for b, i, s in sorted({tuple(int(x) for x in p[:3]) for p in zip(*np.nonzero(mask))}):
                ctx.check(mask[b, i, s].all(), "whole rows are written")
                order.append((b, i, s))
                step(ctx, R0, before, after, b, i, s)

        Win = ctx.havoc(W, on_write)
        kw = {}
        if singular == "eps":
            kw["singular_fn"] = lambda x: np.abs(x) < 1e-9
        Z = update_by_block_decomposition_vcd(Win, R, overwrite=overwrite, **kw)
        ctx.check(Z.shape == W.shape, "shape")
        ctx.same(R, R0, "covariance untouched")
        if overwrite:
            ctx.same(Win, Z, "overwrite=True writes the argument")
        else:
            ctx.same(Win, W0, "overwrite=False leaves the argument alone")
        if ctx.mode == "sym":
            ctx.check(
                sorted(order) == list(np.ndindex(nblk, nnb, n)), "every row is updated exactly once"
            )
            return
        cur = W0.copy()
        for i in range(nnb):
            for s in range(n):
                nxt = cur.copy()
                nxt[:, i, s] = Z[:, i, s]
                for b in range(nblk):
                    step(ctx, R0, cur, nxt, b, i, s)
                cur = nxt

    return run


def f_opt(n=2, symX=1, cplx=True):
    """of the two stationary points the one with the smaller objective is taken."""

    def run(ctx):
        W = (ctx.cplx if cplx else ctx.real)("W", (1, 2, n, n), sym=0)
        R = cov(ctx, "R", 1, 2, n, n, 0, symX, cplx)
        Z = update_by_block_decomposition_vcd(W, R, overwrite=False)
        gam = R[0, 0, 1, 0] @ W[0, 1, 0].conj()
        U = R[0, 0, 0, 0]
        w = Z[0, 0, 0].conj()
        h = np.linalg.inv(U) @ gam
        ctx.ge(0, np.real(h.conj() @ (U @ w + gam)), "better stationary point")

    return run


def harnesses(tier):
    NV = {"noval": True}
    T = tier == "thorough"
    return [
        ("b1-nb1-n2", f(1, 1, 2, None, None, 0), NV),
        ("b1-nb2-n2", f(1, 2, 2, 1, 0, 0), NV),
        ("b1-nb2-n2W", f(1, 2, 2, None, 1, 0), NV),
        ("b1-nb2-n2R", f(1, 2, 2, 0, 1, 1, cplx=T), NV),
        ("b1-nb2-real", f(1, 2, 2, None, None, None, cplx=False, overwrite=False), NV),
        ("b2-nb2-n2", f(2, 2, 2, 1, 1, 1, singular="eps"), NV),
        ("b1-nb3-n2", f(1, 3, 2, 1, 0, 1, cplx=False), NV),
        ("b1-nb1-n3", f(1, 1, 3, 1, 1, 0, overwrite=False), NV),
        ("b1-nb2-n3", f(1, 2, 3, 0, 0, 1, cplx=False), NV),
        ("b3-nb1-n2", f(3, 1, 2, 1, 1, 0), NV),
        ("b1-nb4-n2", f(1, 4, 2, 0, 0, 1, cplx=False), NV),
        ("b2-nb3-n2", f(2, 3, 2, 0, 1, 0, cplx=False, overwrite=False), NV),
        ("b1-nb1-n4", f(1, 1, 4, 0, 1, 0), NV),
        ("b2-nb1-n3", f(2, 1, 3, 1, 0, 0), NV),
        ("b1-nb2-n3W", f(1, 2, 3, 1, 0, 0, cplx=False), NV),
        ("opt", f_opt(), {}),
        ("opt-real", f_opt(symX=2, cplx=False), {}),
    ]
