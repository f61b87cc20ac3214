"""C02: iterative projection with one source at a time (IP1)."""

import numpy as np

from ssspy.bss._update_spatial_model import update_by_ip1

from .common import chol, hpd

FUNCTIONS = ["ssspy.bss._update_spatial_model.update_by_ip1", "ssspy.linalg._solve.solve"]
BOUNDS = (
    "2 sources x 1-3 bins (1 bin with every entry symbolic), 3 sources x 1-2 bins, 4 and 5 sources on slices of 1-5 symbolic entries; real and complex; with, without and with a scaling flooring function; exact real arithmetic."
)
ASSUMPTIONS = ['covariances are Hermitian positive definite (given by their Cholesky factors)', 'quantities compared with 1e-10 by the default flooring function are above it (generic branch) unless the harness explores both sides']


def post(ctx, W0, W1, U, scale=1):
    """Postcondition of one IP1 sweep. W0, W1: (bins, n, n), U: (bins, n, n, n)."""
    nb, n, _ = W0.shape
    for b in range(nb):
        for s in range(n):
            w = W1[b, s].conj()
            v = U[b, s] @ w
            ctx.eq(W1[b, s] @ v, scale, f"normalised row {s}")
            for k in range(n):
                if k < s:
                    ctx.zero(W1[b, k] @ v, f"row {k} (new) orthogonal to row {s}")
                elif k > s:
                    ctx.zero(W0[b, k] @ v, f"row {k} (old) orthogonal to row {s}")


def f(n, nb, symW, symU, cplx=True, floor=None, overwrite=True):
    def run(ctx):
        W = ctx.cplx("W", (nb, n, n), sym=symW) if cplx else ctx.real("W", (nb, n, n), sym=symW)
        U = hpd(ctx, "U", n, cplx, symU, (nb, n))
        W0 = W.copy()
        U0 = U.copy()
        Win = W.copy()
        kw = {}
        if floor == "none":
            kw["flooring_fn"] = None
        elif floor == "double":
            kw["flooring_fn"] = lambda x: 2 * x
        W1 = update_by_ip1(Win, U, overwrite=overwrite, **kw)
        ctx.check(W1.shape == (nb, n, n), "shape")
        ctx.same(U, U0, "covariance untouched")
        if overwrite:
            ctx.same(Win, W1, "overwrite=True writes the argument")
        else:
            ctx.same(Win, W0, "overwrite=False leaves the argument alone")
        post(ctx, W0, W1, U0, 0.25 if floor == "double" else 1)

    return run


def harnesses(tier):
    T = tier == "thorough"
    hs = [
        ("n2", f(2, 1, None, None), {}),
        ("n2-2bins", f(2, 2, 4, 2), {}),
        ("n2-nofloor", f(2, 1, None, None, floor="none", overwrite=False), {}),
        ("n2-floor2", f(2, 1, None, 1, floor="double"), {}),
        ("n2-real", f(2, 1, None, None, cplx=False), {}),
        ("n3-W", f(3, 1, 3, 0), {}),
        ("n3-U", f(3, 1, 0, 5), {}),
        ("n3-mix", f(3, 1, 2, 2, overwrite=False), {}),
        ("n4", f(4, 1, 1, 1), {}),
        ("n1", f(1, 2, None, None), {}),
        ("n2-3bins", f(2, 3, 4, 2), {}),
        ("n2-real-2bins", f(2, 2, 4, 2, cplx=False, overwrite=False), {}),
        ("n3-2bins", f(3, 2, 2, 1), {}),
        ("n3-real", f(3, 1, 3, 2, cplx=False), {}),
        ("n3-floor2", f(3, 1, 1, 2, floor="double", overwrite=False), {}),
        ("n3-nofloor", f(3, 2, 1, 2, floor="none"), {}),
        ("n4-real", f(4, 1, 1, 1, cplx=False, overwrite=False), {}),
        ("n4-2bins", f(4, 2, 1, 0), {}),
        ("n5", f(5, 1, 0, 1), {}),
    ]
    # without a flooring function, comparisons with tiny constants are explored on both sides
    hs += [(n + "-fork", f(*a, floor="none", **k), {"policy": {"floor": "fork", "eq": "generic"}}) for n, a, k in (
        ("n2", (2, 1, None, None), {}), ("n2-real", (2, 1, None, None), {"cplx": False}), ("n3", (3, 1, 2, 1), {"overwrite": False}),
    )]
    return hs
