"""C03: pairwise iterative projection (IP2)."""

import numpy as np

from ssspy.bss._update_spatial_model import update_by_ip2, update_by_ip2_one_pair
from ssspy.utils.select_pair import combination_pair_selector

from .common import hpd

FUNCTIONS = [
    "ssspy.bss._update_spatial_model.update_by_ip2",
    "ssspy.bss._update_spatial_model.update_by_ip2_one_pair",
    "ssspy.linalg.eigh.eigh2",
    "ssspy.linalg.eigh._eigh",
    "ssspy.linalg.inv.inv2",
    "ssspy.linalg._solve.solve",
    "ssspy.utils.select_pair.sequential_pair_selector",
    "ssspy.utils.select_pair.combination_pair_selector",
]
BOUNDS = (
    "2 sources x 1-3 bins (1 bin with every entry symbolic), 3 and 4 sources on slices of 1-3 symbolic entries; every kind of pair order and negative indices; sweeps over 2-4 sources with all default selectors; exact real arithmetic."
)
ASSUMPTIONS = ['covariances are Hermitian positive definite (given by their Cholesky factors)']


def q(row, U):
    return row @ U @ row.conj()


def pair_post(ctx, Wother, wm, wn, Um, Un, rest, scale, tag=""):
    """stationarity of the pairwise problem; Wother supplies the rows in ``rest``."""
    ctx.eq(q(wm, Um), scale, "first row normalised" + tag)
    ctx.eq(q(wn, Un), scale, "second row normalised" + tag)
    ctx.zero(wn @ Um @ wm.conj(), "w_n U_m w_m = 0" + tag)
    ctx.zero(wm @ Un @ wn.conj(), "w_m U_n w_n = 0" + tag)
    for k in rest:
        ctx.zero(Wother[k] @ Um @ wm.conj(), "other rows, U_m" + tag)
        ctx.zero(Wother[k] @ Un @ wn.conj(), "other rows, U_n" + tag)


def f(n, pair, symW, symU, nb=1, cplx=True, one=False, floor=None, overwrite=True, order=False):
    def run(ctx):
        W = ctx.cplx("W", (nb, n, n), sym=symW) if cplx else ctx.real("W", (nb, n, n), sym=symW)
        U = hpd(ctx, "U", n, cplx, symU, (nb, n))
        W0, Win, U0 = W.copy(), W.copy(), U.copy()
        m, k = pair
        kw = {}
        if floor == "double":
            kw["flooring_fn"] = lambda x: 2 * x
        elif floor == "none":
            kw["flooring_fn"] = None
        if one:
            out = update_by_ip2_one_pair(Win, U[:, pair, :, :], pair=pair, **kw)
            ctx.check(out.shape == (nb, 2, n), "shape")
            wm, wk = out[:, 0], out[:, 1]
            ctx.same(Win, W0, "one_pair leaves its argument alone")
        else:
            out = update_by_ip2(Win, U, pair_selector=lambda n_: [pair], overwrite=overwrite, **kw)
            ctx.check(out.shape == (nb, n, n), "shape")
            wm, wk = out[:, m], out[:, k]
            for r in range(n):
                if r not in (m % n, k % n):
                    ctx.same(out[:, r], W0[:, r], "rows outside the pair unchanged")
            if overwrite:
                ctx.same(Win, out, "overwrite=True writes the argument")
            else:
                ctx.same(Win, W0, "overwrite=False leaves the argument alone")
        ctx.same(U, U0, "covariance untouched")
        rest = [r for r in range(n) if r not in (m % n, k % n)]
        sc = 0.25 if floor == "double" else 1
        for b in range(nb):
            pair_post(ctx, W0[b], wm[b], wk[b], U0[b, m], U0[b, k], rest, sc)
            if order and n == 2:
                # the other stationary point (rows swapped, renormalised) is not better
                ctx.ge(
                    np.real(q(wk[b], U0[b, m]) * q(wm[b], U0[b, k])),
                    1,
                    "the better of the two stationary points is taken",
                )

    return run


def f_seq(n, pairs, symW, symU, selector=None):
    """a sweep over several pairs equals the pairs done one call after the other."""

    def run(ctx):
        W = ctx.cplx("W", (1, n, n), sym=symW)
        U = hpd(ctx, "U", n, True, symU, (1, n))
        A = update_by_ip2(W.copy(), U, pair_selector=selector)
        B = W.copy()
        for p in pairs:
            B = update_by_ip2(B, U, pair_selector=lambda n_, p=p: [p], overwrite=False)
        ctx.eq(A, B, "sweep == pairs in order")

    return run


def f_order(pair, cplx, which=0, sym=None):
    """n = 2, W = I: which eigenvector goes where."""

    def run(ctx):
        U = np.stack([hpd(ctx, f"U{i}", 2, cplx, sym if i == which else 0, (1,)) for i in (0, 1)], axis=1)
        W = np.eye(2)[None] * (1 + 0j if cplx else 1.0)
        out = update_by_ip2(ctx.const(W), U, pair_selector=lambda n_: [pair], overwrite=False)
        m, k = pair
        ctx.ge(
            np.real(q(out[0, k], U[0, m]) * q(out[0, m], U[0, k])),
            1,
            "the better of the two stationary points is taken",
        )

    return run


OP = {"noval": True, "policy": {"opaque": ("eigh", "inv", "cholesky")}}


def harnesses(tier):
    hs = [
        ("n2", f(2, (0, 1), None, None, order=False), {"noval": True}),
        ("n2-order-r01", f_order((0, 1), False, 0, 4), {"noval": True}),
        ("n2-order-r10", f_order((1, 0), False), {"noval": True}),
        ("n2-order-c01", f_order((0, 1), True, 1, 4), {"noval": True}),
        ("n2-order-c10", f_order((1, 0), True, 1), {"noval": True}),
        ("n2-rev", f(2, (1, 0), 4, None), {"noval": True}),
        ("n2-one", f(2, (0, 1), None, 4, one=True), {"noval": True}),
        ("n2-real", f(2, (0, 1), None, None, cplx=False), {"noval": True}),
        ("n2-floor", f(2, (0, 1), 2, 1, floor="double", overwrite=False), {"noval": True}),
        ("n2-neg", f(2, (-1, 0), 2, 2, floor="none"), {"noval": True}),
        ("n2-2bins", f(2, (0, 1), 2, 2, nb=2), {"noval": True}),
        ("n2-3bins", f(2, (1, 0), 1, 2, nb=3, overwrite=False), {"noval": True}),
        ("n2-real-2bins", f(2, (1, 0), 2, 2, nb=2, cplx=False), {"noval": True}),
        ("n3-10", f(3, (1, 0), 1, 0), {"noval": True}),
        ("n3-21one", f(3, (2, 1), 0, 2, one=True), {"noval": True}),
        ("n3-02one-2bins", f(3, (0, 2), 0, 1, nb=2, one=True), {"noval": True}),
        ("n3-real", f(3, (0, 2), 1, 1, cplx=False), {"noval": True}),
        ("n3-nofloor-2bins", f(3, (2, 1), 0, 1, nb=2, floor="none"), {"noval": True}),
        ("n4-13", f(4, (1, 3), 0, 1), {"noval": True}),
        ("n4-30", f(4, (3, 0), 1, 0), {"noval": True}),
        ("n4-20one", f(4, (2, 0), 0, 1, one=True), {"noval": True}),
        ("n4--2-1", f(4, (-2, 1), 0, 0), {"noval": True}),
        ("n2-fork", f(2, (0, 1), 2, 1, floor="none"), {"noval": True, "policy": {"floor": "fork", "eq": "generic"}}),
        ("seq4", f_seq(4, [(0, 1), (1, 2), (2, 3), (3, 0)], 1, 0), OP),
        ("seq4-comb", f_seq(4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], 1, 0, combination_pair_selector), OP),
        ("n3-01", f(3, (0, 1), 1, 0), {"noval": True}),
        ("n3-20", f(3, (2, 0), 0, 1), {"noval": True}),
        ("n3-12one", f(3, (1, 2), 0, 2, one=True, floor="double"), {"noval": True}),
        ("n3-0-1", f(3, (0, -1), 1, 0, overwrite=False), {"noval": True}),
        ("seq3", f_seq(3, [(0, 1), (1, 2), (2, 0)], 2, 0), OP),
        ("seq3-comb", f_seq(3, [(0, 1), (0, 2), (1, 2)], 2, 0, combination_pair_selector), OP),
        ("seq2", f_seq(2, [(0, 1), (1, 0)], None, 0), OP),
    ]
    return hs
