"""C05: pairwise iterative source steering (ISS2)."""

import numpy as np

from ssspy.bss._update_spatial_model import update_by_ip2, update_by_iss2
from ssspy.utils.select_pair import combination_pair_selector, sequential_pair_selector

FUNCTIONS = [
    "ssspy.bss._update_spatial_model.update_by_iss2",
    "ssspy.linalg.eigh.eigh2",
    "ssspy.linalg.eigh._eigh",
    "ssspy.linalg.inv.inv2",
    "ssspy.utils.select_pair.sequential_pair_selector",
    "ssspy.utils.select_pair.combination_pair_selector",
]
BOUNDS = (
    "2 sources x 1-3 bins x 2-4 frames, 3 sources x 1-2 bins x 3 frames, 4-5 sources x 3-4 frames on slices of 1-5 symbolic entries; every kind of pair order and negative indices, sweeps over 2-5 sources; exact real arithmetic."
)
ASSUMPTIONS = ['weights positive', 'pairwise covariances positive definite']
OP = {"noval": True, "policy": {"opaque": ("eigh", "inv", "cholesky"), "cut": 12}}
NV = {"noval": True}


def mom(P, a, b):
    return (P * a * b.conj()).sum(axis=-1) / P.shape[-1]


def f(K, nb, T, pair, symY, symP, cplx=True, floor=None, order=False):
    def run(ctx):
        Y = ctx.cplx("Y", (K, nb, T), sym=symY) if cplx else ctx.real("Y", (K, nb, T), sym=symY)
        P = ctx.pos("P", (K, nb, T), sym=symP)
        Y0, P0 = Y.copy(), P.copy()
        kw = {}
        if floor == "double":
            kw["flooring_fn"] = lambda x: 2 * x
        elif floor == "none":
            kw["flooring_fn"] = None
        Z = update_by_iss2(Y, P, pair_selector=lambda n: [pair], **kw)
        ctx.same(Y, Y0, "separated untouched")
        ctx.same(P, P0, "weight untouched")
        ctx.check(Z.shape == Y.shape, "shape")
        m, n = pair[0] % K, pair[1] % K
        sc = 0.25 if floor == "double" else 1
        ctx.eq(mom(P0[m], Z[m], Z[m]), sc, "y_m normalised under its weight")
        ctx.eq(mom(P0[n], Z[n], Z[n]), sc, "y_n normalised under its weight")
        ctx.zero(mom(P0[m], Z[m], Z[n]), "y_m, y_n uncorrelated under weight m")
        ctx.zero(mom(P0[n], Z[m], Z[n]), "y_m, y_n uncorrelated under weight n")
        for k in range(K):
            if k in (m, n):
                continue
            ctx.zero(mom(P0[k], Z[k], Y0[m]), "other source uncorrelated with y_m")
            ctx.zero(mom(P0[k], Z[k], Y0[n]), "other source uncorrelated with y_n")
        # nothing outside the span of the pair is mixed in: z = y + span{y_m, y_n}
        if T == 3:
            for k in range(K):
                for b in range(nb):
                    if k in (m, n):
                        M = [Z[k, b], Y0[m, b], Y0[n, b]]
                    else:
                        M = [Z[k, b] - Y0[k, b], Y0[m, b], Y0[n, b]]
                    ctx.zero(det3(M), f"source {k} moved within the span of the pair only")

    return run


def det3(M):
    a, b, c = M
    return (
        a[0] * (b[1] * c[2] - b[2] * c[1])
        - a[1] * (b[0] * c[2] - b[2] * c[0])
        + a[2] * (b[0] * c[1] - b[1] * c[0])
    )


def f_order(pair, cplx, symY=0, symP=None, T=2):
    """the better of the two stationary points is taken (n = 2)."""

    def run(ctx):
        Y = ctx.cplx("Y", (2, 1, T), sym=symY) if cplx else ctx.real("Y", (2, 1, T), sym=symY)
        P = ctx.pos("P", (2, 1, T), sym=symP)
        Z = update_by_iss2(Y, P, pair_selector=lambda n: [pair])
        m, n = pair[0] % 2, pair[1] % 2
        ctx.ge(
            np.real(mom(P[m], Z[n], Z[n]) * mom(P[n], Z[m], Z[m])),
            1,
            "the better of the two stationary points is taken",
        )

    return run


def f_seq(K, T, pairs, symY, symP, selector=None, cplx=True):
    def run(ctx):
        Y = (ctx.cplx if cplx else ctx.real)("Y", (K, 1, T), sym=symY)
        P = ctx.pos("P", (K, 1, T), sym=symP)
        A = update_by_iss2(Y, P, pair_selector=selector) if selector else update_by_iss2(Y, P)
        B = Y
        for p in pairs:
            B = update_by_iss2(B, P, pair_selector=lambda n, p=p: [p])
        ctx.eq(A, B, "sweep == pairs in order")

    return run


def harnesses(tier):
    return [
        ("n2", f(2, 1, 2, (0, 1), 2, 2), NV),
        ("n2-w", f(2, 1, 2, (0, 1), 0, None), NV),
        ("n2-real", f(2, 1, 2, (0, 1), None, 2, cplx=False), NV),
        ("n2-rev", f(2, 1, 2, (1, 0), 1, None), NV),
        ("n2-neg", f(2, 1, 2, (-1, 0), 1, 2, floor="none"), NV),
        ("n2-floor", f(2, 1, 2, (0, 1), 0, 2, floor="double"), NV),
        ("n2-2bins", f(2, 2, 2, (0, 1), 1, 1), NV),
        ("n3-01", f(3, 1, 3, (0, 1), 1, 2), NV),
        ("n3-12", f(3, 1, 3, (1, 2), 0, 5), NV),
        ("n3-20", f(3, 1, 3, (2, 0), 0, 4), NV),
        ("n3-0n1", f(3, 1, 3, (0, -1), 1, 0), NV),
        ("n3-n2n3", f(3, 1, 3, (-2, -3), 0, 4), NV),
        ("n3-floor", f(3, 1, 3, (1, 0), 1, 0, floor="double"), NV),
        ("n4-31", f(4, 1, 4, (3, 1), 0, 3), NV),
        ("n4-13", f(4, 1, 3, (1, 3), 1, 1), NV),
        ("n2-3bins", f(2, 3, 2, (1, 0), 1, 1), NV),
        ("n2-4frames", f(2, 1, 4, (0, 1), 0, 3), NV),
        ("n3-02", f(3, 1, 3, (0, 2), 0, 3), NV),
        ("n3-10", f(3, 1, 3, (1, 0), 1, 1), NV),
        ("n3-21", f(3, 1, 3, (2, 1), 0, 3), NV),
        ("n3-2bins", f(3, 2, 3, (0, 2), 0, 1), NV),
        ("n3-real", f(3, 1, 3, (1, 2), 1, 1, cplx=False), NV),
        ("n3-nofloor", f(3, 1, 3, (0, 1), 0, 1, floor="none"), NV),
        ("n4-02", f(4, 1, 3, (0, 2), 0, 2), NV),
        ("n4-23", f(4, 1, 4, (2, 3), 0, 2), NV),
        ("n4-n1n4", f(4, 1, 3, (-1, -4), 0, 2), NV),
        ("n5-14", f(5, 1, 3, (1, 4), 0, 1), NV),
        ("n2-fork", f(2, 1, 2, (0, 1), 0, 1, floor="none"), {"noval": True, "policy": {"floor": "fork", "eq": "generic"}}),
        ("seq5", f_seq(5, 3, [(0, 1), (2, 3), (4, 0)], 0, 1), OP),
        ("order-r", f_order((0, 1), False), NV),
        ("order-c", f_order((1, 0), True), NV),
        ("seq4", f_seq(4, 3, [(0, 1), (2, 3)], 1, 0), OP),
        ("seq3", f_seq(3, 3, [(0, 1), (2, 0)], 1, 0), OP),
        ("seq3-comb", f_seq(3, 3, [(0, 1), (0, 2), (1, 2)], 2, 2, combination_pair_selector), OP),
        ("seq3-seq", f_seq(3, 3, [(0, 1), (1, 2), (2, 0)], 2, 2, sequential_pair_selector), OP),
    ]
