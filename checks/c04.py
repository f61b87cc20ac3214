"""C04: iterative source steering (ISS1)."""

import numpy as np

from ssspy.bss._update_spatial_model import update_by_iss1

FUNCTIONS = ["ssspy.bss._update_spatial_model.update_by_iss1"]
BOUNDS = (
    "2 sources x 1-3 bins x 1-4 frames, 3 sources x 1-2 bins x 2-4 frames, 4 sources x 1-2 bins x 4-5 frames, slices of the entries symbolic (2 sources x 2 frames: all); real and complex; exact real arithmetic."
)
ASSUMPTIONS = ['weights positive']


def reference(Y, phi, src, floor=lambda x: x):
    """one ISS1 step: every other source is decorrelated from y_src under its own weight,
    y_src is normalised under its own weight."""
    K, nb, T = Y.shape
    out = []
    y = Y[src]
    for k in range(K):
        d = floor((phi[k] * np.real(y * y.conj())).sum(axis=-1) / T)
        if k == src:
            out.append(y / np.sqrt(d)[:, None])
        else:
            c = (phi[k] * Y[k] * y.conj()).sum(axis=-1) / T
            out.append(Y[k] - (c / d)[:, None] * y)
    return np.stack(out, axis=0)


def f(K, nb, T, symY, symP, cplx=True, floor=None):
    def run(ctx):
        Y = ctx.cplx("Y", (K, nb, T), sym=symY) if cplx else ctx.real("Y", (K, nb, T), sym=symY)
        P = ctx.pos("P", (K, nb, T), sym=symP)
        Y0, P0 = Y.copy(), P.copy()
        kw = {}
        fl = lambda x: x  # noqa: E731
        if floor == "double":
            fl = lambda x: 2 * x  # noqa: E731
            kw["flooring_fn"] = fl
        elif floor == "none":
            kw["flooring_fn"] = None
        Z = update_by_iss1(Y, P, **kw)
        ctx.same(Y, Y0, "separated untouched")
        ctx.same(P, P0, "weight untouched")
        ctx.check(Z.shape == Y.shape, "shape")
        ref = Y0
        for s in range(K):
            ref = reference(ref, P0, s, fl)
        ctx.eq(Z, ref, "sweep of decorrelate/normalise steps")
        if floor != "double":
            last = Z[K - 1]
            for k in range(K):
                g = (P0[k] * Z[k] * last.conj()).sum(axis=-1) / T
                ctx.eq(g, 1 if k == K - 1 else 0, f"moment of source {k} with the last source")

    return run


def harnesses(tier):
    return [
        ("n2", f(2, 1, 2, None, 1), {}),
        ("n2-w", f(2, 1, 3, 0, None), {}),
        ("n2-real", f(2, 1, 2, None, None, cplx=False), {}),
        ("n2-2bins", f(2, 2, 2, 2, 2, floor="none"), {}),
        ("n2-floor", f(2, 1, 2, 1, 2, floor="double"), {}),
        ("n3", f(3, 1, 3, 1, 1), {}),
        ("n3-w", f(3, 1, 3, 0, 3), {}),
        ("n3-y", f(3, 1, 3, 1, 0), {}),
        ("n4", f(4, 1, 4, 0, 1), {}),
        ("n1", f(1, 2, 3, None, None), {}),
        ("n2-3bins", f(2, 3, 2, 2, 2), {}),
        ("n2-1frame-1", f(2, 2, 1, None, None, floor="double"), {}),
        ("n2-4frames", f(2, 1, 4, 1, 2), {}),
        ("n3-real", f(3, 2, 4, 1, 1, cplx=False), {}),
        ("n3-2bins", f(3, 2, 3, 1, 1, floor="double"), {}),
        ("n3-nofloor", f(3, 1, 3, 1, 1, floor="none"), {}),
        ("n4-real", f(4, 1, 5, 0, 1, cplx=False), {}),
        ("n4-y", f(4, 2, 4, 1, 0), {}),
        *[(n, f(*a, floor="none", **k), {"policy": {"floor": "fork", "eq": "generic"}}) for n, a, k in (
            ("n2-fork", (2, 1, 2, 1, 1), {}), ("n2-real-fork", (2, 1, 2, None, 2), {"cplx": False}), ("n3-fork", (3, 1, 3, 1, 0), {}),
        )],
    ]
