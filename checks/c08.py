"""C08: projection back."""

import numpy as np

from ssspy.algorithm import projection_back

from .models import SCALED, restored

FUNCTIONS = [
    "ssspy.algorithm.projection_back.projection_back",
    "restore_scale/apply_projection_back of FDICA, IVA, ILRMA, IPSDTA and proximal separators",
]
BOUNDS = (
    "2 channels: every entry of the filter/mixture symbolic (complex and real), 1-2 bins; 3 channels: slices with 3-4 symbolic "
    "entries. Signals have as many frames as channels or one more. All reference ids and None. "
    "Separators: 2 channels, 2 bins, 3 frames, 2 entries each of mixture and initial filter symbolic, no iterations. Exact arithmetic."
)
ASSUMPTIONS = ["the filter (or the frame Gram matrix of the separated signals) is invertible"]


def filt(n, batch, sym, cplx=True, ref=0):
    def run(ctx):
        mk = ctx.cplx if cplx else ctx.real
        W = mk("W", batch + (n, n), sym=sym)
        W0 = W.copy()
        out = projection_back(W, reference_id=ref)
        ctx.same(W, W0, "argument not modified")
        # the scale is A[ref, src] with A the inverse:  sum_src  out[src, :] = e_ref
        if ref is None:
            ctx.check(out.shape == (n,) + batch + (n, n), "shape with reference_id=None")
            for r in range(n):
                ctx.eq(np.sum(out[r], axis=-2), np.broadcast_to(np.eye(n)[r], batch + (n,)), f"sources sum to microphone {r}")
        else:
            ctx.check(out.shape == W.shape, "shape")
            ctx.eq(np.sum(out, axis=-2), np.broadcast_to(np.eye(n)[ref], batch + (n,)), "sources sum to the reference microphone")
        # rows keep their direction
        o = out if ref is None else out[None]
        for i in range(n):
            for j in range(i):
                ctx.eq(o[..., :, i] * W0[..., :, j], o[..., :, j] * W0[..., :, i], "rows keep their direction")
        if ref is not None:
            ctx.eq(projection_back(out, reference_id=ref), out, "idempotent")

    return run


def filt_scale(n, batch, sym, ref):
    def run(ctx):
        W = ctx.cplx("W", batch + (n, n), sym=sym)
        d = ctx.cplx("d", batch + (n,), sym=None if n == 2 else 1)
        out = projection_back(W, reference_id=ref)
        ctx.eq(projection_back(d[..., None] * W, reference_id=ref), out, "invariant to rescaled rows")

    return run


def signal(n, nb, T, symW, symX, ref, cplx=True):
    def run(ctx):
        mk = ctx.cplx if cplx else ctx.real
        X = mk("X", (n, nb, T), sym=symX)
        W = mk("W", (nb, n, n), sym=symW)
        Y = (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)
        X0, Y0 = X.copy(), Y.copy()
        out = projection_back(Y, reference=X, reference_id=ref)
        ctx.same(X, X0, "reference not modified")
        ctx.same(Y, Y0, "signal not modified")
        o = out if ref is None else out[None]
        refs = range(n) if ref is None else [ref]
        if ref is None:
            ctx.check(out.shape == (n, n, nb, T), "shape with reference_id=None")
        else:
            ctx.check(out.shape == (n, nb, T), "shape")
        for k, r in enumerate(refs):
            ctx.eq(np.sum(o[k], axis=0), X0[r], f"sources sum to microphone {r}")
        Wp = projection_back(W, reference_id=ref)
        Yp = Wp @ X0.transpose(1, 0, 2)
        ctx.eq(out, np.moveaxis(Yp, -2, -3), "same result on the signal and on the filter")

    return run


def lsq(n, nb, T, sym, ref, m=None):
    """general signals (not from a square filter): residual orthogonal to every separated signal."""

    def run(ctx):
        Y = ctx.cplx("Y", (n, nb, T), sym=sym)
        X = ctx.cplx("X", (m or n, nb, T), sym=sym)
        out = projection_back(Y, reference=X, reference_id=ref)
        o = out if ref is None else out[None]
        for k, r in enumerate(range(m or n) if ref is None else [ref]):
            res = X[r] - np.sum(o[k], axis=0)
            for i in range(n):
                ctx.zero(np.sum(res * Y[i].conj(), axis=-1), "residual orthogonal to the separated signals")
                for t in range(1, T):
                    ctx.eq(o[k][i][:, t] * Y[i][:, 0], o[k][i][:, 0] * Y[i][:, t], "one factor per source and bin")

    return run


def signal_scale(n, nb, T, sym, ref):
    def run(ctx):
        Y = ctx.cplx("Y", (n, nb, T), sym=sym)
        X = ctx.cplx("X", (n, nb, T), sym=2)
        d = ctx.cplx("d", (n, nb), sym=1)
        out = projection_back(Y, reference=X, reference_id=ref)
        ctx.eq(projection_back(d[..., None] * Y, reference=X, reference_id=ref), out, "invariant to rescaled sources")
        if ref is not None:
            ctx.eq(projection_back(out, reference=X, reference_id=ref), out, "idempotent")

    return run


def pb(Y, X, ref):
    """the least-squares coefficients of all sources at the reference microphone, from the normal equations"""
    Yb = Y.transpose(1, 0, 2)
    G = Yb @ Yb.transpose(0, 2, 1).conj()
    b = np.sum(X[ref][:, None] * Yb.conj(), axis=-1)
    c = np.linalg.solve(G.transpose(0, 2, 1), b[..., None])
    return (c * Yb).transpose(1, 0, 2)


def harnesses(tier):
    hs = []
    pol = {"policy": {"opaque": ("eigh",), "eq": "generic", "floor": "inactive"}}
    for k, n in enumerate(SCALED):
        kw = [True, "projection_back", "PB", "projection-back"][k % 4]
        for ref in (0, 1) if tier == "thorough" else ((k // 2) % 2,):
            hs.append((f"restore-{n}-ref{ref}", restored(n, kw, ref, pb), pol))
        ref = (-1, 2, 1, 0, -2)[k % 5]
        if "Fast" not in n:  # (3x3 whitening is out of reach)
            hs.append((f"restore3-{n}-ref{ref}", restored(n, kw, ref, pb, 1, 4, 3), pol))
    for n in ("GradFDICA:", "AuxIVA:ISS1", "FastIVA:", "GaussILRMA:ISS1", "PDSBSS:", "GaussIPSDTA:"):
        hs.append((f"norestore-{n}", restored(n, False, 0, None), pol))
    for ref in (0, 1, None, -1):
        hs.append((f"filter-n2-ref{ref}", filt(2, (1,), None, True, ref), {}))
    hs += [
        ("filter-2d-ref0", filt(2, (), None, True, 0), {}),
        ("filter-2d-refNone", filt(2, (), None, True, None), {}),
        ("filter-4d-ref1", filt(2, (2, 2), 5, True, 1), {}),
        ("filter-4d-refNone", filt(2, (2, 2), 5, True, None), {}),
        ("filter-real", filt(2, (2,), None, False, 1), {}),
        ("filter-n3-ref2", filt(3, (1,), 4, True, 2), {}),
        ("filter-n3-refNone", filt(3, (1,), 3, True, None), {}),
        *[(f"filter-n3-ref{r}", filt(3, (1,), 3, True, r), {}) for r in (0, 1, -1, -2, -3)],
        *[(f"filter-n4-ref{r}", filt(4, (), 2, True, r), {}) for r in (0, 1, 2, 3, -1, -3)],
        ("filter-n4-refNone", filt(4, (1,), 2, True, None), {}),
        ("filter-3bins", filt(2, (3,), 4, True, 0), {}),
        ("filter-5d-refNone", filt(2, (1, 3, 2), 4, True, None), {}),
        ("filter-real-n3-refNone", filt(3, (2,), 3, False, None), {}),
        ("filter-n1", filt(1, (2,), None, True, 0), {}),
        ("filter-scale-ref1", filt_scale(2, (1,), None, 1), {}),
        ("filter-scale-refNone", filt_scale(2, (2,), 4, None), {}),
    ]
    for ref in (0, 1, None):
        hs.append((f"signal-ref{ref}", signal(2, 1, 2, 4, 2, ref), {}))
    hs += [
        ("signal-2bins", signal(2, 2, 3, 1, 1, 1), {}),
        ("signal-n3", signal(3, 1, 3, 1, 1, 2), {}),
        *[(f"signal-n3-ref{r}", signal(3, 1, 3, 1, 1, r), {}) for r in (0, 1, -1, -2)],
        ("signal-n4-ref3", signal(4, 1, 4, 1, 0, 3), {}),
        ("signal-n4-refNone", signal(4, 2, 5, 1, 0, None), {}),
        ("signal-3bins", signal(2, 3, 4, 1, 1, 0), {}),
        ("signal-1source", signal(1, 2, 3, None, None, 0), {}),
        ("lsq-n3", lsq(3, 1, 4, 1, 1), {}),
        ("lsq-n3-2mics", lsq(3, 2, 4, 1, None, 2), {}),
        ("lsq-n2-4mics-ref-1", lsq(2, 1, 5, 1, -1, 4), {}),
        ("signal-n3-None", signal(3, 2, 3, 1, 1, None), {}),
        ("signal-real", signal(2, 1, 3, 3, 3, 0, False), {}),
        ("lsq-ref0", lsq(2, 1, 3, 2, 0), {}),
        ("lsq-ref1", lsq(2, 2, 3, 1, 1), {}),
        ("lsq-None-3mics", lsq(2, 1, 3, 2, None, 3), {}),
        ("signal-scale-ref0", signal_scale(2, 1, 2, 2, 0), {}),
        ("signal-scale-None", signal_scale(2, 1, 3, 2, None), {}),
    ]
    if tier == "thorough":
        hs += [
            ("T-signal-full", signal(2, 1, 2, None, None, 1), {}),
            ("T-filter-n3-full", filt(3, (1,), 6, True, 0), {}),
            ("T-lsq-full", lsq(2, 1, 2, None, 0), {}),
        ]
    # the bare function: comparisons with tiny constants are explored on both sides
    hs = [(n, f, o or {"policy": {"clamp": False, "floor": "fork", "eq": "generic"}}) for n, f, o in hs]
    return hs
