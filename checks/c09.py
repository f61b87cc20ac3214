"""C09: minimal distortion principle."""

import numpy as np

from ssspy.algorithm import minimal_distortion_principle

from .models import SCALED, restored

FUNCTIONS = [
    "ssspy.algorithm.minimal_distortion_principle.minimal_distortion_principle",
    "restore_scale/apply_minimal_distortion_principle of FDICA, IVA, ILRMA, IPSDTA and proximal separators",
]
BOUNDS = (
    "function: 1-3 channels, 1-2 bins, 2-3 frames, 2 entries up to every entry of signal and reference symbolic; separators: 2 channels, 2 bins, 3 frames, "
    "2 entries each of mixture and initial filter symbolic, no iterations. Exact arithmetic."
)
ASSUMPTIONS = ["no separated signal vanishes; the mixture's frames have full rank (separators)"]


def func(n, nb, T, sym, symX, ref, real=False, m=None):
    def run(ctx):
        mk = ctx.real if real else ctx.cplx
        Y = mk("Y", (n, nb, T), sym=sym)
        X = mk("X", (m or n, nb, T), sym=symX)
        Y0, X0 = Y.copy(), X.copy()
        out = minimal_distortion_principle(Y, reference=X, reference_id=ref)
        ctx.same(Y, Y0, "estimate not modified")
        ctx.same(X, X0, "reference not modified")
        o = out if ref is None else out[None]
        refs = range(m or n) if ref is None else [ref]
        ctx.check(o.shape == (len(refs), n, nb, T), "shape")
        for k, r in enumerate(refs):
            res = X0[r] - o[k]
            ctx.zero(np.sum(res * Y0.conj(), axis=-1), "residual orthogonal to the separated signal")
            for t in range(1, T):
                ctx.eq(o[k][..., t] * Y0[..., 0], o[k][..., 0] * Y0[..., t], "one factor per source and bin")

    return run


def scale(n, nb, T, sym, ref):
    def run(ctx):
        Y = ctx.cplx("Y", (n, nb, T), sym=sym)
        X = ctx.cplx("X", (n, nb, T), sym=2)
        d = ctx.cplx("d", (n, nb), sym=1)
        out = minimal_distortion_principle(Y, reference=X, reference_id=ref)
        ctx.eq(minimal_distortion_principle(d[..., None] * Y, reference=X, reference_id=ref), out, "invariant to rescaled sources")
        if ref is not None:
            ctx.eq(minimal_distortion_principle(out, reference=X, reference_id=ref), out, "idempotent")

    return run


def mdp(Y, X, ref):
    """the least-squares scale, from its definition"""
    c = np.sum(X[ref] * Y.conj(), axis=-1, keepdims=True) / np.sum(Y * Y.conj(), axis=-1, keepdims=True)
    return c * Y


def harnesses(tier):
    hs = []
    for ref in (0, 1, None):
        hs.append((f"func-ref{ref}", func(2, 1, 2, None, None, ref), {}))
    hs += [
        ("func-2bins", func(2, 2, 3, 4, 3, 1), {}),
        ("func-n3", func(3, 2, 2, 4, 3, 2), {}),
        ("func-n3-None", func(3, 1, 2, 3, 3, None), {}),
        ("func-3mics", func(2, 1, 3, 3, 3, None, m=3), {}),
        ("func-3mics-ref2", func(2, 1, 3, 3, 3, 2, m=3), {}),
        ("func-negative-ref", func(3, 1, 2, 3, 3, -1), {}),
        *[(f"func-n3-ref{r}", func(3, 1, 3, 3, 3, r), {}) for r in (0, 1, -2, -3)],
        *[(f"func-n4-ref{r}", func(4, 2, 3, 3, 3, r), {}) for r in (0, 3, -1, -3, None)],
        ("func-3bins", func(2, 3, 4, 4, 4, 0), {}),
        ("func-1frame", func(2, 3, 1, None, None, 1), {}),
        ("func-1source-3mics", func(1, 1, 3, None, None, None, m=3), {}),
        ("func-real-None", func(3, 2, 3, 4, 4, None, real=True), {}),
        ("scale-n3", scale(3, 1, 3, 2, 2), {}),
        ("func-real", func(2, 1, 3, None, None, 0, real=True), {}),
        ("func-1source", func(1, 2, 3, None, None, 0), {}),
        ("scale-ref0", scale(2, 1, 2, 3, 0), {}),
        ("scale-ref1", scale(2, 2, 2, 3, 1), {}),
        ("scale-None", scale(2, 1, 3, 2, None), {}),
    ]
    pol = {"policy": {"opaque": ("eigh",), "eq": "generic", "floor": "inactive"}}
    for k, n in enumerate(SCALED):
        kw = ["minimal_distortion_principle", "MDP"][k % 2] if tier == "quick" else "minimal_distortion_principle"
        for ref in (0, 1) if tier == "thorough" else ((k // 2 + 1) % 2,):
            hs.append((f"restore-{n}-ref{ref}", restored(n, kw, ref, mdp), pol))
        ref = (2, -1, 0, 1, -3)[k % 5]
        if "Fast" not in n:  # (3x3 whitening is out of reach)
            hs.append((f"restore3-{n}-ref{ref}", restored(n, kw, ref, mdp, 1, 4, 3), pol))
    # the bare function: comparisons with tiny constants are explored on both sides
    hs = [(n, f, o or {"policy": {"clamp": False, "floor": "fork", "eq": "generic"}}) for n, f, o in hs]
    if tier == "thorough":
        hs += [("T-func-n3", func(3, 1, 3, None, None, 1), {}), ("T-func-None", func(3, 2, 3, None, None, None), {})]
        for n in ("GradIVA:", "AuxIVA:ISS1", "GaussILRMA:IP1", "FastIVA:"):
            hs.append((f"T-restore3-{n}", restored(n, "MDP", 2, mdp, 1, 4, 3), pol))
    return hs
