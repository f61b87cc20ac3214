"""C25: FastICA, FastIVA, FasterIVA."""

import numpy as np

from ssspy.bss import iva
from ssspy.transform import whiten

from .c12 import unitary
from .common import Patch
from .models import make

FUNCTIONS = [
    "ssspy.bss.ica.FastICA.update_once", "ssspy.bss.ica.FastICABase.{__call__,_reset,separate,compute_loss}",
    "ssspy.bss.iva.{FastIVA,FasterIVA}.{__call__,update_once}",
    "ssspy.bss.iva.FastIVABase.{_reset,separate,compute_loss,apply_projection_back,apply_minimal_distortion_principle}",
    "ssspy.linalg.eigh.eigh",
]
BOUNDS = (
    "2-3 sources, 1-2 bins, 2-3 frames; filter and whitened signals on slices of 2-6 symbols, contrast derivatives uninterpreted; the polar factor of the "
    "unnormalised update is taken for arbitrary singular value decompositions (every 2x2 unitary). Exact arithmetic."
)
ASSUMPTIONS = ["flooring inactive (or an arbitrary shift where stated)", "np.linalg.svd by its defining equations", "update is not the zero vector"]
NV = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic", "dag": 2, "follow": True}, "noval": True}
OPT = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic"}, "max_paths": 20}


def orthonormal_ica(n, T, symZ, symW, row=None):
    """row: the step is the identity, so that the deflation acts on an arbitrary row (of a filter given otherwise)"""

    def run(ctx):
        kw = {} if row is None else {"score_fn": lambda y: 0 * y, "d_score_fn": lambda y: 0 * y + 1}
        m = make("FastICA:", ctx, record_loss=False)
        for k, v in kw.items():
            setattr(m, k, v)
        Z = ctx.real("Z", (n, T), sym=symZ)
        if row is None:
            W = ctx.real("W", (n, n), sym=symW)
        else:
            W = (np.add.outer(np.arange(n), np.arange(n)) % n + 1.0) / 4
            W = np.stack([ctx.real("w", (n,), sym=min(n, 3)) if k == row else W[k] for k in range(n)])
        W0 = W.copy()
        m.n_sources, m.n_channels, m.n_samples = n, n, T
        m.whitened_input, m.demix_filter = Z, W.copy()
        m.update_once()
        V = m.demix_filter
        ctx.eq(m.output, V @ Z, "output is the updated filter applied to the whitened input")
        # step for each source in order, deflated against the updated rows
        done = []
        for k in range(n):
            y = W0[k] @ Z
            p, s = m.d_score_fn(y), m.score_fn(y)
            w = sum(p[t] for t in range(T)) / T * W0[k] - sum(s[t] * Z[:, t] for t in range(T)) / T
            u = w
            for v in done:
                u = u - np.sum(v * w) * v
            r = np.sqrt(np.sum(u * u))
            ctx.eq(V[k] * r, u, f"row {k}: fixed-point step, deflation, normalisation")
            ctx.zero(np.sum(V[k] * V[k]) - 1, f"row {k} has unit norm")
            for v in done:
                ctx.zero(np.sum(V[k] * v), f"row {k} orthogonal to the earlier rows")
            done.append(V[k])

    return run


def ica_call(n_iter):
    """FastICA starts from the whitened mixture and returns filter @ whitened mixture"""

    def run(ctx):
        X = ctx.real("X", (2, 3), sym=2)
        X0 = X.copy()
        m = make("FastICA:", ctx)
        out = m(X, n_iter=n_iter)
        ctx.same(X, X0, "mixture untouched")
        Z = whiten(X0)
        ctx.eq(m.whitened_input, Z, "works on the whitened mixture")
        ctx.eq(Z @ Z.T / 3, np.eye(2), "whitened")
        ctx.eq(out, m.demix_filter @ Z, "output = filter @ whitened mixture")
        ctx.eq(m.separate(X0, demix_filter=m.demix_filter), out, "separate() whitens by default")
        G = m.contrast_fn(out)
        ref = sum(G[:, t] for t in range(3)).sum() / 3
        ctx.eq(ctx.const(m.compute_loss()), ref, "loss is the mean contrast")
        if not n_iter:
            ctx.eq(m.demix_filter, np.eye(2), "initial filter is the identity")

    return run


class Split:
    """sym mode: svd returns arbitrary unitary factors; remembers the decomposed matrices."""

    def __init__(self, ctx, n):
        self.calls = []
        if ctx.mode == "sym":

            def fn(M):
                k = len(self.calls)
                if M.shape != (n, n):
                    return None
                U, V = unitary(ctx, f"svdU{k}", n, (), True), unitary(ctx, f"svdV{k}", n, (), True)
                s = ctx.pos(f"svds{k}", (n,))
                self.calls.append((M, U, s, V))
                return U, s, V

            ctx.free_svd(fn)


def polar(ctx, split, P, V, phases=False):
    """V (n_bins, n, n) is the unitary polar factor of P; rows of P known up to phase if ``phases``."""
    nb, n = P.shape[0], P.shape[-1]
    I = np.eye(n)
    if ctx.mode == "sym":
        ctx.check(len(split.calls) == nb, "one decomposition per bin")
        for b, (M, U, s, Vh) in enumerate(split.calls):
            if phases:
                for k in range(n):
                    yield b, k, M[k]
            else:
                ctx.zero(M - P[b], "matrix that is orthonormalised is the fixed-point step")
            ctx.zero(V[b] - U @ Vh, "polar factor")
            ctx.zero(V[b] @ ctx.H(V[b]) - I, "filter is unitary")
    else:
        ctx.zero(V @ ctx.H(V) - I, "filter is unitary")
        if phases:  # P: principal eigenvectors up to phase
            for b in range(nb):
                u, s, vh = np.linalg.svd(P[b])
                Q = u @ vh
                for k in range(n):
                    ctx.zero(np.outer(V[b, k], V[b, k].conj()) - np.outer(Q[k], Q[k].conj()), "rows of the polar factor of the eigenvector matrix")
        else:
            S = ctx.H(V) @ P
            ctx.zero(S - ctx.H(S), "symmetric orthonormalisation: W^H P Hermitian")
            for b in range(nb):
                ctx.ge(np.linalg.eigvalsh(S[b]), 0, "W^H P positive semidefinite")


def prepared(name, ctx, n, nb, T, symZ, symW, floor):
    kw = {"scale_restoration": False, "record_loss": False}
    if floor:
        kw["flooring_fn"] = lambda x: x + floor
    m = make(name, ctx, **kw)
    Z = ctx.cplx("Z", (n, nb, T), sym=symZ)
    W = ctx.cplx("W", (nb, n, n), sym=symW)
    m.n_sources, m.n_channels, m.n_bins, m.n_frames = n, n, nb, T
    m.whitened_input, m.demix_filter = Z, W.copy()
    m.input = Z
    return m, Z, W


def fast(n, nb, T, symZ, symW, floor=None):
    def run(ctx):
        m, Z, W = prepared("FastIVA:", ctx, n, nb, T, symZ, symW, floor)
        split = Split(ctx, n)
        m.update_once()
        V = m.demix_filter
        fl = (lambda x: x + floor) if floor else (lambda x: x)
        Y = (W @ Z.transpose(1, 0, 2)).transpose(1, 0, 2)
        r = np.sqrt(sum(np.real(Y[:, b] * Y[:, b].conj()) for b in range(nb)))
        phi = m.d_contrast_fn(r) / fl(2 * r)
        dd = m.dd_contrast_fn(r)
        rows = []
        for k in range(n):
            row = []
            for b in range(nb):
                acc = 0
                for t in range(T):
                    y = Y[k, b, t]
                    wh = W[b, k].conj()  # w as a column
                    z = Z[:, b, t]
                    acc = acc + phi[k, t] * (wh - y.conj() * z)
                    acc = acc - np.real(y * y.conj()) * (2 * phi[k, t] - dd[k, t]) / fl(2 * r[k, t]) * wh
                row.append((acc / T).conj())
            rows.append(np.stack(row, axis=0))
        P = np.stack(rows, axis=1)
        for _ in polar(ctx, split, P, V):
            pass

    return run


def faster(nb, T, symZ, symW, floor=None, n=2):
    def run(ctx):
        m, Z, W = prepared("FasterIVA:", ctx, n, nb, T, symZ, symW, floor)
        split = Split(ctx, n)
        eigs = []
        if ctx.mode == "sym":

            def free(M):
                lam = ctx.real(f"ev{len(eigs)}", (1,))
                for k in range(n - 1):
                    lam = np.concatenate([lam, lam[-1:] + ctx.pos(f"gap{len(eigs)}{k}", (1,))])
                eigs.append((M, lam, unitary(ctx, f"evec{len(eigs)}", n, (), True)))
                return eigs[-1][1:]

            ctx.free_eigh(free)
        m.update_once()
        V = m.demix_filter
        fl = (lambda x: x + floor) if floor else (lambda x: x)
        Y = (W @ Z.transpose(1, 0, 2)).transpose(1, 0, 2)
        r = np.sqrt(sum(np.real(Y[:, b] * Y[:, b].conj()) for b in range(nb)))
        phi = m.d_contrast_fn(r) / fl(2 * r)
        U = np.stack([np.stack([sum(phi[k, t] * Z[:, b, t][:, None] * Z[:, b, t].conj()[None, :] for t in range(T)) / T
                                for k in range(n)]) for b in range(nb)])  # (nb, k, n, n)
        P = None
        if ctx.mode == "num":
            P = np.linalg.eigh(U)[1][..., -1].conj()
        else:
            P = np.zeros((nb, n, n))
        if ctx.mode == "sym":
            ctx.check(len(eigs) == nb * n, "one eigendecomposition per bin and source")
        for b, k, row in polar(ctx, split, P, V, phases=True):
            M, _, E = eigs[b * n + k]
            ctx.zero(M - U[b, k], "eigendecomposition of the weighted covariance of the source")
            ctx.zero(row - E[:, -1].conj(), "row is the eigenvector of the largest eigenvalue")

    return run


def whitened(ctx, n, nb):
    """Z with Z Z^H / T = I for T = n frames: every such Z (n = 2)"""
    Q = unitary(ctx, "Zq", n, (nb,), True)
    return (Q * np.sqrt(n)).transpose(1, 0, 2)


def uncorrelated(name, nb):
    """unitary filter on whitened data -> outputs uncorrelated with unit power after every update"""

    def run(ctx):
        n = 2
        m, _, W = prepared(name, ctx, n, nb, n, 0, 1, None)
        Z = whitened(ctx, n, nb)
        m.whitened_input = Z
        Split(ctx, n)
        m.update_once()
        Y = m.separate(Z, demix_filter=m.demix_filter, use_whitening=False)
        for b in range(nb):
            ctx.zero(Y[:, b] @ ctx.H(Y[:, b]) / n - np.eye(n), "separated signals uncorrelated, unit power")

    return run


def iva_call(name, keyword, ref, nb=1, T=3):
    """scale restoration refers to the observation; filter stays consistent with the whitened input.
    In sym mode whitening is replaced by its contract (C11 decides it): an arbitrary array depending on the observation."""

    def run(ctx):
        if ctx.mode == "num":
            return body(ctx, whiten)
        Z = ctx.cplx("Z", (2, nb, T), sym=2)
        seen = []

        def stub(X):
            seen.append(X)
            return Z.copy()

        with Patch(iva, "whiten", stub):
            body(ctx, stub)
        for X in seen:
            ctx.same(X, seen[-1], "the observation is what is whitened")

    def body(ctx, whiten):
        n = 2
        X = ctx.cplx("X", (n, nb, T), sym=2)
        W = ctx.cplx("W", (nb, n, n), sym=2)
        X0, W0 = X.copy(), W.copy()
        m = make(name, ctx, scale_restoration=keyword, reference_id=ref)
        out = m(X, n_iter=0, demix_filter=W)
        ctx.same(X, X0, "mixture untouched")
        ctx.same(W, W0, "initial filter untouched")
        Z = whiten(X0)
        ctx.zero(m.whitened_input - Z, "works on the whitened mixture")
        Y = (W0 @ Z.transpose(1, 0, 2)).transpose(1, 0, 2)
        G = m.contrast_fn(Y)
        ctx.zero(ctx.const(m.loss[0]) - sum(G[:, t] for t in range(T)).sum() / T, "loss is the mean contrast of the separated whitened signals")
        R = X0[ref]
        if keyword is False:
            ctx.zero(out - Y, "no restoration")
        elif keyword is True or keyword == "projection_back":
            # least squares of the reference on the separated signals
            E = np.sum(out, axis=0) - R
            for k in range(n):
                ctx.zero(np.sum(E * Y[k].conj(), axis=-1), "residual orthogonal to every separated signal")
        else:
            for k in range(n):
                ctx.zero(np.sum((out[k] - R) * Y[k].conj(), axis=-1), "minimal distortion of each source")
        for k in range(n):
            for t in range(1, T):
                ctx.zero(out[k, :, t] * Y[k, :, 0] - out[k, :, 0] * Y[k, :, t], "one scale per source and bin")
        ctx.zero((m.demix_filter @ Z.transpose(1, 0, 2)).transpose(1, 0, 2) - out, "output = filter @ whitened mixture")
        ctx.zero(m.separate(X0, demix_filter=m.demix_filter) - out, "separate() whitens by default")

    return run


def harnesses(tier):
    h = [
        ("ica2", orthonormal_ica(2, 2, 2, 2), OPT),
        ("ica2-T3", orthonormal_ica(2, 3, 1, 1), OPT),
        ("ica3-w", orthonormal_ica(3, 2, 0, 1), OPT),
        ("ica3-z", orthonormal_ica(3, 2, 1, 0), OPT),
        *[(f"deflate{n}-{row}", orthonormal_ica(n, n, 0, 1, row=row), OPT) for n in (3, 4, 5) for row in range(max(n - 2, 1), n)],
        ("fast3", fast(3, 1, 3, 1, 1), OPT),
        ("fast4", fast(4, 2, 4, 1, 0), OPT),
        ("faster3", faster(2, 3, 1, 0, n=3), OPT),
        ("ica-call0", ica_call(0), OPT),
        ("fast2", fast(2, 1, 2, 1, 2), OPT),
        ("fast2-bins", fast(2, 2, 2, 1, 1), OPT),
        ("fast2-z", fast(2, 2, 2, 3, 0), OPT),
        ("fast2-floor", fast(2, 2, 2, 1, 1, floor=0.5), OPT),
        ("faster2", faster(1, 2, 1, 1), OPT),
        ("faster2-bins", faster(2, 2, 1, 1), OPT),
        ("faster2-floor", faster(2, 2, 1, 1, floor=0.5), OPT),
        ("unc-fast", uncorrelated("FastIVA:", 1), OPT),
        ("unc-fast2", uncorrelated("FastIVA:", 2), OPT),
        ("unc-faster", uncorrelated("FasterIVA:", 1), OPT),
    ]
    for name in ("FastIVA:", "FasterIVA:"):
        for kw, ref in [(False, 0), (True, 0), ("projection_back", 1), ("minimal_distortion_principle", 1), (True, -1)]:
            h.append((f"call-{name}{kw}{ref}", iva_call(name, kw, ref), OPT))
    return h
