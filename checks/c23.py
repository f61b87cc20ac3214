"""C23: IPSDTA (independent positive semidefinite tensor analysis)."""

import numpy as np

from ssspy.bss import ipsdta
from ssspy.bss._update_spatial_model import update_by_block_decomposition_vcd

from .c26 import det
from .common import Many, Patch, chol
from .models import make

CL = "ssspy.bss.ipsdta."
FUNCTIONS = [
    CL + "{GaussIPSDTA,TIPSDTA}.{__call__,update_once,update_source_model,update_source_model_mm,update_basis_mm,update_activation_mm,"
    "update_spatial_model,update_spatial_model_vcd,compute_loss}",
    CL + "BlockDecompositionIPSDTABase.{_reset,_init_block_decomposition_psdtf,n_remains,reconstruct_block_decomposition_psdtf,normalize_block_decomposition_psdtf}",
    CL + "IPSDTABase.{separate,compute_logdet,reconstruct_psdtf,normalize_psdtf}",
    "ssspy.bss._update_spatial_model.update_by_block_decomposition_vcd",
]
BOUNDS = (
    "2-3 sources, 1-3 bins in 1-2 blocks (equal, and with one larger block), 1-3 frames, 1-2 bases; mixture, demixing filter, bases (Cholesky factors) and "
    "activations symbolic in 1-3 entries each (all entries for single-bin blocks), the others fixed generic numbers; dof 3 and 1/2; exact arithmetic"
)
ASSUMPTIONS = [
    "bases positive definite, activations positive, flooring inactive",
    "to_psd is the Hermitian part (C13); sqrtmh, invsqrtmh and gmeanmh satisfy their defining equations (C10); the row updates of the demixing filter as in C07",
    "log x <= x - 1 and joint diagonalisability of two positive definite matrices link the step equations to the loss",
]
PD = {"clamp": False, "floor": "inactive", "eq": "generic"}
OPT = {"policy": PD, "max_paths": 40, "timeout": 15}
DAG = {"policy": dict(PD, dag=2, follow=True, opaque=("inv", "eigh")), "max_paths": 40, "timeout": 15}
NV = {"noval": True}


def herm(ctx, X):
    return 0.5 * (X + ctx.H(X))


def nopsd(ctx):
    if ctx.mode == "num":
        return Many([])

    def psd(X, axis1=-2, axis2=-1, **k):
        assert (axis1 % X.ndim, axis2 % X.ndim) == (X.ndim - 2, X.ndim - 1)
        return herm(ctx, X)

    return Patch(ipsdta, "to_psd", psd)


def split(nb, nblk):
    """sizes of the blocks: the first ones smaller"""
    q, r = divmod(nb, nblk)
    return [q] * (nblk - r) + [q + 1] * r


def setup(ctx, cls, n, nb, nblk, T, K, sym, iters=0, norm=False, **kw):
    sx, sw, st, sv = sym
    if cls == "TIPSDTA":
        kw.setdefault("dof", 3)
    kw.setdefault("scale_restoration", False)
    m = make(f"{cls}:", ctx, n_basis=K, n_blocks=nblk, source_normalization=norm, **kw)
    X = ctx.cplx("X", (n, nb, T), sym=sx)
    W = ctx.cplx("W", (nb, n, n), sym=sw)
    q, r = divmod(nb, nblk)

    def basis(tag, count, size):
        L = chol(ctx, tag, size, sym=st, batch=(n, K, count))
        return L @ ctx.H(L)

    if r:
        B = (basis("Tl", nblk - r, q), basis("Th", r, q + 1))
    else:
        B = basis("T", nblk, q)
    V = ctx.pos("V", (n, K, T), sym=sv)
    m(X, n_iter=iters, demix_filter=W.copy(), basis=tuple(b.copy() for b in B) if r else B.copy(), activation=V.copy())
    return m, X, W, B, V


def parts(B):
    """list of (n, K, size, size), one per block in frequency order"""
    out = []
    for b in B if isinstance(B, tuple) else (B,):
        out += [b[:, :, i] for i in range(b.shape[2])]
    return out


def chunks(A, nb, nblk, axis):
    """A split along its frequency axis into the blocks"""
    sizes = split(nb, nblk)
    at = np.cumsum([0] + sizes)
    return [np.take(A, range(at[i], at[i + 1]), axis=axis) for i in range(len(sizes))]


def apply(X, W):
    return (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)


def model(B, V):
    """covariances per block, (n, T, size, size)"""
    return [np.sum(b[:, :, None] * V[..., None, None], axis=1) for b in parts(B)]


def weight(m, Y, B, V, nb, nblk):
    """tangent slope of the log-likelihood in the quadratic term, (n, T)"""
    if not hasattr(m, "dof"):
        return None
    q = quad(Y, B, V, nb, nblk)
    return (m.dof + 2 * nb) / (m.dof + 2 * q)


def quad(Y, B, V, nb, nblk):
    q = {}
    for y, R in zip(chunks(Y, nb, nblk, 1), model(B, V)):
        v = y.transpose(0, 2, 1)  # (n, T, size)
        q.setdefault(R.shape[-1], []).append(np.real((v.conj()[..., None, :] @ np.linalg.inv(R) @ v[..., None])[..., 0, 0]))
    q = [np.sum(np.stack(v, axis=-1), axis=-1) for v in q.values()]  # blocks of one size together
    return q[0] if len(q) == 1 else q[0] + q[1]


def terms(m, Y, B, V, nb, nblk):
    """per block: R^-1 and w R^-1 y y^H R^-1, each (n, T, size, size)"""
    w = weight(m, Y, B, V, nb, nblk)
    out = []
    for y, R in zip(chunks(Y, nb, nblk, 1), model(B, V)):
        Ri = np.linalg.inv(R)
        v = y.transpose(0, 2, 1)[..., None]
        RYYR = Ri @ (v @ v.conj().swapaxes(-1, -2)) @ Ri
        if w is not None:
            RYYR = w[..., None, None] * RYYR
        out.append((Ri, RYYR))
    return out


def untouched(ctx, m, X, W, B, V, but):
    ctx.same(m.input, X, "input untouched")
    ctx.same(m.demix_filter, W, "filter untouched") if but != "filter" else None
    if but != "basis":
        for a, b in zip(parts(m.basis), parts(B)):
            ctx.same(a, b, "basis untouched")
    ctx.same(m.activation, V, "activation untouched") if but != "activation" else None


def activation(cls, n, nb, nblk, T, K, sym, **kw):
    def run(ctx):
        with nopsd(ctx):
            m, X, W, B, V = setup(ctx, cls, n, nb, nblk, T, K, sym, **kw)
            m.update_activation_mm()
        num = den = 0
        for b, (Ri, S) in zip(parts(B), terms(m, apply(X, W), B, V, nb, nblk)):
            num = num + np.real(np.trace(S[:, None] @ b[:, :, None], axis1=-2, axis2=-1))
            den = den + np.real(np.trace(Ri[:, None] @ b[:, :, None], axis1=-2, axis2=-1))
        ctx.eq(m.activation ** 2 * den, V ** 2 * num, "activation: minimiser of the auxiliary function")
        untouched(ctx, m, X, W, B, V, "activation")

    return run


def riccati(ctx, b, P, Q, new, calls, what):
    """new solves new P new = b Q b, given what the matrix functions called on the way return"""
    if not calls:
        ctx.eq(new @ P @ new, b @ Q @ b, f"{what}: stationary point of the auxiliary function")
        return
    kinds = [c[0] for c in calls]
    if kinds == ["gmeanmh"]:
        _, (A, C), t, G = calls[0]
        if t == 2:
            ctx.eq(A, P, f"{what}: linear term of the Riccati equation")
        else:
            assert t == 1
            ctx.eq(A @ P, np.broadcast_to(np.eye(P.shape[-1]), P.shape), f"{what}: linear term of the Riccati equation")
        ctx.eq(C, b @ Q @ b, f"{what}: constant term of the Riccati equation")
        ctx.eq(new, G, f"{what}: solution of the Riccati equation")
    else:
        # new = b S N S b with S S = Q and N (S b P b S) N = 1
        assert kinds == ["sqrtmh", "invsqrtmh"], f"unknown scheme {kinds}"
        _, (A,), _, S = calls[0]
        _, (M,), _, N = calls[1]
        ctx.eq(A, Q, f"{what}: square root of the constant term")
        ctx.eq(M, S @ b @ P @ b @ S, f"{what}: linear term seen through the square root")
        ctx.eq(new, b @ S @ N @ S @ b, f"{what}: solution of the Riccati equation")


def basis(cls, n, nb, nblk, T, K, sym, **kw):
    def run(ctx):
        calls = []

        def stub(name):
            def g(*a, type=1, **k):
                calls.append((name, a, type, herm(ctx, ctx.cplx(f"{name}{len(calls)}", a[0].shape, sym=2))))
                return calls[-1][3]

            return Patch(ipsdta, name, g)

        with nopsd(ctx):
            m, X, W, B, V = setup(ctx, cls, n, nb, nblk, T, K, sym, **kw)
            stubs = [stub(s) for s in ("gmeanmh", "sqrtmh", "invsqrtmh") if hasattr(ipsdta, s)]
            with Many(stubs if ctx.mode != "num" and nb > nblk else []):
                m.update_basis_mm()
        untouched(ctx, m, X, W, B, V, "basis")
        groups = B if isinstance(B, tuple) else (B,)
        news = m.basis if isinstance(B, tuple) else (m.basis,)
        ctx.check(isinstance(m.basis, tuple) == isinstance(B, tuple), "layout of the bases")
        ts = terms(m, apply(X, W), B, V, nb, nblk)
        per = len(calls) // len(groups)
        k = 0
        for gi, (b, new) in enumerate(zip(groups, news)):
            blk = ts[k:k + b.shape[2]]
            k += b.shape[2]
            Ri = np.stack([r for r, _ in blk], axis=2)  # (n, T, blocks, size, size)
            S = np.stack([s for _, s in blk], axis=2)
            v = V[:, :, :, None, None, None]
            P, Q = np.mean(v * Ri[:, None], axis=2), np.mean(v * S[:, None], axis=2)
            riccati(ctx, b, P, Q, new, calls[gi * per:(gi + 1) * per], "basis")
            ctx.eq(ctx.H(new), new, "basis is Hermitian")

    return run


def demix(cls, n, nb, nblk, T, K, sym, **kw):
    """rows updated by VCD with the covariances of the tangent majoriser"""

    def run(ctx):
        with nopsd(ctx):
            m, X, W, B, V = setup(ctx, cls, n, nb, nblk, T, K, sym, **kw)
            m.update_spatial_model()
        Y = apply(X, W)
        w = weight(m, Y, B, V, nb, nblk)
        at = 0
        for R, size in zip(model(B, V), split(nb, nblk)):
            Ri = np.linalg.inv(R)  # (n, T, p, q)
            x, w0 = X[:, at:at + size], W[at:at + size]
            # y_p^* Ri[p, q] y_q = w_q^H (Ri[p, q] x_q x_p^H) w_p
            XX = x.transpose(1, 0, 2)[:, None, :, None, :] * x.transpose(1, 0, 2)[None, :, None, :, :].conj()  # (p, q, c, d, T)
            C = Ri.transpose(3, 2, 0, 1)  # (p, q, n, T) = Ri[q, p]
            if w is not None:
                C = w * C
            U = np.mean(C[:, :, :, None, None, :] * XX[:, :, None], axis=-1)  # (p, q, n, c, d)
            new = update_by_block_decomposition_vcd(w0[None].copy(), U[None], singular_fn=lambda z: np.abs(z) <= m.flooring_fn(0))
            ctx.eq(m.demix_filter[at:at + size], new[0], "filter: coordinate descent on the auxiliary function of the current source model")
            at += size
        untouched(ctx, m, X, W, B, V, "filter")

    return run


def nll(ctx, m, X, W, B, V, nb, nblk):
    n = W.shape[-1]
    Y = apply(X, W)
    q = quad(Y, B, V, nb, nblk)
    if hasattr(m, "dof"):
        q = (m.dof + 2 * nb) / 2 * np.log(1 + 2 / m.dof * q)
    tot = np.sum(np.mean(q, axis=-1))
    for R in model(B, V):
        s = R.shape[-1]
        d = np.real(det(R.reshape((-1, s, s)))) if s > 1 else np.real(R.reshape(-1))
        tot = tot + np.sum(np.log(d)) / V.shape[-1]
    d = det(W)
    return tot - np.sum(np.log(np.real(d * d.conj())))


def loss(cls, n, nb, nblk, T, K, sym, **kw):
    def run(ctx):
        with nopsd(ctx):
            m, X, W, B, V = setup(ctx, cls, n, nb, nblk, T, K, sym, **kw)
            v = m.compute_loss()
        v = np.asarray(v) if ctx.mode == "num" else ctx.const(v)
        ctx.eq(v, nll(ctx, m, X, W, B, V, nb, nblk), "loss is the negative log-likelihood")
        untouched(ctx, m, X, W, B, V, None)

    return run


def normalise(cls, n, nb, nblk, T, K, sym, at_reset=False, **kw):
    def run(ctx):
        with nopsd(ctx):
            if at_reset:
                m, X, W, B, V = setup(ctx, cls, n, nb, nblk, T, K, sym, norm=True, **kw)
            else:
                m, X, W, B, V = setup(ctx, cls, n, nb, nblk, T, K, sym, norm=False, **kw)
                m.source_normalization = True
                m.normalize_block_decomposition_psdtf()
        tr = 0
        for b in parts(m.basis):
            tr = tr + np.real(np.trace(b, axis1=-2, axis2=-1))
        ctx.eq(tr, np.ones((n, K)), "unit total trace of every basis")
        for a, b in zip(parts(m.basis), parts(B)):
            ctx.eq(a[:, :, None] * m.activation[..., None, None], b[:, :, None] * V[..., None, None], "model covariance of every basis unchanged")
            ctx.eq(ctx.H(a), a, "Hermitian")
        ctx.same(m.demix_filter, W, "filter untouched")

    return run


def order(cls, n, nb, nblk, T, K, sym, norm, **kw):
    def run(ctx):
        a, X, W, B, V = setup(ctx, cls, n, nb, nblk, T, K, sym, iters=1, norm=norm, record_loss=False, **kw)
        b, *_ = setup2(ctx, cls, nblk, K, X, W, B, V, norm, **kw)
        b.update_basis_mm()
        b.update_activation_mm()
        if norm:
            b.normalize_block_decomposition_psdtf()
        b.update_spatial_model_vcd()
        for p, q in zip(parts(a.basis), parts(b.basis)):
            ctx.eq(p, q, "basis")
        ctx.eq(a.activation, b.activation, "activation")
        ctx.eq(a.demix_filter, b.demix_filter, "filter")
        ctx.eq(a.output, apply(X, a.demix_filter), "output is the filter applied to the input")

    return run


def setup2(ctx, cls, nblk, K, X, W, B, V, norm, **kw):
    if cls == "TIPSDTA":
        kw.setdefault("dof", 3)
    m = make(f"{cls}:", ctx, n_basis=K, n_blocks=nblk, source_normalization=norm, scale_restoration=False, record_loss=False, **kw)
    m(X, n_iter=0, demix_filter=W.copy(), basis=tuple(b.copy() for b in B) if isinstance(B, tuple) else B.copy(), activation=V.copy())
    return (m,)


def defaults(cls, n, nb, nblk, T, K):
    """default initialisation: diagonal nonnegative bases of the right block layout"""

    def run(ctx):
        kw = {"dof": 3} if cls == "TIPSDTA" else {}
        m = make(f"{cls}:", ctx, n_basis=K, n_blocks=nblk, source_normalization=False, scale_restoration=False, record_loss=False, **kw)
        X = ctx.cplx("X", (n, nb, T), sym=1)
        m(X, n_iter=0)
        ctx.check([b.shape[-1] for b in parts(m.basis)] == split(nb, nblk), "block sizes")
        for b in parts(m.basis):
            ctx.check(b.shape[:2] == (n, K), "bases per source")
            off = b * (1 - np.eye(b.shape[-1]))
            ctx.eq(off, 0 * off, "diagonal")
            d = np.real(np.diagonal(b, axis1=-2, axis2=-1))
            ctx.gt(d, 0, "positive")
        ctx.check(m.activation.shape == (n, K, T), "activations")

    return run


def harnesses(tier):
    h = []
    for cls, t in (("GaussIPSDTA", "gauss"), ("TIPSDTA", "t")):
        h += [
            (f"{t}-activation-b1", activation(cls, 2, 1, 1, 2, 2, (2, 2, 2, 2)), OPT),
            (f"{t}-activation", activation(cls, 2, 2, 1, 2, 2, (1, 1, 1, 1)), OPT),
            (f"{t}-activation-2blocks", activation(cls, 2, 2, 2, 2, 1, (1, 1, 1, 1)), OPT),
            (f"{t}-activation-2x2", activation(cls, 2, 4, 2, 1, 1, (1, 0, 1, 1)), OPT),
            (f"{t}-activation-remain", activation(cls, 2, 3, 2, 2, 1, (1, 0, 1, 1)), OPT),
            (f"{t}-activation-remain5", activation(cls, 2, 5, 3, 1, 1, (1, 0, 1, 0)), OPT),
            (f"{t}-activation-n3", activation(cls, 3, 2, 1, 1, 2, (1, 0, 1, 1)), OPT),
            (f"{t}-basis-b1", basis(cls, 2, 1, 1, 2, 2, (1, 1, 1, 1)), OPT),
            (f"{t}-basis-1x2", basis(cls, 2, 2, 2, 2, 1, (1, 1, 1, 1)), OPT),
            (f"{t}-basis", basis(cls, 2, 2, 1, 2, 2, (1, 1, 1, 1)), {**OPT, **NV}),
            (f"{t}-basis-2x2", basis(cls, 2, 4, 2, 2, 1, (1, 0, 1, 1)), {**OPT, **NV}),
            (f"{t}-basis-remain", basis(cls, 2, 3, 2, 2, 1, (1, 0, 1, 1)), {**OPT, **NV}),
            (f"{t}-basis-n3", basis(cls, 3, 2, 1, 2, 1, (1, 0, 1, 1)), {**OPT, **NV}),
            (f"{t}-loss-b1", loss(cls, 2, 1, 1, 2, 2, (1, 1, 1, 1)), OPT),
            (f"{t}-loss", loss(cls, 2, 2, 1, 2, 2, (1, 1, 1, 1)), OPT),
            (f"{t}-loss-2blocks", loss(cls, 2, 4, 2, 1, 1, (1, 1, 0, 1)), OPT),
            (f"{t}-loss-remain", loss(cls, 2, 3, 2, 2, 1, (1, 1, 0, 1)), OPT),
            (f"{t}-normalise", normalise(cls, 2, 2, 1, 2, 2, (0, 0, 1, 1)), OPT),
            (f"{t}-normalise-2x2", normalise(cls, 2, 4, 2, 2, 1, (0, 0, 1, 1)), OPT),
            (f"{t}-normalise-remain", normalise(cls, 2, 3, 2, 2, 2, (0, 0, 1, 1)), OPT),
            (f"{t}-normalise-reset", normalise(cls, 2, 3, 2, 2, 2, (0, 0, 1, 1), at_reset=True), OPT),
            (f"{t}-normalise-reset-even", normalise(cls, 2, 2, 1, 2, 2, (0, 0, 1, 1), at_reset=True), OPT),
            (f"{t}-filter-b1", demix(cls, 2, 1, 1, 3, 2, (1, 1, 1, 1)), DAG),
            (f"{t}-filter-1x2", demix(cls, 2, 2, 2, 3, 1, (1, 1, 1, 1)), DAG),
            (f"{t}-filter-1x2-nofloor", demix(cls, 2, 2, 2, 3, 1, (1, 1, 1, 1), flooring_fn=None), DAG),
            (f"{t}-filter-remain-nofloor", demix(cls, 2, 3, 2, 3, 1, (1, 1, 1, 1), flooring_fn=None), DAG),
            (f"{t}-filter", demix(cls, 2, 2, 1, 3, 2, (1, 1, 1, 1)), DAG),
            (f"{t}-filter-2x2", demix(cls, 2, 4, 2, 3, 1, (1, 1, 1, 1)), DAG),
            (f"{t}-filter-remain", demix(cls, 2, 3, 2, 3, 1, (1, 1, 1, 1)), DAG),
            (f"{t}-filter-n3", demix(cls, 3, 2, 1, 4, 1, (1, 1, 1, 1)), DAG),
            (f"{t}-order", order(cls, 2, 2, 1, 3, 1, (1, 1, 1, 1), False), {**DAG, **NV}),
            (f"{t}-order-norm", order(cls, 2, 2, 1, 3, 1, (1, 1, 1, 1), True), {**DAG, **NV}),
            (f"{t}-order-remain", order(cls, 2, 3, 2, 3, 1, (1, 1, 1, 1), True), {**DAG, **NV}),
        ]
        for nb, nblk in ((2, 1), (4, 2), (3, 2), (5, 3), (5, 2)):
            h.append((f"{t}-default-{nb}-{nblk}", defaults(cls, 2, nb, nblk, 2, 2), OPT))
    h += [
        ("t-activation-nu", activation("TIPSDTA", 2, 1, 1, 2, 1, (1, 1, 1, 1), dof=0.5), OPT),
        ("t-loss-nu", loss("TIPSDTA", 2, 2, 2, 1, 1, (1, 1, 1, 1), dof=0.5), OPT),
    ]
    return h
