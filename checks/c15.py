"""C15: whitening and principal component analysis."""

import numpy as np

from ssspy.transform import pca, whiten

from .c12 import unitary

FUNCTIONS = ["ssspy.transform.whiten.whiten", "ssspy.transform.pca.pca"]
BOUNDS = (
    "2-D real, 3-D complex, 3-D real (batched) and 4-D complex (batched) layouts; 2 channels with 2-3 frames and every data entry symbolic for single "
    "bins; 2-3 channels with data V diag(s) Q (every orthonormal frame V in the 2-channel case, every ascending spectrum s, orthonormal rows Q) for "
    "2 bins / batches; both orders. Exact arithmetic."
)
ASSUMPTIONS = ["covariance of full rank with distinct eigenvalues", "np.linalg.eigh by its defining equations (ascending eigenvalues, unitary eigenvectors)"]
OPT = {"policy": {"clamp": False, "eq": "generic", "floor": "fork"}, "max_paths": 64, "timeout": 10, "noval": True}

# layout -> (lead shape, complex, axis order of the layout given (lead..., bins?, channels, frames))
LAYOUTS = {"r2": ((), None, False), "c3": ((), 2, True), "r3": ((2,), None, False), "c4": ((2,), 2, True), "c3x1": ((), 1, True), "c4x1": ((1,), 1, True),
           "r3x1": ((1,), None, False)}


def to_layout(Z, bins):
    """(lead, [bins], ch, T) -> layout of the library"""
    return Z if bins is None else np.swapaxes(Z, -3, -2)


def blocks(Y, bins):
    return Y if bins is None else np.swapaxes(Y, -3, -2)


def data(ctx, kind, layout, n, T, sym=None):
    lead, bins, cplx = LAYOUTS[layout]
    b = tuple(lead) + (() if bins is None else (bins,))
    if kind == "free":
        Z = (ctx.cplx if cplx else ctx.real)("X", b + (n, T), sym=sym)
        C = Z @ ctx.H(Z) / T
        d = C[..., 0, 0] * C[..., 1, 1] - C[..., 0, 1] * C[..., 1, 0]
        ctx.assume_pos(np.real(d), "full rank covariance")
        return Z, to_layout(Z, bins)
    V = unitary(ctx, "V", n, b, cplx)
    lam = [ctx.pos("l0", b + (1,))]
    for k in range(1, n):
        lam.append(lam[-1] + ctx.pos(f"l{k}", b + (1,)))
    lam = np.concatenate(lam, axis=-1)
    s = np.sqrt(lam)
    # orthonormal rows (times sqrt(T)): products of unit vectors
    H4 = np.array([[1.0, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1]])
    Q = ctx.const(np.broadcast_to(H4[:n], b + (n, 4)).copy())
    if cplx:
        Q = Q * ctx.unim("q", b + (1, 4))
    Z = V @ (s[..., None] * Q)
    if ctx.mode == "sym":
        C = Z @ ctx.H(Z) / 4
        for idx in np.ndindex(*b):
            ctx.register_eigh(C[idx], lam[idx], V[idx])
    return Z, to_layout(Z, bins)


def t_whiten(kind, layout, n=2, T=2, sym=None):
    bins = LAYOUTS[layout][1]

    def run(ctx):
        Z, X = data(ctx, kind, layout, n, T, sym)
        X0 = X.copy()
        out = whiten(X)
        ctx.same(X, X0, "input not modified")
        ctx.check(out.shape == X0.shape, "shape")
        ctx.check(np.iscomplexobj(out) == np.iscomplexobj(X0), "real stays real, complex stays complex")
        Y = blocks(out, bins)
        Tn = Z.shape[-1]
        C = Y @ ctx.H(Y) / Tn
        ctx.eq(C, np.broadcast_to(np.eye(n), C.shape), "identity covariance")
        # a linear transform of the channels: every frame is the same combination
        G = Z @ ctx.H(Z)
        if kind == "free":
            det = (G[..., 0, 0] * G[..., 1, 1] - G[..., 0, 1] * G[..., 1, 0])[..., None, None]
            adj = np.stack([np.stack([G[..., 1, 1], -G[..., 0, 1]], -1), np.stack([-G[..., 1, 0], G[..., 0, 0]], -1)], -2)
            ctx.eq(det * Y, Y @ ctx.H(Z) @ adj @ Z, "linear transform of the channels")
        else:
            # Y = M Z with M = Y Z^H (Z Z^H)^-1; here Z Z^H Y^H and Z determine M
            K = ctx.H(Y) @ Y @ ctx.H(Z)
            ctx.eq(K, Tn * ctx.H(Z), "linear transform of the channels")

    return run


def t_pca(kind, layout, ascend, n=2, T=2, sym=None):
    bins = LAYOUTS[layout][1]

    def run(ctx):
        Z, X = data(ctx, kind, layout, n, T, sym)
        X0 = X.copy()
        out = pca(X) if ascend is None else pca(X, ascend=ascend)
        ctx.same(X, X0, "input not modified")
        ctx.check(out.shape == X0.shape, "shape")
        Y = blocks(out, bins)
        Tn = Z.shape[-1]
        C = Y @ ctx.H(Y) / Tn
        for i in range(n):
            for j in range(n):
                if i != j:
                    ctx.zero(C[..., i, j], "uncorrelated components")
        order = range(n) if ascend in (None, True) else range(n - 1, -1, -1)
        order = list(order)
        for i, j in zip(order, order[1:]) if kind == "svd" else ():
            ctx.ge(np.real(C[..., i, i]), np.real(C[..., j, j]), "components ordered by variance")
        ctx.eq(ctx.H(Y) @ Y, ctx.H(Z) @ Z, "orthonormal change of basis: inner products of frames are preserved")

    return run


def rejects(fn):
    def run(ctx):
        for a in (ctx.cplx("a", (2, 2), sym=1), ctx.real("b", (1, 2, 2, 2), sym=1), ctx.real("c", (2,), sym=1)):
            try:
                fn(a)
                ok = False
            except ValueError:
                ok = True
            ctx.check(ok, "unsupported layout is rejected")

    return run


def harnesses(tier):
    hs = [("whiten-rejects", rejects(whiten), OPT), ("pca-rejects", rejects(pca), OPT)]
    for lay in ("r2", "r3x1", "c3x1", "c4x1"):
        hs.append((f"whiten-free-{lay}", t_whiten("free", lay), OPT))
        for asc in (True, False):
            hs.append((f"pca-free-{lay}-{asc}", t_pca("free", lay, asc), OPT))
    for lay in ("r2", "c3x1"):
        hs.append((f"whiten-free3-{lay}", t_whiten("free", lay, 2, 3, 4), OPT))
        hs.append((f"pca-free3-{lay}", t_pca("free", lay, None, 2, 3, 4), OPT))
    for lay in ("r2", "r3", "c3", "c4", "r3x1", "c3x1", "c4x1"):
        for n in (2, 3) if "x" not in lay else (2,):
            hs.append((f"whiten-svd-{lay}-{n}", t_whiten("svd", lay, n), OPT))
            for asc in (None, False):
                hs.append((f"pca-svd-{lay}-{n}-{asc}", t_pca("svd", lay, asc, n), OPT))
    return hs
