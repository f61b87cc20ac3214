"""C10: Hermitian linear-algebra primitives (ssspy.linalg eigh/eigh2/gmeanmh/sqrtmh/invsqrtmh)."""

import numpy as np

from ssspy.linalg import eigh, eigh2, gmeanmh, invsqrtmh, sqrtmh

from .c12 import unitary
from .common import chol

FUNCTIONS = [
    "ssspy.linalg.eigh.eigh",
    "ssspy.linalg.eigh.eigh2",
    "ssspy.linalg.eigh._eigh",
    "ssspy.linalg.mean.gmeanmh",
    "ssspy.linalg.sqrtm.sqrtmh",
    "ssspy.linalg.sqrtm.invsqrtmh",
    "ssspy.linalg.inv.inv2",
]
BOUNDS = (
    "2x2 real/complex Hermitian positive definite matrices with every entry symbolic (free, single and batched); 3x3 and 4x4 matrices with eigenvectors "
    "rotated in one plane (times arbitrary phases), every spectrum and 2 symbolic entries of the Cholesky factor; types 1, 2, 3. Exact arithmetic."
)
ASSUMPTIONS = [
    "np.linalg.eigh/cholesky/inv are replaced by their exact mathematical definitions (2x2 closed form)",
    "arguments are positive definite and eigenvalues distinct",
]


def f_eigh_given(fn, typ, cplx, n, batch, sym=2):
    """any dimension: A is built from B = L L^H and a spectral decomposition U diag(l) U^H of the whitened matrix"""

    def run(ctx):
        b = tuple(batch)
        L = chol(ctx, "B", n, cplx, sym, b)
        U = unitary(ctx, "U", n, b, cplx)
        lam = [ctx.real("l0", b + (1,))]
        for k in range(1, n):
            lam.append(lam[-1] + ctx.pos(f"g{k}", b + (1,)))
        lam = np.concatenate(lam, axis=-1)
        C = (U * lam[..., None, :]) @ ctx.H(U)
        B = L @ ctx.H(L)
        if ctx.mode == "sym":
            for idx in np.ndindex(*b):
                ctx.register_eigh(C[idx], lam[idx], U[idx])
        Li = np.linalg.inv(L)
        A = L @ C @ ctx.H(L) if typ == 1 else ctx.H(Li) @ C @ Li
        A0, B0 = A.copy(), B.copy()
        w, z = fn(A, B, type=typ)
        ctx.same(A, A0, "first argument not modified")
        ctx.same(B, B0, "second argument not modified")
        ctx.check(w.shape == b + (n,) and z.shape == b + (n, n), "shapes")
        lhs = {1: lambda: A0 @ z, 2: lambda: A0 @ B0 @ z, 3: lambda: B0 @ A0 @ z}[typ]()
        ctx.eq(lhs, w[..., None, :] * (B0 @ z if typ == 1 else z), "generalised eigen equation")
        ctx.eq(w, lam, "all eigenvalues, ascending")
        M = B0 if typ in (1, 2) else ctx.H(Li) @ Li
        ctx.eq(ctx.H(z) @ M @ z, np.broadcast_to(np.eye(n), b + (n, n)), "documented normalisation")

    return run


def f_root_given(inv, cplx, n, batch):
    def run(ctx):
        b = tuple(batch)
        U = unitary(ctx, "U", n, b, cplx)
        r = [ctx.pos("l0", b + (1,))]
        for k in range(1, n):
            r.append(r[-1] + ctx.pos(f"g{k}", b + (1,)))
        r = np.concatenate(r, axis=-1)
        X = (U * (r * r)[..., None, :]) @ ctx.H(U)
        if ctx.mode == "sym":
            for idx in np.ndindex(*b):
                ctx.register_eigh(X[idx], (r * r)[idx], U[idx])
        X0 = X.copy()
        R = invsqrtmh(X) if inv else sqrtmh(X)
        ctx.same(X, X0, "argument not modified")
        ctx.eq(R, (U * (1 / r if inv else r)[..., None, :]) @ ctx.H(U), "the positive definite root")

    return run


def f_gmean_given(typ, cplx, n, batch, sym=1):
    """A = L L^H and B such that the whitened matrix has a known square root"""

    def run(ctx):
        b = tuple(batch)
        L = chol(ctx, "B", n, cplx, sym, b)
        U = unitary(ctx, "U", n, b, cplx)
        r = [ctx.pos("l0", b + (1,), sym=1)]
        for k in range(1, n):
            r.append(r[-1] + ctx.pos(f"g{k}", b + (1,), sym=1))
        r = np.concatenate(r, axis=-1)
        C = (U * (r * r)[..., None, :]) @ ctx.H(U)
        if ctx.mode == "sym":
            for idx in np.ndindex(*b):
                ctx.register_eigh(C[idx], (r * r)[idx], U[idx])
        Li = np.linalg.inv(L)
        B = L @ ctx.H(L)
        A = L @ C @ ctx.H(L) if typ == 1 else ctx.H(Li) @ C @ Li
        G = gmeanmh(A, B, type=typ)
        if typ == 1:
            ctx.eq(G @ np.linalg.inv(A) @ G, B, "G A^-1 G == B")
        elif typ == 2:
            ctx.eq(G @ A @ G, B, "G A G == B")
        else:
            ctx.eq(G @ B @ G, A, "G B G == A")
        ctx.eq(G, ctx.H(G), "Hermitian")
        ctx.check(G.shape == b + (n, n), "shape")

    return run


def f_eigh(fn, typ, cplx, n=2, cplx_a=None):
    """cplx: the second argument (and the first unless cplx_a says otherwise) has complex entries"""

    def run(ctx):
        LB = chol(ctx, "B", n, cplx)
        LA = chol(ctx, "A", n, cplx if cplx_a is None else cplx_a)
        A = (LA @ ctx.H(LA))[None]
        B = (LB @ ctx.H(LB))[None]
        lam, z = fn(A, B, type=typ)
        ctx.check(lam.shape == (1, n) and z.shape == (1, n, n), "shapes")
        if typ == 1:
            l, r = A @ z, lam[..., None, :] * (B @ z)
        elif typ == 2:
            l, r = A @ B @ z, lam[..., None, :] * z
        else:
            l, r = B @ A @ z, lam[..., None, :] * z
        ctx.eq(l, r, "generalised eigen equation")
        M = {1: B, 2: B}.get(typ)
        zh = ctx.H(z)
        if M is not None:
            ctx.eq(zh @ M @ z, np.eye(n)[None], "B-orthonormal eigenvectors")
        else:
            ctx.eq(zh @ np.linalg.inv(B) @ z, np.eye(n)[None], "B^-1-orthonormal eigenvectors")
        ctx.ge(lam[..., 1:], lam[..., :-1], "ascending")

    return run


def f_sqrt(cplx, inv):
    def run(ctx):
        L = chol(ctx, "X", 2, cplx)
        X = (L @ ctx.H(L))[None]
        if inv:
            R = invsqrtmh(X)
            ctx.eq(R @ X @ R, np.eye(2)[None], "R X R == I")
        else:
            R = sqrtmh(X)
            ctx.eq(R @ R, X, "R R == X")
        ctx.eq(R, ctx.H(R), "Hermitian")
        ctx.gt(np.real(R[:, 0, 0] + R[:, 1, 1]), 0, "positive trace")
        ctx.gt(np.real(R[:, 0, 0] * R[:, 1, 1] - R[:, 0, 1] * R[:, 1, 0]), 0, "positive determinant")

    return run


def f_invsqrt_floor(cplx, kind):
    """a flooring function acts on the roots of the eigenvalues"""

    def run(ctx):
        U = unitary(ctx, "U", 2, (1,), cplx)
        l0 = ctx.pos("l0", (1, 1))
        r = np.concatenate([l0, l0 + ctx.pos("l1", (1, 1))], axis=-1)
        X = (U * (r * r)[..., None, :]) @ ctx.H(U)
        if ctx.mode == "sym":
            ctx.register_eigh(X[0], (r * r)[0], U[0])
        eps = ctx.pos("eps", ())[()]
        fl = {"max": lambda x: np.maximum(x, eps), "add": lambda x: x + eps}[kind]
        R = invsqrtmh(X, flooring_fn=fl)
        ctx.eq(R @ U * fl(r)[..., None, :], U, "inverse of the floored root eigenvalues, same eigenvectors")

    return run


def f_gmean(typ, cplx, cplx_a=None):
    def run(ctx):
        LA, LB = chol(ctx, "A", 2, cplx if cplx_a is None else cplx_a), chol(ctx, "B", 2, cplx)
        A, B = (LA @ ctx.H(LA))[None], (LB @ ctx.H(LB))[None]
        G = gmeanmh(A, B, type=typ)
        if typ == 1:
            ctx.eq(G @ np.linalg.inv(A) @ G, B, "G A^-1 G == B")
        elif typ == 2:
            ctx.eq(G @ A @ G, B, "G A G == B")
        else:
            ctx.eq(G @ B @ G, A, "G B G == A")
        ctx.eq(G, ctx.H(G), "Hermitian")

    return run


def harnesses(tier):
    hs = []
    for cplx in (False, True):
        t = "c" if cplx else "r"
        for typ in (1, 2, 3):
            hs.append((f"eigh{typ}{t}", f_eigh(eigh, typ, cplx), {"noval": True}))
            hs.append((f"eigh2_{typ}{t}", f_eigh(eigh2, typ, cplx), {"noval": True}))
            hs.append((f"eigh{typ}{t}-other-kind", f_eigh(eigh, typ, cplx, 2, not cplx), {"noval": True}))
            hs.append((f"eigh2_{typ}{t}-other-kind", f_eigh(eigh2, typ, cplx, 2, not cplx), {"noval": True}))
            hs.append((f"gmean{typ}{t}", f_gmean(typ, cplx), {}))
            hs.append((f"gmean{typ}{t}-other-kind", f_gmean(typ, cplx, not cplx), {}))
        hs.append((f"sqrt{t}", f_sqrt(cplx, False), {}))
        hs.append((f"invsqrt{t}", f_sqrt(cplx, True), {}))
        for k in ("max", "add"):
            hs.append((f"invsqrt-floor-{k}-{t}", f_invsqrt_floor(cplx, k), {}))
        for typ in (1, 2, 3):
            hs.append((f"eigh{typ}{t}-batch", f_eigh_given(eigh, typ, cplx, 2, (2,), 1), {"noval": True}))  # eigenvectors are unique up to phases
            hs.append((f"eigh2_{typ}{t}-batch", f_eigh_given(eigh2, typ, cplx, 2, (1, 2), 1), {"noval": True}))  # eigenvectors are unique up to phases
            hs.append((f"eigh{typ}{t}-2d", f_eigh_given(eigh, typ, cplx, 2, (), None), {"noval": True}))  # eigenvectors are unique up to phases
            hs.append((f"eigh2_{typ}{t}-2d", f_eigh_given(eigh2, typ, cplx, 2, (), None), {"noval": True}))  # eigenvectors are unique up to phases
            hs.append((f"eigh{typ}{t}-3", f_eigh_given(eigh, typ, cplx, 3, (1,)), {"noval": True}))  # eigenvectors are unique up to phases
            hs.append((f"gmean{typ}{t}-batch", f_gmean_given(typ, cplx, 2, (2,)), {}))
            hs.append((f"gmean{typ}{t}-2d", f_gmean_given(typ, cplx, 2, (), None), {}))
            if tier == "thorough":
                hs.append((f"T-eigh{typ}{t}-4", f_eigh_given(eigh, typ, cplx, 4, (1,), 1), {"noval": True}))  # eigenvectors are unique up to phases
                hs.append((f"T-gmean{typ}{t}-3", f_gmean_given(typ, cplx, 3, (1,), 0), {}))
        for inv in (False, True):
            for n, b in ((2, ()), (2, (2,)), (3, (1,)), (3, (2, 1)), (4, ())):
                hs.append((f"{'inv' * inv}sqrt{t}-{n}-{b}", f_root_given(inv, cplx, n, b), {}))
    # comparisons with tiny constants are explored on both sides
    return [(n, f, {**o, "policy": {"clamp": False, "floor": "fork"}, "max_paths": 64}) for n, f, o in hs]
