"""C24: primal-dual splitting, ADMM, masking variants, harmonic vector analysis."""

import math

import numpy as np

from ssspy.bss.admmbss import ADMMBSS, MaskingADMMBSS
from ssspy.bss.hva import HVA, MaskingADMMHVA, MaskingPDSHVA
from ssspy.bss.iva import ADMMIVA, PDSIVA
from ssspy.bss.pdsbss import PDSBSS, MaskingPDSBSS
from ssspy.linalg import prox

from .c12 import unitary
from .c26 import det
from .common import Patch

FUNCTIONS = [
    "ssspy.bss.pdsbss.{PDSBSS,MaskingPDSBSS}.{update_once,_reset,__call__}", "ssspy.bss.admmbss.{ADMMBSS,MaskingADMMBSS}.{update_once,_reset,__call__}",
    "ssspy.bss.proxbss.ProxBSSBase.{compute_loss,compute_logdet,separate,normalize_by_spectral_norm}",
    "ssspy.bss.iva.{PDSIVA,ADMMIVA}.__init__ (default penalty and proximal operator)", "ssspy.bss.hva.{MaskingPDSHVA,MaskingADMMHVA}: mask_fn",
    "ssspy.linalg._solve.solve", "ssspy.linalg.prox.{neg_logdet,l21}",
]
BOUNDS = (
    "2-4 sources, 1-3 bins, 1-2 frames, 1-4 penalties, uninterpreted proximal operators and masks; every step size, relaxation parameter and dual variable "
    "(slices of 1-3 entries per array) symbolic; HVA mask: 2-4 sources, 2-5 bins, 1-2 frames, exponents 1 and 1/n, 0-5 shrinkage iterations. Exact arithmetic."
)
ASSUMPTIONS = ["the proximal operator of -log|det| by its contract (decided by C12)", "cos uninterpreted except at multiples of pi/2; exp(log x) = x, exp(a+b) = exp a exp b"]
NV = {"noval": True, "policy": {"clamp": False, "floor": "inactive", "eq": "generic"}}
OPT = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic"}, "max_paths": 80}


class NegLogdet:
    """sym mode: prox.neg_logdet returns arbitrary matrices, operands are recorded; num mode: the real function, recorded too."""

    def __init__(self, ctx, shape, sym=2):
        self.ctx, self.calls = ctx, []
        real = prox.neg_logdet

        def stub(X, step_size=1):
            if ctx.mode == "num":
                out = real(X, step_size=step_size)
            else:
                out = ctx.cplx(f"prox{len(self.calls)}", shape, sym=sym)
            self.calls.append((X.copy(), step_size, out.copy()))
            return out

        self.patch = Patch(prox, "neg_logdet", stub)

    def __enter__(self):
        self.patch.__enter__()
        return self

    def __exit__(self, *a):
        self.patch.__exit__(*a)


def proxes(ctx, k):
    phi, psi = ctx.fn("phi"), ctx.fn("psi")
    ps = [
        lambda z, step_size=1: phi(np.abs(z) + step_size) * z,
        lambda z, step_size=1: psi(np.abs(z) + 2 * step_size) * z,
        lambda z, step_size=1: phi(np.abs(z) * 2 + step_size) * z.conj(),
        lambda z, step_size=1: psi(np.abs(z) + step_size) * z + step_size,
    ]
    return ps[:k]


def apply(X, W):
    return (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)


def outer(Y, X):
    """(n_bins, n, m): sum_t Y[., b, t] X[., b, t]^*"""
    return sum(Y[:, :, t].transpose(1, 0)[:, :, None] * X[:, :, t].conj().transpose(1, 0)[:, None, :] for t in range(X.shape[-1]))


def pds(kind, q, n, nb, T, relax=True, symX=1):
    """one iteration from an arbitrary state"""

    def run(ctx):
        mu1, mu2 = ctx.pos("mu1", ())[()], ctx.pos("mu2", ())[()]
        a = ctx.pos("alpha", ())[()] if relax else 1
        X, W = ctx.cplx("X", (n, nb, T), sym=symX), ctx.cplx("W", (nb, n, n), sym=1)
        kw = dict(mu1=mu1, mu2=mu2, relaxation=a, scale_restoration=False, record_loss=False)
        if kind == "mask":
            mask = ctx.fn("psi")
            m = MaskingPDSBSS(mask_fn=lambda z: mask(np.abs(z)), **kw)
            D = ctx.cplx("D", (n, nb, T), sym=2)
            D0 = D[None].copy()
            steps = [lambda z, step_size: mask(np.abs(z)) * z]
        else:
            ps = proxes(ctx, q)
            kw["prox_penalty"] = ps if q > 1 else ps[0]
            if kind == "iva":
                G = ctx.fn("G")
                m = PDSIVA(contrast_fn=lambda y: G(np.linalg.norm(y, axis=1)), **kw)
                m.record_loss = False
            else:
                m = PDSBSS(**kw)
            D = ctx.cplx("D", (q, n, nb, T), sym=2)
            D0 = D.copy()
            steps = ps
        with NegLogdet(ctx, (nb, n, n)) as nl:
            out = m(X, n_iter=1, demix_filter=W, dual=D)
        ctx.check(len(nl.calls) == 1, "one proximal step of the log-determinant")
        A, step, Wt = nl.calls[0]
        ctx.zero(A - (W - mu1 * mu2 * sum(outer(D0[k], X) for k in range(len(D0)))), "primal argument W - mu1 mu2 sum_q Y_q X^H")
        ctx.zero(np.asarray(step) - mu1 if ctx.mode == "num" else ctx.const(step - mu1), "primal step size mu1")
        XW = apply(X, 2 * Wt - W)
        new = []
        for k, p in enumerate(steps):
            Z = D0[k] + XW
            new.append(a * (Z - p(Z, step_size=1 / mu2)) + (1 - a) * D0[k])
        dual = m.dual[None] if kind == "mask" else m.dual
        ctx.zero(dual - np.stack(new), "dual update")
        ctx.zero(m.demix_filter - (a * Wt + (1 - a) * W), "relaxed primal update")
        ctx.zero(out - apply(X, m.demix_filter), "output is the filter applied to the input")

    return run


def admm(kind, q, n, nb, T, relax=True, symX=1, symV=1):
    def run(ctx):
        rho = ctx.pos("rho", ())[()]
        a = ctx.pos("alpha", ())[()] if relax else 1
        X = ctx.cplx("X", (n, nb, T), sym=symX)
        V, Y = ctx.cplx("V", (nb, n, n), sym=symV), ctx.cplx("Y", (nb, n, n), sym=1)
        qs = (n, nb, T) if kind == "mask" else (q, n, nb, T)
        Vt, Yt = ctx.cplx("Vt", qs, sym=1), ctx.cplx("Yt", qs, sym=1)
        kw = dict(rho=rho, relaxation=a, scale_restoration=False, record_loss=False)
        if kind == "mask":
            mask = ctx.fn("psi")
            m = MaskingADMMBSS(mask_fn=lambda z: mask(np.abs(z)), **kw)
            steps = [lambda z, step_size: mask(np.abs(z)) * z]
            V0, Y0 = Vt[None].copy(), Yt[None].copy()
        else:
            ps = proxes(ctx, q)
            kw["prox_penalty"] = ps if q > 1 else ps[0]
            if kind == "iva":
                G = ctx.fn("G")
                m = ADMMIVA(contrast_fn=lambda y: G(np.linalg.norm(y, axis=1)), **kw)
                m.record_loss = False
            else:
                m = ADMMBSS(**kw)
            steps = ps
            V0, Y0 = Vt.copy(), Yt.copy()
        init = dict(auxiliary1=V, auxiliary2=Vt, dual1=Y, dual2=Yt)
        keep = {k: v.copy() for k, v in init.items()}
        with NegLogdet(ctx, (nb, n, n)) as nl:
            out = m(X, n_iter=1, **init)
        for k in keep:
            ctx.same(init[k], keep[k], f"{k} of the caller untouched")
        W = m.demix_filter
        # normal equations of  ||W - V + Y||^2 + sum_q ||W X - Vt_q + Yt_q||^2
        lhs = W * len(V0) @ outer(X, X) + W
        rhs = V - Y + sum(outer(V0[k] - Y0[k], X) for k in range(len(V0)))
        ctx.zero(lhs - rhs, "filter minimises its quadratic subproblem")
        ctx.check(len(nl.calls) == 1, "one proximal step of the log-determinant")
        A, step, Vn = nl.calls[0]
        U = a * W + (1 - a) * V
        ctx.zero(A - (U + Y), "argument of the log-determinant step")
        ctx.zero(np.asarray(step * rho - 1) if ctx.mode == "num" else ctx.const(step * rho - 1), "step size 1 / rho")
        ctx.zero(m.auxiliary1 - Vn, "auxiliary of the log-determinant")
        ctx.zero(m.dual1 - (Y + U - Vn), "dual accumulates the residual")
        Ut = a * apply(X, W)[None] + (1 - a) * V0
        av = m.auxiliary2[None] if kind == "mask" else m.auxiliary2
        dv = m.dual2[None] if kind == "mask" else m.dual2
        for k, p in enumerate(steps):
            v = p(Ut[k] + Y0[k], step_size=1 / rho)
            ctx.zero(av[k] - v, "auxiliary is the proximal map of its penalty")
            ctx.zero(dv[k] - (Y0[k] + Ut[k] - v), "dual accumulates the residual (penalty)")
        ctx.zero(out - apply(X, W), "output is the filter applied to the input")

    return run


def stationary(kind, q, n, nb, T):
    """A state that an iteration leaves unchanged satisfies the optimality conditions: consensus of the splitting variables
    (ADMM) resp. W = prox(W - mu1 mu2 Y X^H) and z - prox(z) = y (PDS), for every step size."""

    def run(ctx):
        X, W = ctx.cplx("X", (n, nb, T), sym=1), ctx.cplx("W", (nb, n, n), sym=2)
        ps, used = proxes(ctx, q), []
        if kind == "pds":
            mu1, mu2, a = ctx.pos("mu1", ())[()], ctx.pos("mu2", ())[()], ctx.pos("alpha", ())[()]
            D = ctx.cplx("D", (q, n, nb, T), sym=1)
            m = PDSBSS(mu1=mu1, mu2=mu2, relaxation=a, prox_penalty=ps, scale_restoration=False, record_loss=False)
            with Patch(prox, "neg_logdet", lambda A, step_size=1: used.append(1) or W.copy()):
                m(X, n_iter=1, demix_filter=W, dual=D)
            ctx.assume_pos(ctx.const(np.array(float(len(used)))), "the proximal operator is reached through ssspy.linalg.prox")
            ctx.zero(m.demix_filter - W, "primal fixed")
            R = m.dual - D
            Z = [D[k] + apply(X, W) for k in range(q)]
            for k in range(q):
                ctx.zero(R[k] - a * (apply(X, W) - ps[k](Z[k], step_size=1 / mu2)), "dual residual is the violation of WX = prox(Y + WX)")
        else:
            rho, a = ctx.pos("rho", ())[()], ctx.pos("alpha", ())[()]
            V, Y = W, ctx.cplx("Y", (nb, n, n), sym=1)
            Vt = np.stack([apply(X, W)] * q)
            Yt = ctx.cplx("Yt", (q, n, nb, T), sym=1)
            # stationarity of the quadratic subproblem at consensus: Y + sum_q Yt X^H = 0
            Y = -sum(outer(Yt[k], X) for k in range(q))
            m = ADMMBSS(rho=rho, relaxation=a, prox_penalty=ps, scale_restoration=False, record_loss=False)
            with Patch(prox, "neg_logdet", lambda A, step_size=1: used.append(1) or W.copy()):
                m(X, n_iter=1, auxiliary1=V, auxiliary2=Vt, dual1=Y, dual2=Yt)
            ctx.assume_pos(ctx.const(np.array(float(len(used)))), "the proximal operator is reached through ssspy.linalg.prox")
            ctx.zero(m.demix_filter - W, "filter stays at the consensus point")
            ctx.zero(m.dual1 - Y, "dual unchanged at consensus")
            ctx.zero(apply(X, m.demix_filter)[None] - Vt, "spectrogram stays at the consensus point")
            Ut = a * apply(X, m.demix_filter)[None] + (1 - a) * Vt
            for k in range(q):
                ctx.zero(m.auxiliary2[k] - ps[k](Ut[k] + Yt[k], step_size=1 / rho), "auxiliary")
                ctx.zero(m.dual2[k] - (Yt[k] + Vt[k] - m.auxiliary2[k]), "dual residual")

    return run


def loss(cls, q, n, nb, T):
    def run(ctx):
        X, W = ctx.cplx("X", (n, nb, T), sym=1), ctx.cplx("W", (nb, n, n), sym=2)
        G, F = ctx.fn("G"), ctx.fn("gen")
        pen = [lambda y: G(np.abs(y)).sum(), lambda y: F(np.abs(y)).sum(), lambda y: 3 * G(np.linalg.norm(y, axis=1)).sum()][:q]
        if cls in (PDSIVA, ADMMIVA):
            m = cls(contrast_fn=lambda y: G(np.linalg.norm(y, axis=1)), prox_penalty=proxes(ctx, 1)[0], scale_restoration=False)
            pen = [lambda y: G(np.linalg.norm(y, axis=1)).sum()]
        elif cls in (MaskingPDSBSS, MaskingADMMBSS):
            m = cls(mask_fn=lambda z: z, penalty_fn=pen[0], scale_restoration=False)
        else:
            m = cls(prox_penalty=proxes(ctx, q) if q > 1 else proxes(ctx, 1)[0], penalty_fn=pen if q > 1 else pen[0], scale_restoration=False)
            ctx.check(m.n_penalties == q, "number of penalties")
        m(X, n_iter=0, demix_filter=W)
        d = det(W)
        ref = -np.sum(np.log(np.real(d * d.conj()))) / 2
        Y = apply(X, W)
        for p in pen:
            ref = ref + p(Y)
        c = (lambda v: np.asarray(v)) if ctx.mode == "num" else ctx.const
        ctx.eq(c(m.compute_loss()), ref, "loss = sum of penalties - log-determinant")
        ctx.eq(c(m.loss[0]), ref, "recorded loss")
        ctx.same(m.demix_filter, W, "state unchanged")

    return run


def default_iva(cls, n, nb, T, scale):
    """PDSIVA / ADMMIVA without arguments: l2,1 norm over frequency and its proximal map"""

    def run(ctx):
        m = cls(scale_restoration=False)
        z = ctx.cplx("z", (n, nb, T), sym=1 if ctx.mode == "num" else None)
        mu = ctx.pos("mu", (), lo=scale, hi=2 * scale)[()]
        nrm = np.sqrt(np.sum(np.real(z * z.conj()), axis=1, keepdims=True))
        ctx.eq(np.asarray(m.penalty_fn[0](z)) if ctx.mode == "num" else ctx.const(m.penalty_fn[0](z)), nrm.sum(), "sum of the norms over frequency")
        p = m.prox_penalty[0](z, step_size=mu)
        q = np.sqrt(np.sum(np.real(p * p.conj()), axis=1, keepdims=True))
        # prox of mu ||.||: z - p in mu * subdifferential:  <z - p, p> = mu ||p||, ||z - p|| <= mu
        ctx.zero(np.sum(np.real((z - p) * p.conj()), axis=1, keepdims=True) - mu * q, "complementarity")
        ctx.ge(mu**2, np.sum(np.real((z - p) * (z - p).conj()), axis=1), "residual in the dual ball")

    return run


def mask_of(y, gamma, iters):
    """harmonic-vector mask, frame by frame, by its definition"""
    n, nb, T = y.shape
    N = 2 * (nb - 1)

    def co(j, k):  # cos(2 pi j k / N), exact
        if N == 8:
            r = np.sqrt(np.stack([y[0, 0, 0] * 0 + 2]))[0] / 2
            return [1, r, 0, -r, -1, -r, 0, r][j * k % 8]
        if N == 6:
            return [1, 0.5, -0.5, -1, -0.5, 0.5][j * k % 6]
        return {0: 1, 1: 0, 2: -1, 3: 0}[4 * j * k // N % 4]

    def inv(v, scale):
        out = []
        for k in range(nb):
            s = v[:, 0] + v[:, nb - 1] * (-1) ** k
            for j in range(1, nb - 1):
                s = s + 2 * v[:, j] * co(j, k)
            out.append(s * scale)
        return np.stack(out, axis=1)

    z = np.log(np.abs(y))
    mean = sum(z[:, b] for b in range(nb)) / nb
    rho = z - mean[:, None]
    nu = inv(rho, 1 / N)
    s = np.minimum(1, nu)
    for _ in range(iters):
        s = (1 - np.cos(math.pi * s)) / 2
    xi = inv(s * nu, 1)
    v = np.exp(2 * (xi + mean[:, None]))
    return v


def hva(cls, n, nb, T, gamma, iters, sym, peak=1):
    """peak: spectra dominated by one bin, so that the cepstrum exceeds one"""

    def run(ctx):
        kw = {} if gamma is None else {"attenuation": gamma}
        m = cls(mask_iter=iters, **kw)
        y = ctx.cplx("y", (n, nb, T), sym=sym)
        if peak != 1:
            y = y * np.array([peak] + [1] * (nb - 1))[:, None]
        y0 = y.copy()
        M = m.mask_fn(y)
        ctx.same(y, y0, "argument not modified")
        ctx.check(M.shape == y.shape, "shape")
        v = mask_of(y, gamma, iters)
        g = 1 / n if gamma is None else gamma
        k = round(1 / g)
        ctx.check(m.attenuation == g, "default exponent 1 / n_sources")
        ctx.eq(M**k * np.sum(v, axis=0), v, "mask is the share of the shrunk harmonic spectrum")
        ctx.ge(M, 0, "mask nonnegative")
        ctx.zero(np.sum(M**k, axis=0) - 1, "shares sum to one over sources")

    return run


def hva_step(cls):
    """the HVA classes use their mask inside the generic masking iteration"""

    def run(ctx):
        X = ctx.cplx("X", (2, 2, 2), sym=1)
        W = ctx.cplx("W", (2, 2, 2), sym=1)
        m = cls(attenuation=0.5, mask_iter=1, scale_restoration=False, relaxation=1.5)
        other = (MaskingPDSBSS if cls is not MaskingADMMHVA else MaskingADMMBSS)(mask_fn=m.mask_fn, scale_restoration=False, relaxation=1.5, record_loss=False)
        init = {"demix_filter": W} if cls is not MaskingADMMHVA else {"auxiliary1": W}
        with Patch(prox, "neg_logdet", (lambda A, step_size=1: A * step_size + 1j * np.eye(2))):
            a = m(X, n_iter=1, **init)
            b = other(X, n_iter=1, **init)
        ctx.eq(a, b, "same iteration as the generic masking separator")
        ctx.check(m.loss is None, "no loss recorded")

    return run


def spectral(q, given):
    """normalize_by_spectral_norm: largest spectral norm over bins becomes 1 / sqrt(number of penalties)"""

    def run(ctx):
        n = 2
        nb = 2
        U, V = unitary(ctx, "U", n, (nb,), True), unitary(ctx, "V", n, (nb,), True)
        s1 = ctx.pos("s", (nb, 1))
        s = np.concatenate([s1 + ctx.pos("gap", (nb, 1)), s1], axis=-1)
        Xb = (U * s[:, None, :]) @ V
        X = Xb.transpose(1, 0, 2)
        if ctx.mode == "sym":
            for b in range(nb):
                ctx.register_svd(Xb[b], U[b], s[b], V[b])
        m = PDSBSS(prox_penalty=[lambda z, step_size: z] * (1 if given else q), scale_restoration=False)
        X0 = X.copy()
        out = m.normalize_by_spectral_norm(X, **({"n_penalties": q} if given else {}))
        ctx.same(X, X0, "argument not modified")
        top = s[0, 0] if s[0, 0] > s[1, 0] else s[1, 0]
        ctx.eq(out * (math.isqrt(q) * top), X0, "scaled by the largest spectral norm over bins times sqrt(n_penalties)")

    return run


def options(ctx):
    """relaxation / alpha, argument combinations"""
    import warnings

    f = lambda z, step_size=1: z  # noqa: E731
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.check(PDSBSS(alpha=1.25, prox_penalty=f).relaxation == 1.25, "alpha is the relaxation parameter")
        ctx.check(ADMMBSS(alpha=1.25, prox_penalty=f, record_loss=False).relaxation == 1.25, "alpha is the relaxation parameter")
        ctx.check(MaskingPDSBSS(alpha=1.25, mask_fn=f, record_loss=False).relaxation == 1.25, "alpha is the relaxation parameter")
        ctx.check(MaskingADMMBSS(alpha=1.25, mask_fn=f, record_loss=False).relaxation == 1.25, "alpha is the relaxation parameter")
    for c in (PDSBSS, ADMMBSS):
        ctx.check(c(prox_penalty=[f, f], record_loss=False).n_penalties == 2, "number of penalties")
        try:
            c(prox_penalty=[f, f], penalty_fn=[f])
            ok = False
        except AssertionError:
            ok = True
        ctx.check(ok, "as many penalties as proximal operators")


def harnesses(tier):
    h = []
    for kind in ("bss", "mask", "iva"):
        h.append((f"pds-{kind}", pds(kind, 1, 2, 2, 2), NV))
        h.append((f"pds-{kind}-plain", pds(kind, 1, 2, 1, 2, relax=False), NV))
        h.append((f"admm-{kind}", admm(kind, 1, 2, 2, 2), NV))
        h.append((f"admm-{kind}-plain", admm(kind, 1, 2, 1, 2, relax=False, symX=2), NV))
    h += [
        ("pds-2", pds("bss", 2, 2, 2, 2), NV), ("pds-3", pds("bss", 3, 2, 1, 2), NV), ("pds-n3", pds("bss", 2, 3, 1, 2), NV),
        ("admm-2", admm("bss", 2, 2, 2, 2), NV), ("admm-3", admm("bss", 3, 2, 1, 2), NV), ("admm-n3", admm("bss", 2, 3, 1, 2), NV),
        ("pds-4", pds("bss", 4, 3, 1, 1), NV), ("admm-4", admm("bss", 4, 3, 1, 1), NV), ("pds-n4", pds("bss", 1, 4, 2, 1), NV), ("admm-n4", admm("bss", 1, 4, 2, 1), NV),
        ("pds-mask-n3", pds("mask", 1, 3, 3, 1), NV), ("admm-mask-n3", admm("mask", 1, 3, 3, 1), NV), ("pds-iva-n3", pds("iva", 1, 3, 3, 1), NV), ("admm-iva-n3", admm("iva", 1, 3, 3, 1), NV),
        ("stationary-pds", stationary("pds", 2, 2, 1, 2), NV), ("stationary-admm", stationary("admm", 2, 2, 1, 2), NV),
    ]
    for c in (PDSBSS, ADMMBSS, MaskingPDSBSS, MaskingADMMBSS, PDSIVA, ADMMIVA):
        for q in (1, 2, 3):
            if q == 1 or c in (PDSBSS, ADMMBSS):
                h.append((f"loss-{c.__name__}-{q}", loss(c, q, 2, 2, 2), OPT))
    for c in (PDSIVA, ADMMIVA):
        h.append((f"default-{c.__name__}", default_iva(c, 1, 2, 1, 0.5), OPT))
        h.append((f"default-{c.__name__}-big", default_iva(c, 1, 2, 1, 4), OPT))
        h.append((f"default-{c.__name__}-frames", default_iva(c, 2, 1, 1, 1), OPT))
    for c in (MaskingPDSHVA, MaskingADMMHVA, HVA):
        h.append((f"mask-{c.__name__}-1", hva(c, 2, 2, 1, 1, 1, 2), OPT))
        h.append((f"mask-{c.__name__}-def", hva(c, 2, 3, 1, None, 1, 1), OPT))
        h.append((f"mask-{c.__name__}-3", hva(c, 3, 2, 1, 1, 0, 1), OPT))
        h.append((f"mask-{c.__name__}-it2", hva(c, 2, 3, 1, 0.5, 2, 1), OPT))
        h.append((f"mask-{c.__name__}-T2", hva(c, 2, 2, 2, 1, 2, 1), OPT))
        h.append((f"mask-{c.__name__}-it5", hva(c, 2, 2, 1, 1, 5, 1), OPT))
        h.append((f"mask-{c.__name__}-it4-n3", hva(c, 3, 2, 2, None, 4, 1), OPT))
        h.append((f"mask-{c.__name__}-4", hva(c, 3, 4, 1, 0.5, 1, 1), OPT))
        h.append((f"mask-{c.__name__}-it3", hva(c, 2, 3, 1, 1, 3, 1), OPT))
        h.append((f"mask-{c.__name__}-bins4", hva(c, 2, 4, 1, 1, 2, 1, peak=20), OPT))
        h.append((f"mask-{c.__name__}-bins5", hva(c, 2, 5, 1, 1, 1, 1), OPT))
        h.append((f"mask-{c.__name__}-peak", hva(c, 2, 2, 1, 1, 1, 1, peak=40), OPT))
        h.append((f"mask-{c.__name__}-peak3", hva(c, 2, 3, 1, 0.5, 1, 1, peak=100), OPT))
        h.append((f"step-{c.__name__}", hva_step(c), NV))
    h += [
        ("spectral-1", spectral(1, False), OPT), ("spectral-4", spectral(4, False), OPT), ("spectral-9-given", spectral(9, True), OPT),
        ("options", options, {}),
    ]
    return h
