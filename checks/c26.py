"""C26: gradient and natural-gradient ICA / FDICA / IVA."""

import numpy as np

from ssspy.bss import fdica, ica, iva

from .models import make, mixture

FUNCTIONS = [
    "ssspy.bss.ica.{GradICA,NaturalGradICA}.update_once", "ssspy.bss.ica.GradICABase.{compute_loss,compute_logdet,separate}",
    "ssspy.bss.fdica.{GradFDICA,NaturalGradFDICA}.update_once", "ssspy.bss.fdica.FDICABase.{compute_loss,compute_logdet,separate}",
    "ssspy.bss.iva.{GradIVA,NaturalGradIVA}.update_once", "ssspy.bss.iva.IVABase.{compute_loss,compute_logdet,separate}",
    "ssspy.bss.{ica,fdica,iva}: contrast_fn/score_fn/d_contrast_fn of the Laplace and Gauss classes, update_source_model",
]
BOUNDS = (
    "2-4 sources, 1-2 bins, 2-3 frames; every entry of mixture and filter on slices of 2-9 symbols, step size symbolic, score functions uninterpreted; "
    "1-2 iterations. Exact arithmetic."
)
ASSUMPTIONS = ["demixing filter invertible", "flooring of the Laplace score inactive (|y| above the floor)", "log-determinant is log|det|"]
NV = {"noval": True}
OPT = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic"}}
DAG = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic", "dag": 2, "follow": True, "opaque": ("inv",)}}


def correlation(Phi, Y):
    """(n_bins, n, n) mean of phi_m(y) conj(y_n); single-bin real arrays are treated as one bin."""
    if Y.ndim == 2:
        Phi, Y = Phi[:, None, :], Y[:, None, :]
    T = Y.shape[-1]
    n = Y.shape[0]
    C = 0
    for t in range(T):
        C = C + Phi[:, :, t].transpose(1, 0)[:, :, None] * Y[:, :, t].conj().transpose(1, 0)[:, None, :]
    return C / T


def setup(name, ctx, n, nb, T, symX, symW, **over):
    fam = name.partition(":")[0]
    single = fam.endswith("ICA") and "FDICA" not in fam
    kw = dict(over)
    if not single:
        kw["scale_restoration"] = False
    if "FDICA" in name:
        kw["permutation_alignment"] = False
    m = make(name, ctx, **kw)
    X = ctx.real("X", (n, T), sym=symX) if single else ctx.cplx("X", (n, nb, T), sym=symX)
    W = ctx.real("W", (n, n), sym=symW) if single else ctx.cplx("W", (nb, n, n), sym=symW)
    return m, X, W, single


def separated(X, W, single):
    return W @ X if single else (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)


def step(name, natural, holonomic, n, nb, T, symX, symW, floor=None, general=False):
    """one call with n_iter=1 moves W by -mu * delta"""

    def run(ctx):
        mu = ctx.pos("mu", ())[()]
        kw = {"step_size": mu, "record_loss": False}
        if "Laplace" not in name and "Gauss" not in name:
            pass
        else:
            kw["is_holonomic"] = holonomic
        if floor is not None:
            kw["flooring_fn"] = lambda x: x + floor
        if general:  # derivative of a contrast of real and imaginary part: its product with conj(y) is not real
            g, h = ctx.fn("gen"), ctx.fn("gen2")
            kw["score_fn"] = lambda y: g(np.real(y)) + 1j * h(np.imag(y))
        m, X, W, single = setup(name, ctx, n, nb, T, symX, symW, **kw)
        out = m(X, n_iter=1, demix_filter=W)
        Y = separated(X, W, single)
        if "Laplace" in name:
            if single:
                Phi = np.sign(Y)
            elif "IVA" in name:
                r = np.sqrt(np.sum(np.real(Y * Y.conj()), axis=1, keepdims=True))
                Phi = Y / (r + (floor or 0))
            else:
                Phi = Y / (np.abs(Y) + (floor or 0))
        elif "Gauss" in name:
            r = np.mean(np.real(Y * Y.conj()), axis=1, keepdims=True)
            Phi = Y / r
        else:
            Phi = m.score_fn(Y)
        C = correlation(Phi, Y)
        V, U = (m.demix_filter[None], W[None]) if single else (m.demix_filter, W)
        I = np.eye(n)
        D = C - I if holonomic else C * (1 - I)
        if natural:
            ctx.eq(V - U, -mu * (D @ U), "natural-gradient step")
        else:
            ctx.eq((V - U) @ ctx.H(U), -mu * D, "gradient step: (W' - W) W^H = -mu (E[phi y^H] - I)")
        ctx.eq(out, separated(X, m.demix_filter, single), "output is the updated filter applied to the input")

    return run


def two(name, n, nb, T, symX, symW):
    """two iterations == one iteration, restarted; state between iterations is only the filter"""

    def run(ctx):
        m, X, W, single = setup(name, ctx, n, nb, T, symX, symW, record_loss=False)
        m(X, n_iter=2, demix_filter=W)
        a, b = [setup(name, ctx, n, nb, T, symX, symW, record_loss=False)[0] for _ in range(2)]
        a(X, n_iter=1, demix_filter=W)
        b(X, n_iter=1, demix_filter=a.demix_filter)
        ctx.eq(m.demix_filter, b.demix_filter, "each iteration depends on the current filter only")

    return run


def det(W):
    n = W.shape[-1]
    if n == 1:
        return W[..., 0, 0]
    if n == 2:
        return W[..., 0, 0] * W[..., 1, 1] - W[..., 0, 1] * W[..., 1, 0]
    return sum((-1) ** j * W[..., 0, j] * det(np.delete(W[..., 1:, :], j, axis=-1)) for j in range(n))


def loss(name, n, nb, T, symX, symW):
    def run(ctx):
        m, X, W, single = setup(name, ctx, n, nb, T, symX, symW)
        m(X, n_iter=0, demix_filter=W)
        Y = separated(X, W, single)
        G = m.contrast_fn(Y)
        d = det(W)
        ref = -np.sum(np.log(np.real(d * d.conj())))
        if single:
            ref = ref / 2
        for t in range(T):
            ref = ref + np.sum(G[..., t]) / T
        ctx.eq(np.asarray(m.compute_loss()) if ctx.mode == "num" else ctx.const(m.compute_loss()), ref, "loss = mean contrast - log-determinant")
        ctx.eq(np.asarray(m.loss[0]) if ctx.mode == "num" else ctx.const(m.loss[0]), ref, "recorded loss")
        ctx.same(m.demix_filter, W, "filter unchanged")

    return run


def descent(name, alg, n, nb, T, symX, symW):
    """Directional derivative of the *reported* loss along the update direction, for polynomial contrasts
    G = |y|^2 and G = |y|^4 (every filter, mixture): d/dmu L(W + mu D) at 0 = -2 Re<grad, .> with D the code's step.
    Obtained exactly: contrast part is a polynomial in mu (finite differences of the code's own contrast term), the
    log-determinant part is -tr(W^-1 D)."""

    def run(ctx):
        fam = name.partition(":")[0]
        single = "FDICA" not in fam and "IVA" not in fam
        k = dict(step_size=1, record_loss=False)
        if not single:
            k["scale_restoration"] = False
        if "FDICA" in fam:
            k["permutation_alignment"] = False
        c = {"fdica": fdica, "iva": iva, "ica": ica}["fdica" if "FDICA" in fam else "iva" if "IVA" in fam else "ica"]
        # score = dG/dy (real) resp. dG/dy* (complex)
        if single:
            con, sc = (lambda y: y**2), (lambda y: 2 * y)
        elif "IVA" in fam:
            con = lambda y: np.sum(np.real(y * y.conj()), axis=1)  # noqa: E731
            sc = lambda y: y  # noqa: E731
        else:
            con = lambda y: np.real(y * y.conj())  # noqa: E731
            sc = lambda y: y  # noqa: E731
        m = getattr(c, fam)(contrast_fn=con, score_fn=sc, is_holonomic=True, **k)
        X = ctx.real("X", (n, T), sym=symX) if single else ctx.cplx("X", (n, nb, T), sym=symX)
        W = ctx.real("W", (n, n), sym=symW) if single else ctx.cplx("W", (nb, n, n), sym=symW)
        m(X, n_iter=1, demix_filter=W)
        D = m.demix_filter - W

        def contrast(V):  # data term of the loss at filter V
            Y = separated(X, V, single)
            return np.sum(con(Y)) / T

        # quadratic in mu: derivative at 0 = (f(1) - f(-1)) / 2
        slope = (contrast(W + D) - contrast(W - D)) / 2
        DW = D @ np.linalg.inv(W)
        tr = sum(DW[..., i, i] for i in range(n))
        tr = np.sum(np.real(tr)) * (1 if single else 2)
        total = slope - tr
        # ordinary gradient: derivative is -c ||D||^2 ; natural gradient: -c ||D W^-1||^2
        E = DW if fam.startswith("Natural") else D
        c0 = 1 if single else 2
        ctx.eq(total, -c0 * np.sum(np.real(E * E.conj())), "step is the negative (natural) gradient of the reported loss")

    return run


def consistent(name, nb, T, symY):
    """score_fn is the derivative of contrast_fn: (2nd order) Taylor identities that hold exactly."""

    def run(ctx):
        fam = name.partition(":")[0]
        single = "FDICA" not in fam and "IVA" not in fam
        kw = {} if single else {"scale_restoration": False}
        if "FDICA" in fam:
            kw["permutation_alignment"] = False
        m = make(name, ctx, **kw)
        n = 2
        Y = ctx.real("Y", (n, T), sym=symY) if single else ctx.cplx("Y", (n, nb, T), sym=symY)
        Hh = ctx.real("H", (n, T), sym=1) if single else ctx.cplx("H", (n, nb, T), sym=1)
        if "Gauss" in fam:
            m.n_bins = nb
            m.variance = ctx.pos("a", (n, T), sym=2)
        G, Gh = m.contrast_fn(Y), m.contrast_fn(Y + Hh)
        if hasattr(m, "score_fn"):
            s = m.score_fn(Y)
            ip = s * Hh if single else 2 * np.real(s.conj() * Hh)
        h2 = np.real(Hh * Hh.conj())
        if "Gauss" in fam:
            v = m.variance
            if hasattr(m, "score_fn"):
                ctx.eq(Gh - G, (np.sum(ip, axis=1) + np.sum(h2, axis=1) / v), "Gauss contrast: exact second-order expansion with slope score_fn")
            else:
                r = ctx.pos("r", (n, T), sym=2)
                # d/dr (r^2 / v)
                ctx.eq(m.d_contrast_fn(r) * v, 2 * r, "derivative of r^2 / v")
                ctx.eq(m.d_contrast_fn(r[:1], variance=v[:1]) * v[:1], 2 * r[:1], "derivative for a subset of sources")
                ctx.eq((Gh - G) * v, np.sum(np.real((Y + Hh) * (Y + Hh).conj()) - np.real(Y * Y.conj()), axis=1), "contrast is |y|^2 / v + const")
            ctx.eq(G - np.sum(np.real(Y * Y.conj()), axis=1) / v, nb * np.log(v), "normalising constant")
            return
        if single:
            ctx.eq(G * G, Y * Y, "Laplace contrast |y|")
            ctx.eq(m.score_fn(Y) * G, Y, "score is sign(y)")
            return
        if "IVA" in fam:
            sq = np.sum(np.real(Y * Y.conj()), axis=1)
            if hasattr(m, "score_fn"):
                lin = np.sum(ip, axis=1)
                ctx.eq(Gh * Gh - G * G, 2 * G * lin + 4 * np.sum(h2, axis=1), "G^2 expands with slope 2 G score")
        else:
            sq = np.real(Y * Y.conj())
            if hasattr(m, "score_fn"):
                ctx.eq(Gh * Gh - G * G, 2 * G * ip + 4 * h2, "G^2 expands with slope 2 G score")
        ctx.eq(G * G, 4 * sq, "contrast is twice the norm")
        ctx.ge(G, 0, "contrast nonnegative")
        if hasattr(m, "d_contrast_fn"):
            r = ctx.pos("r", (n, T), sym=2)
            ctx.eq(m.d_contrast_fn(r), 2 * np.ones((n, T)), "derivative of 2 r")

    return run


def variance(name, nb, T, symX, symW):
    """Gauss classes: variance is the mean power over bins of the current separated signals; initially one."""

    def run(ctx):
        m, X, W, _ = setup(name, ctx, 2, nb, T, symX, symW)
        m(X, n_iter=0, demix_filter=W)
        ctx.eq(m.variance, np.ones((2, T)), "initial variance")
        m.update_source_model()
        Y = separated(X, W, False)
        ctx.eq(m.variance, np.sum(np.real(Y * Y.conj()), axis=1) / nb, "mean power over bins")
        # ML: stationary point of n_bins log a + |y|^2 / a
        ctx.eq(nb * m.variance - np.sum(np.real(Y * Y.conj()), axis=1), 0 * m.variance, "maximum-likelihood variance")

    return run


def reuse(name, nb, T, symX, symW):
    """Gauss classes: a second call starts again from unit variance / stays consistent with the filter"""

    def run(ctx):
        m, X, W, single = setup(name, ctx, 2, nb, T, symX, symW, record_loss=False)
        m(X, n_iter=1, demix_filter=W)
        V = m.demix_filter.copy()
        m2 = setup(name, ctx, 2, nb, T, symX, symW, record_loss=False)[0]
        m(X, n_iter=1, initial_call=False)
        m2(X, n_iter=1, demix_filter=V)
        ctx.eq(m.demix_filter, m2.demix_filter, "source model recomputed from the current filter")

    return run


GRAD = [
    ("GradICA:", 0, 0), ("GradICA:h", 0, 1), ("NaturalGradICA:", 1, 0), ("NaturalGradICA:h", 1, 1),
    ("GradFDICA:", 0, 0), ("GradFDICA:h", 0, 1), ("NaturalGradFDICA:", 1, 0), ("NaturalGradFDICA:h", 1, 1),
    ("GradIVA:nh", 0, 0), ("GradIVA:", 0, 1), ("NaturalGradIVA:nh", 1, 0), ("NaturalGradIVA:", 1, 1),
]
DIST = [
    ("GradLaplaceFDICA:", 0), ("NaturalGradLaplaceFDICA:", 1), ("GradLaplaceIVA:", 0), ("NaturalGradLaplaceIVA:", 1),
    ("GradGaussIVA:", 0), ("NaturalGradGaussIVA:", 1),
]


def harnesses(tier):
    h = []
    for name, nat, hol in GRAD:
        single = "FDICA" not in name and "IVA" not in name
        h.append((f"step-{name}", step(name, nat, hol, 2, 2, 2, 1, None if single else 4), NV))
        h.append((f"step3-{name}", step(name, nat, hol, 3, 1, 2, 1, 3), NV))
        if not single:
            h.append((f"general-{name}", step(name, nat, hol, 2, 2, 2, 1, 2, general=True), NV))
        h.append((f"step4-{name}", step(name, nat, hol, 4, 1, 2, 1, 1, general=not single), NV))
        h.append((f"loss-{name}", loss(name, 2, 2, 2, 1, 2), OPT))
        h.append((f"two-{name}", two(name, 2, 1, 2, 1, 1), NV))
    for name in ["GradICA:", "NaturalGradICA:", "GradFDICA:", "NaturalGradFDICA:", "GradIVA:", "NaturalGradIVA:"]:
        h.append((f"descent-{name}", descent(name, None, 2, 2 if "IVA" in name else 1, 2, 1, 3), NV))
    for name, nat in DIST:
        nb = 2
        for hol in (0, 1):
            h.append((f"step-{name}{hol}", step(name, nat, hol, 2, nb, 2, 1, 2), OPT))
        if "Gauss" not in name:
            h.append((f"floor-{name}", step(name, nat, 1, 2, nb, 2, 1, 1, floor=0.5), OPT))
        else:
            h.append((f"variance-{name}", variance(name, 2, 2, 2, 2), OPT))
            h.append((f"reuse-{name}", reuse(name, 1, 2, 1, 1), DAG))
        h.append((f"loss-{name}", loss(name, 2, 2, 2, 1, 1), OPT))
        h.append((f"consistent-{name}", consistent(name, 2, 2, 2), OPT))
    for name in ["GradLaplaceICA:", "NaturalGradLaplaceICA:"]:
        for hol in (0, 1):
            h.append((f"step-{name}{hol}", step(name, name[0] == "N", hol, 2, 1, 2, 2, 3), {"policy": {"eq": "fork"}, "max_paths": 80}))
        h.append((f"consistent-{name}", consistent(name, 1, 2, 2), OPT))
        h.append((f"loss-{name}", loss(name, 2, 1, 2, 2, 2), OPT))
    for name in ["AuxLaplaceFDICA:IP1", "AuxLaplaceIVA:IP1", "AuxGaussIVA:IP1", "AuxLaplaceIVA:ISS1", "AuxGaussIVA:IP2"]:
        h.append((f"consistent-{name}", consistent(name, 2, 2, 2), OPT))
    h.append(("variance-AuxGaussIVA:IP1", variance("AuxGaussIVA:IP1", 2, 2, 2, 2), OPT))
    return h
