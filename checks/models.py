"""Factories for every separator class with generic (uninterpreted) contrast functions."""

import numpy as np

from ssspy.bss import cacgmm, fdica, hva, ica, ilrma, ipsdta, iva, mnmf
from ssspy.bss.admmbss import ADMMBSS, MaskingADMMBSS
from ssspy.bss.pdsbss import PDSBSS, MaskingPDSBSS


class StubRng:
    """Replaces numpy's Generator: every drawn number is an input symbol."""

    def __init__(self, ctx, sym=1):
        self.ctx, self.sym, self.n = ctx, sym, 0

    def random(self, size=None, *a, **k):
        self.n += 1
        shape = () if size is None else ((size,) if isinstance(size, int) else tuple(size))
        memo = self.ctx.__dict__.setdefault("rng_memo", {})
        if (self.n, shape) not in memo:
            memo[self.n, shape] = self.ctx.pos(f"rng{self.n}", shape, sym=self.sym, lo=0.25, hi=1)
        return memo[self.n, shape].copy()

    uniform = None


def cnorm(Y):
    return np.linalg.norm(Y, axis=1)


def fns(ctx):
    """contrast and derivative acting on r = |y| or the norm over bins."""
    G, phi, psi = ctx.fn("G"), ctx.fn("phi"), ctx.fn("psi")
    return G, phi, psi


FD, IV, IC, PR = "fdica", "iva", "ica", "prox"


def make(name, ctx, **over):
    """-> separator.  Keyword overrides go to the constructor."""
    G, phi, psi = fns(ctx)
    fam, _, alg = name.partition(":")
    kw = {}

    def con(cls, *a, **k):
        k.update(over)
        return cls(*a, **k)

    # real-valued single-bin ICA
    if fam in ("GradICA", "NaturalGradICA"):
        odd = ctx.fn("odd")
        return con(getattr(ica, fam), contrast_fn=lambda y: G(y), score_fn=lambda y: odd(y), is_holonomic=alg == "h")
    if fam in ("GradLaplaceICA", "NaturalGradLaplaceICA"):
        return con(getattr(ica, fam))
    if fam == "FastICA":
        odd = ctx.fn("odd")
        return con(ica.FastICA, contrast_fn=lambda y: G(y), score_fn=lambda y: odd(y), d_score_fn=lambda y: phi(y))
    # frequency-domain ICA
    if fam in ("GradFDICA", "NaturalGradFDICA"):
        return con(getattr(fdica, fam), contrast_fn=lambda y: G(np.abs(y)),
                   score_fn=lambda y: phi(np.abs(y)) * y, is_holonomic=alg == "h")
    if fam == "AuxFDICA":
        return con(fdica.AuxFDICA, spatial_algorithm=alg, contrast_fn=lambda y: G(np.abs(y)),
                   d_contrast_fn=lambda r: phi(r))
    if fam in ("GradLaplaceFDICA", "NaturalGradLaplaceFDICA"):
        return con(getattr(fdica, fam))
    if fam == "AuxLaplaceFDICA":
        return con(fdica.AuxLaplaceFDICA, spatial_algorithm=alg)
    # IVA
    if fam in ("GradIVA", "NaturalGradIVA"):
        return con(getattr(iva, fam), contrast_fn=lambda y: G(cnorm(y)),
                   score_fn=lambda y: phi(cnorm(y))[:, None, :] * y, is_holonomic=alg != "nh")
    if fam == "FastIVA":
        return con(iva.FastIVA, contrast_fn=lambda y: G(cnorm(y)), d_contrast_fn=lambda r: phi(r),
                   dd_contrast_fn=lambda r: psi(r))
    if fam == "FasterIVA":
        return con(iva.FasterIVA, contrast_fn=lambda y: G(cnorm(y)), d_contrast_fn=lambda r: phi(r))
    if fam == "AuxIVA":
        return con(iva.AuxIVA, spatial_algorithm=alg, contrast_fn=lambda y: G(cnorm(y)), d_contrast_fn=lambda r: phi(r))
    if fam in ("GradLaplaceIVA", "GradGaussIVA", "NaturalGradLaplaceIVA", "NaturalGradGaussIVA"):
        return con(getattr(iva, fam))
    if fam in ("AuxLaplaceIVA", "AuxGaussIVA"):
        return con(getattr(iva, fam), spatial_algorithm=alg)
    if fam in ("PDSIVA", "ADMMIVA"):
        prox = prox_of(ctx)
        return con(getattr(iva, fam), contrast_fn=lambda y: G(cnorm(y)), prox_penalty=prox)
    # proximal
    if fam in ("PDSBSS", "ADMMBSS"):
        prox = prox_of(ctx)
        if alg == "2":
            prox2 = lambda z, step_size=1: psi(np.abs(z) + step_size) * z  # noqa: E731
            return con({"PDSBSS": PDSBSS, "ADMMBSS": ADMMBSS}[fam],
                       penalty_fn=[lambda y: G(np.abs(y)).sum(), lambda y: phi(np.abs(y)).sum()],
                       prox_penalty=[prox, prox2])
        return con({"PDSBSS": PDSBSS, "ADMMBSS": ADMMBSS}[fam], penalty_fn=lambda y: G(np.abs(y)).sum(), prox_penalty=prox)
    if fam in ("MaskingPDSBSS", "MaskingADMMBSS"):
        return con({"MaskingPDSBSS": MaskingPDSBSS, "MaskingADMMBSS": MaskingADMMBSS}[fam],
                   penalty_fn=lambda y: G(np.abs(y)).sum(), mask_fn=lambda z: psi(np.abs(z)))
    if fam in ("MaskingPDSHVA", "MaskingADMMHVA", "HVA"):
        return con(getattr(hva, fam))
    # ILRMA
    rng = StubRng(ctx)
    if fam in ("GaussILRMA", "TILRMA", "GGDILRMA"):
        parts = alg.split(",")
        k = dict(n_basis=1 if "k1" in parts else 2, spatial_algorithm=parts[0], rng=rng)
        if fam == "TILRMA":
            k["dof"] = 3
        if fam == "GGDILRMA":
            k["beta"] = 1
        if "ME" in parts:
            k["source_algorithm"] = "ME"
        if "part" in parts:
            k["partitioning"] = True
        if "d1" in parts:
            k["domain"] = 1
        if "pb" in parts:
            k["normalization"] = "projection_back"
        if "nonorm" in parts:
            k["normalization"] = False
        return con(getattr(ilrma, fam), **k)
    if fam in ("GaussMNMF", "FastGaussMNMF"):
        parts = alg.split(",")
        k = dict(n_basis=1 if "k1" in parts else 2, rng=rng)
        if fam == "FastGaussMNMF":
            k["diagonalizer_algorithm"] = parts[0] or "IP"
        if "part" in parts:
            k["partitioning"] = True
        if "nonorm" in parts:
            k["normalization"] = False
        return con(getattr(mnmf, fam), **k)
    if fam == "CACGMM":
        return con(cacgmm.CACGMM, rng=rng, permutation_alignment=alg == "perm")
    if fam in ("GaussIPSDTA", "TIPSDTA"):
        k = dict(n_basis=1, n_blocks=1, rng=rng)
        if fam == "TIPSDTA":
            k["dof"] = 3
        if alg == "nonorm":
            k["source_normalization"] = False
        return con(getattr(ipsdta, fam), **k)
    raise KeyError(name)


def prox_of(ctx):
    phi = ctx.fn("phi")

    def prox(z, step_size=1):
        return phi(np.abs(z) + step_size) * z

    return prox


RESUMABLE = [
    "GradICA:", "GradICA:h", "NaturalGradICA:", "NaturalGradICA:h", "FastICA:",
    "GradFDICA:", "GradFDICA:h", "NaturalGradFDICA:", "NaturalGradFDICA:h", "AuxFDICA:IP1", "AuxFDICA:IP2",
    "GradIVA:", "GradIVA:nh", "NaturalGradIVA:", "NaturalGradIVA:nh", "FastIVA:", "FasterIVA:",
    "AuxIVA:IP1", "AuxIVA:IP2", "AuxIVA:ISS1", "AuxIVA:ISS2", "AuxIVA:IPA",
    "PDSIVA:", "ADMMIVA:", "PDSBSS:", "PDSBSS:2", "ADMMBSS:", "ADMMBSS:2", "MaskingPDSBSS:", "MaskingADMMBSS:",
    "GaussILRMA:IP1", "GaussILRMA:IP2", "GaussILRMA:ISS1", "GaussILRMA:ISS2", "GaussILRMA:IPA",
    "GaussILRMA:IP1,ME", "GaussILRMA:IP1,part", "GaussILRMA:ISS1,part,ME", "GaussILRMA:IP1,pb", "GaussILRMA:ISS1,pb",
    "GaussILRMA:IP1,nonorm", "TILRMA:IP1", "TILRMA:ISS1", "TILRMA:IP2,part", "TILRMA:ISS2,ME", "GGDILRMA:IP1", "GGDILRMA:ISS1",
    "GGDILRMA:ISS2,part", "GGDILRMA:IP2,pb",
    "GaussMNMF:", "GaussMNMF:part", "FastGaussMNMF:IP1", "FastGaussMNMF:IP2",
]


def mixture(ctx, name, nb=2, T=2, sym=2, prefix="X"):
    fam = name.partition(":")[0]
    if fam.endswith("ICA") and "FDICA" not in fam:
        return ctx.real(prefix, (2, T + 1), sym=sym)
    return ctx.cplx(prefix, (2, nb, T), sym=sym)


STATE = ["demix_filter", "output", "basis", "activation", "latent", "dual", "auxiliary1", "auxiliary2", "dual1", "dual2",
         "diagonalizer", "spatial", "mixing", "covariance", "posterior"]


def state(m):
    return {k: getattr(m, k) for k in STATE if getattr(m, k, None) is not None}


def initial(ctx, name, nb=2, T=2):
    """initial parameters a caller may pass (symbolic demixing filter where the class has one)."""
    fam = name.partition(":")[0]
    if fam in ("GaussMNMF", "FastGaussMNMF", "CACGMM"):
        return {}
    if fam.endswith("ICA") and "FDICA" not in fam:
        return {"demix_filter": ctx.real("W", (2, 2), sym=1)}
    d = {"demix_filter": ctx.cplx("W", (nb, 2, 2), sym=1)}
    if "ADMM" in fam:
        q = (2,) if name.endswith(":2") else () if "Masking" in fam else (1,)
        d["auxiliary1"] = ctx.cplx("V", (nb, 2, 2), sym=1)
        d["auxiliary2"] = ctx.cplx("Vt", q + (2, nb, T), sym=1)
        d["dual1"] = ctx.cplx("D", (nb, 2, 2), sym=1)
        d["dual2"] = ctx.cplx("Dt", q + (2, nb, T), sym=1)
    if "PDS" in fam:
        q = (2,) if name.endswith(":2") else () if "Masking" in fam else (1,)
        d["dual"] = ctx.cplx("D", q + (2, nb, T), sym=1)
    return d


SCALED = [
    "GradFDICA:", "NaturalGradFDICA:", "AuxFDICA:IP1", "AuxFDICA:IP2", "GradIVA:", "NaturalGradIVA:", "FastIVA:", "FasterIVA:",
    "AuxIVA:IP1", "AuxIVA:IP2", "AuxIVA:ISS1", "AuxIVA:ISS2", "AuxIVA:IPA", "PDSIVA:", "ADMMIVA:", "PDSBSS:", "ADMMBSS:",
    "MaskingPDSBSS:", "MaskingADMMBSS:", "GaussILRMA:IP1", "GaussILRMA:IP2", "GaussILRMA:ISS1", "GaussILRMA:ISS2", "GaussILRMA:IPA",
    "TILRMA:IP1", "TILRMA:IP2", "TILRMA:ISS1", "TILRMA:ISS2", "GGDILRMA:IP1", "GGDILRMA:IP2", "GGDILRMA:ISS1", "GGDILRMA:ISS2",
    "GaussIPSDTA:", "TIPSDTA:",
]


def restored(name, keyword, ref, expected, nb=2, T=3, n=2):
    """The scale restoration of a separator: same result as `expected(Y, X, ref)`, filter consistent with the output."""

    def run(ctx):
        X = ctx.cplx("X", (n, nb, T), sym=2)
        W = ctx.cplx("W", (nb, n, n), sym=2)
        kw = {"scale_restoration": keyword, "reference_id": ref}
        if "FDICA" in name:
            kw["permutation_alignment"] = False
        if name in ("GaussIPSDTA:", "TIPSDTA:"):
            kw["record_loss"] = False
        m = make(name, ctx, **kw)
        out = m(X.copy(), n_iter=0, demix_filter=W.copy())
        Z = X
        if "Fast" in name:
            Z = m.whitened_input
        Y = (W @ Z.transpose(1, 0, 2)).transpose(1, 0, 2)
        if keyword is False:
            ctx.eq(out, Y, "no scale restoration")
        else:
            ctx.eq(out, expected(Y, X, ref), "output is the rescaled separated signal")
        ctx.eq(out, m.output, "returned array is the output attribute")
        if m.demix_filter is not None:
            V = m.demix_filter
            ctx.eq((V @ Z.transpose(1, 0, 2)).transpose(1, 0, 2), out, "output is the filter applied to the input")
            ctx.eq(m.separate(X, demix_filter=V), out, "separate() with the final filter gives the output")
            for i in range(n):
                for j in range(i):
                    ctx.eq(V[..., i] * W[..., j], V[..., j] * W[..., i], "filter rows keep their direction")

    return run
