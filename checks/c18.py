"""C18: caller's arrays untouched, output and filter consistent, loss evaluation without side effects."""

import warnings

import numpy as np

from .common import opaque_lqpqm
from .models import make, state

FUNCTIONS = [
    "__call__/_reset/update_once/separate/compute_loss/restore_scale of every separator class",
    "ssspy.bss.base.IterativeMethodBase.__call__", "ssspy.bss._update_spatial_model.*",
]
BOUNDS = (
    "2-3 channels, 1-2 bins (1 for ICA), 2-3 frames; mixture and all initial parameters the class accepts symbolic in 1-2 entries each "
    "(the others fixed generic numbers); 0-1 iterations, then a second call with initial_call=False (and without, where the class cannot be resumed); "
    "every scale restoration keyword, permutation alignment on"
)
ASSUMPTIONS = [
    "eigenvalue / singular value / inverse computations are uninterpreted functions of their arguments",
    "contrast and penalty functions are uninterpreted", "flooring inactive, generic (non-tied) comparisons",
]
POLICY = {"opaque": ("eigh", "inv", "cholesky", "svd"), "dag": 2, "eq": "generic", "floor": "inactive", "follow": True}


def everything(ctx, name, n, nb, T, K=2):
    """every initial parameter the class accepts"""
    fam, _, alg = name.partition(":")
    parts = alg.split(",")
    if fam.endswith("ICA") and "FDICA" not in fam:
        return {"demix_filter": ctx.real("W", (n, n), sym=1)}
    d = {}
    if fam not in ("GaussMNMF", "FastGaussMNMF", "CACGMM"):
        d["demix_filter"] = ctx.cplx("W", (nb, n, n), sym=1)
    if "ILRMA" in fam or "MNMF" in fam:
        if "part" in parts:
            d["latent"] = ctx.pos("Z", (n, K), sym=1, lo=0.25, hi=1)
            d["basis"], d["activation"] = ctx.pos("B", (nb, K), sym=1), ctx.pos("A", (K, T), sym=1)
        else:
            d["basis"], d["activation"] = ctx.pos("B", (n, nb, K), sym=1), ctx.pos("A", (n, K, T), sym=1)
    if fam == "GaussMNMF":
        off = np.zeros((n, nb, n, n)) + np.eye(n)
        d["spatial"] = off * ctx.pos("H", (n, nb, n, n), sym=1)
    if fam == "FastGaussMNMF":
        d["diagonalizer"] = ctx.cplx("Q", (nb, n, n), sym=1)
        d["spatial"] = ctx.pos("D", (nb, n, n), sym=1)
    if "IPSDTA" in fam:
        d["basis"] = ctx.pos("B", (n, 1, 1, nb), sym=1)[..., None] * np.eye(nb) + 0j
        d["activation"] = ctx.pos("A", (n, 1, T), sym=1)
    q = (2,) if alg == "2" else () if "Masking" in fam else (1,)
    if "ADMM" in fam:
        d["auxiliary1"] = ctx.cplx("V", (nb, n, n), sym=1)
        d["auxiliary2"] = ctx.cplx("Vt", q + (n, nb, T), sym=1)
        d["dual1"] = ctx.cplx("D", (nb, n, n), sym=1)
        d["dual2"] = ctx.cplx("Dt", q + (n, nb, T), sym=1)
    if "PDS" in fam:
        d["dual"] = ctx.cplx("D", q + (n, nb, T), sym=1)
    return d


def mix(ctx, name, n, nb, T):
    fam = name.partition(":")[0]
    if fam.endswith("ICA") and "FDICA" not in fam:
        return ctx.real("X", (n, T + 1), sym=2)
    return ctx.cplx("X", (n, nb, T), sym=2)


def filtered(ctx, m, X):
    """demixing filter applied to what the method works on"""
    Z = X
    if type(m).__name__ in ("FastICA", "FastIVA", "FasterIVA"):
        Z = m.whitened_input
    W = m.demix_filter
    if X.ndim == 2:
        return W @ Z
    return (W @ Z.transpose(1, 0, 2)).transpose(1, 0, 2)


def go(name, n=2, nb=2, T=2, iters=1, scale=None, resume=True, K=2, **kw):
    def run(ctx):
        with opaque_lqpqm(ctx):
            body(ctx)

    def body(ctx):
        X = mix(ctx, name, n, nb, T)
        init = everything(ctx, name, n, nb, T, K)
        over = dict(kw)
        if scale is not None:
            over["scale_restoration"] = scale
        if "ILRMA" in name or "MNMF" in name:
            over.setdefault("n_basis", K)
        m = make(name, ctx, **over)
        keep, kept = X.copy(), {k: v.copy() for k, v in init.items()}

        def untouched(when):
            ctx.same(X, keep, f"{when}: caller's mixture untouched")
            for k in kept:
                ctx.same(init[k], kept[k], f"{when}: caller's {k} untouched")

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for call in range(2 if resume else 1):
                if call == 0:
                    out = m(X, n_iter=iters, **init)
                else:
                    out = m(X, n_iter=1, initial_call=False)
                when = f"call {call + 1}"
                untouched(when)
                ctx.eq(out, m.output, f"{when}: returned array is the output attribute")
                if getattr(m, "demix_filter", None) is not None:
                    ctx.eq(out, filtered(ctx, m, X), f"{when}: output is the filter applied to the input")
                if "MNMF" in name:
                    ctx.eq(out, m.separate(X), f"{when}: output is the separation with the final parameters")
                if m.record_loss:
                    st = {k: v if isinstance(v, tuple) else v.copy() for k, v in state(m).items()}
                    m.compute_loss()
                    for k, v in st.items():
                        if not isinstance(v, tuple):
                            ctx.same(getattr(m, k), v, f"{when}: {k} unchanged by evaluating the loss")
                    untouched(f"{when}, loss")

    return run


NOSCALE = ["GradICA:", "GradICA:h", "NaturalGradICA:", "NaturalGradICA:h", "FastICA:",
           "GaussMNMF:", "GaussMNMF:part", "FastGaussMNMF:IP1", "FastGaussMNMF:IP2"]
SCALE = [
    "GradFDICA:", "GradFDICA:h", "NaturalGradFDICA:", "NaturalGradFDICA:h", "AuxFDICA:IP1", "AuxFDICA:IP2",
    "GradIVA:", "GradIVA:nh", "NaturalGradIVA:", "NaturalGradIVA:nh", "FastIVA:", "FasterIVA:",
    "AuxIVA:IP1", "AuxIVA:IP2", "AuxIVA:ISS1", "AuxIVA:ISS2", "AuxIVA:IPA",
    "PDSIVA:", "ADMMIVA:", "PDSBSS:", "PDSBSS:2", "ADMMBSS:", "ADMMBSS:2", "MaskingPDSBSS:", "MaskingADMMBSS:",
    "GaussILRMA:IP1", "GaussILRMA:IP2", "GaussILRMA:ISS1", "GaussILRMA:ISS2", "GaussILRMA:IPA",
    "GaussILRMA:IP1,ME", "GaussILRMA:IP1,part", "GaussILRMA:ISS1,part,ME", "GaussILRMA:IP1,pb", "GaussILRMA:ISS1,pb",
    "GaussILRMA:IP1,nonorm", "TILRMA:IP1", "TILRMA:IP2", "TILRMA:ISS1", "TILRMA:IP2,part", "TILRMA:ISS2,ME", "TILRMA:ISS2",
    "GGDILRMA:IP1", "GGDILRMA:IP2", "GGDILRMA:ISS1", "GGDILRMA:ISS2", "GGDILRMA:ISS2,part", "GGDILRMA:IP2,pb",
    "GaussIPSDTA:", "TIPSDTA:", "GaussIPSDTA:nonorm",
]
PAIRED = ("IP2", "ISS2", "IPA")


def opts(name, **kw):
    return {"policy": POLICY, "max_paths": 300, "warm": "IPA" in name, "noval": any(p in name for p in PAIRED) or "IPSDTA" in name or "MNMF" in name, **kw}


def harnesses(tier):
    h = []
    for n in NOSCALE:
        h.append((n, go(n, K=1), opts(n)))
    for n in SCALE:
        for sc, tag in ((True, "pb"), ("minimal_distortion_principle", "mdp"), (False, "none")):
            if "IPSDTA" in n and sc is not True:
                continue
            T = 3 if sc == "minimal_distortion_principle" else 2
            h.append((f"{n}-{tag}", go(n, scale=sc, T=T, resume=sc is True), opts(n)))
        if "IPSDTA" not in n:
            h.append((f"{n}-ref1", go(n, scale=True, nb=1, resume=False, K=1, reference_id=1), opts(n)))
            h.append((f"{n}-it0-mdp", go(n, scale="minimal_distortion_principle", nb=1, T=3, iters=0, resume=False, K=1, reference_id=-1), opts(n)))
            h.append((f"{n}-n3", go(n, n=3, scale=True, nb=1, T=3, resume=False, K=1), opts(n, noval=True)))
        h.append((f"{n}-it0", go(n, scale=True, nb=2, iters=0, resume=False, K=1), opts(n)))
    for n in NOSCALE:
        h.append((f"{n}-it0", go(n, K=1, iters=0), opts(n)))
    h += [
        ("CACGMM:", go("CACGMM:", resume=False), opts("CACGMM:", noval=True)),
        ("CACGMM:-it0", go("CACGMM:", resume=False, iters=0), opts("CACGMM:", noval=True)),
    ]
    return h
