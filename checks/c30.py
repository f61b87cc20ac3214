"""C30: frames, bins and (where updates are simultaneous) sources carry no order; a phase common to all channels passes through."""

import warnings

import numpy as np

from .common import opaque_lqpqm
from .models import make

FUNCTIONS = [
    "__call__/_reset/update_once/compute_loss of every separator class: ica, fdica, iva, ilrma, mnmf, cacgmm, ipsdta, pdsbss, admmbss, hva",
]
BOUNDS = (
    "2 channels, 3 bins (IPSDTA: 2), 5 frames, 1-2 bases; 1-2 entries of the mixture and of every state array symbolic; one iteration from an arbitrary state; "
    "the exchange of the microphones, one cyclic relabelling and one exchange of frames / bins (they generate all), the exchange of the sources, a quarter, half or three-quarter turn of the phase of every bin"
)
ASSUMPTIONS = [
    "eigenvalue / singular value / inverse computations and the quadratic minimiser of IPA are uninterpreted functions of their arguments",
    "contrast functions, penalties and masks are uninterpreted",
]
POLICY = {"opaque": ("eigh", "inv", "cholesky", "svd"), "dag": 2, "eq": "generic", "floor": "inactive", "follow": True}
EXACT = {"opaque": ("eigh", "cholesky", "svd"), "eq": "generic", "floor": "inactive", "follow": True}

N, NB, T = 2, 3, 5

ALL = [
    "GradICA:", "GradICA:h", "NaturalGradICA:", "NaturalGradICA:h", "FastICA:",
    "GradFDICA:", "GradFDICA:h", "NaturalGradFDICA:", "NaturalGradFDICA:h", "AuxFDICA:IP1", "AuxFDICA:IP2",
    "GradIVA:", "GradIVA:nh", "NaturalGradIVA:", "NaturalGradIVA:nh", "FastIVA:", "FasterIVA:",
    "AuxIVA:IP1", "AuxIVA:IP2", "AuxIVA:ISS1", "AuxIVA:ISS2", "AuxIVA:IPA",
    "GradLaplaceIVA:", "NaturalGradGaussIVA:", "AuxLaplaceIVA:IP1", "AuxGaussIVA:IP1", "AuxGaussIVA:ISS1",
    "PDSIVA:", "ADMMIVA:", "PDSBSS:", "PDSBSS:2", "ADMMBSS:", "ADMMBSS:2", "MaskingPDSBSS:", "MaskingADMMBSS:",
    "GaussILRMA:IP1", "GaussILRMA:IP2", "GaussILRMA:ISS1", "GaussILRMA:ISS2", "GaussILRMA:IPA",
    "GaussILRMA:IP1,ME", "GaussILRMA:IP1,part", "GaussILRMA:ISS1,part,ME", "GaussILRMA:IP1,pb", "GaussILRMA:ISS1,pb", "GaussILRMA:IP1,d1",
    "TILRMA:IP1", "TILRMA:ISS1", "TILRMA:IP2,part", "TILRMA:ISS2,ME", "GGDILRMA:IP1", "GGDILRMA:ISS1", "GGDILRMA:ISS2,part", "GGDILRMA:IP2,pb",
    "GaussMNMF:", "GaussMNMF:part", "FastGaussMNMF:IP1", "FastGaussMNMF:IP2", "CACGMM:", "GaussIPSDTA:", "TIPSDTA:",
]
HVA = ["MaskingPDSHVA:", "MaskingADMMHVA:"]
REAL = ("GradICA", "NaturalGradICA", "FastICA")
SIGNALS = ("input", "output", "whitened_input", "unit_input", "dual", "auxiliary2", "dual2")
# sources updated simultaneously: axis of the sources in every state array
ROWS = {"demix_filter": -2, "output": -3, "dual": -3, "auxiliary1": -2, "auxiliary2": -3, "dual1": -2, "dual2": -3}
# microphones: axes of the channels in every state array
CHANNELS = {"input": (0,), "demix_filter": (-1,), "auxiliary1": (-1,), "dual1": (-1,), "spatial": (-2, -1), "instant_covariance": (-2, -1),
            "diagonalizer": (-1,), "covariance": (-2, -1), "unit_input": (0,)}
CHANNEL = [n for n in ALL if not any(k in n for k in ("FastI", "FasterI", "PDS", "ADMM", "CACGMM")) and not n.startswith("GaussMNMF")]
CLOSED = {"opaque": ("eigh", "cholesky", "svd"), "dag": 2, "eq": "generic", "floor": "inactive", "follow": True}
SIMULTANEOUS = {
    **{k: {**ROWS, "variance": 0} for k in (
        "GradFDICA:", "GradFDICA:h", "NaturalGradFDICA:", "NaturalGradFDICA:h", "GradIVA:", "GradIVA:nh", "NaturalGradIVA:", "NaturalGradIVA:nh",
        "NaturalGradGaussIVA:")},
    **{k: {"demix_filter": -2, "output": -2} for k in ("GradICA:", "GradICA:h", "NaturalGradICA:", "NaturalGradICA:h")},
    "CACGMM:": {"mixing": 0, "covariance": 0, "posterior": 0, "output": 0},
    "GaussMNMF:": {"basis": 0, "activation": 0, "spatial": 0, "output": 0},
}


def options(name):
    fam = name.partition(":")[0]
    kw = {}
    if fam not in REAL + ("GaussMNMF", "FastGaussMNMF", "CACGMM"):
        kw["scale_restoration"] = False
    if "FDICA" in fam:
        kw["permutation_alignment"] = False
    if "IPSDTA" in fam or "HVA" in fam:
        kw["record_loss"] = False
    return kw


def sizes(name):
    return N, 2 if "IPSDTA" in name else NB, T


def fresh(ctx, name, X):
    m = make(name, ctx, **options(name))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m(X.copy(), n_iter=0)
    return m


def arrays(m):
    return {k: v for k, v in vars(m).items() if isinstance(v, np.ndarray)}


def perturb(ctx, name, m):
    """an arbitrary state: the filters get symbolic entries (parameters drawn at random already are symbols)"""
    n, nb, _ = sizes(name)
    if name.partition(":")[0] in REAL:
        m.demix_filter = ctx.real("W", (n, n), sym=1)
        m.output = m.demix_filter @ (m.whitened_input if "Fast" in name else m.input)
        return
    if "FastGaussMNMF" in name:  # equal ratios would make the eigenvectors of IP2 ambiguous
        m.spatial = m.spatial * (1 + 0.3717 * np.arange(2) + 0.1391 * np.outer(np.arange(2), np.arange(2)))
    for k in ("demix_filter", "auxiliary1", "dual1"):
        if getattr(m, k, None) is not None:
            setattr(m, k, ctx.cplx(k, (nb, n, n), sym=1))
    for k in ("dual", "auxiliary2", "dual2"):
        if getattr(m, k, None) is not None:
            setattr(m, k, ctx.cplx(k, getattr(m, k).shape, sym=1))
    if any(a in name for a in ("ISS", "IPA")):
        m.output = ctx.cplx("Y", m.output.shape, sym=2)
    elif getattr(m, "demix_filter", None) is not None:
        m.output = m.separate(m.whitened_input if "Fast" in name else m.input, demix_filter=m.demix_filter,
                              **({"use_whitening": False} if "Fast" in name else {}))


def relabel(kind, name, order, ctx):
    """-> transformation of a state array"""
    n, nb, nt = sizes(name)
    ufac = np.array([1j, -1, -1j][:nb]) if kind == "phase" else None

    def f(key, a):
        if kind == "frames" or kind == "bins":
            size = nt if kind == "frames" else nb
            for ax, s in enumerate(a.shape):
                if s == size:
                    a = np.take(a, order, axis=ax)
            return a
        if kind == "phase":
            if key in SIGNALS and a.shape[-2] == nb:
                return a * ufac[:, None]
            return a
        if kind == "channels":
            for ax in CHANNELS.get(key, ()):
                if not (key == "spatial" and "Fast" in name):
                    a = np.take(a, [1, 0], axis=ax)
            return a
        ax = SIMULTANEOUS[name].get(key)
        return a if ax is None else np.take(a, [1, 0], axis=ax)

    return f


def symmetry(kind, name, order=None):
    def run(ctx):
        with opaque_lqpqm(ctx):
            n, nb, nt = sizes(name)
            real = name.partition(":")[0] in REAL
            X = ctx.real("X", (n, nt), sym=2) if real else ctx.cplx("X", (n, nb, nt), sym=2)
            f = relabel(kind, name, order, ctx)
            a = fresh(ctx, name, X)
            perturb(ctx, name, a)
            b = fresh(ctx, name, f("input", X))
            if kind == "channels" and hasattr(b, "reference_id"):
                b.reference_id = 1 - b.reference_id
            start = arrays(a)
            for k, v in start.items():
                setattr(b, k, f(k, v).copy())
            has = getattr(a, "record_loss", True)
            if has:
                la, lb = a.compute_loss(), b.compute_loss()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a.update_once()
                b.update_once()
            sa, sb = arrays(a), arrays(b)
            ctx.check(set(sa) == set(sb), "same attributes")
            for k in sa:
                if k in sb:
                    if any(t in name for t in ("IP2", "ISS2")) and k in ("demix_filter", "output", "diagonalizer"):
                        # eigenvectors: every filter is determined up to its phase
                        ctx.eq(unphased(sb[k]), unphased(f(k, sa[k])), f"{k} (up to phases) after an iteration on the relabelled data")
                        continue
                    ctx.eq(sb[k], f(k, sa[k]), f"{k} after an iteration on the relabelled data")
            if has:
                ctx.eq(scalar(ctx, lb), scalar(ctx, la), "same loss")
                ctx.eq(scalar(ctx, b.compute_loss()), scalar(ctx, a.compute_loss()), "same loss after the iteration")
            if kind == "channels" and "MNMF" in name:
                return  # the Wiener filter goes through an eigendecomposition of the relabelled covariance
            ya, yb = out(a), out(b)
            if ya is not None and not any(t in name for t in ("IP2", "ISS2")):
                ctx.eq(yb, f("output", ya), "separated signals")

    return run


def unphased(a):
    return a * a.sum(axis=-1, keepdims=True).conj()


def scalar(ctx, v):
    return np.asarray(v) if ctx.mode == "num" else ctx.const(v)


def out(m):
    if type(m).__name__ in ("CACGMM", "GaussMNMF", "FastGaussMNMF"):
        return m.separate(m.input)
    if getattr(m, "demix_filter", None) is None:
        return m.output
    if hasattr(m, "whitened_input"):
        return m.separate(m.whitened_input, demix_filter=m.demix_filter, use_whitening=False)
    return m.separate(m.input, demix_filter=m.demix_filter)


def harnesses(tier):
    h = []
    op = {"policy": POLICY, "max_paths": 60, "noval": True, "tol": 1e-5}
    for name in ALL + HVA:
        fam = name.partition(":")[0]
        real = fam in REAL
        h.append((f"frames-cycle-{name}", symmetry("frames", name, [1, 2, 3, 4, 0]), op))
        h.append((f"frames-swap-{name}", symmetry("frames", name, [1, 0, 2, 3, 4]), op))
        if not real:
            if "IPSDTA" not in fam:  # its bases couple the bins
                h.append((f"phase-{name}", symmetry("phase", name), op))
            if "IPSDTA" not in fam and name not in HVA:
                h.append((f"bins-cycle-{name}", symmetry("bins", name, [1, 2, 0]), op))
                h.append((f"bins-swap-{name}", symmetry("bins", name, [1, 0, 2]), op))
        if name in CHANNEL:
            h.append((f"channels-{name}", symmetry("channels", name), {**op, "policy": CLOSED}))
        if name in SIMULTANEOUS:
            h.append((f"sources-{name}", symmetry("sources", name), op if name == "GaussMNMF:" or fam.startswith("Natural") else {**op, "policy": EXACT}))
    return h
