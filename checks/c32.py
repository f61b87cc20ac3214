"""C32: every run starts from the parameters the caller supplies, and from the documented initial state otherwise."""

import warnings

import numpy as np

from .c18 import everything
from .common import Many, Patch, opaque_lqpqm
from .models import StubRng, make

FUNCTIONS = [
    "__call__/_reset and every _init_* method of every separator class: ica, fdica, iva, ilrma, mnmf, cacgmm, ipsdta, pdsbss, admmbss, hva, proxbss",
]
BOUNDS = (
    "2-3 channels, 2 bins (IPSDTA: 3-4 in 1-2 blocks), 2-3 frames, 1-2 bases; 1-2 entries of the mixture and of every supplied parameter symbolic, every random draw a symbol; 0-1 iterations"
)
ASSUMPTIONS = [
    "eigenvalue / singular value / inverse computations and the quadratic minimiser of IPA are uninterpreted functions of their arguments",
    "contrast functions, penalties and masks are uninterpreted; random draws in [0.25, 1), above the floor",
]
POLICY = {"opaque": ("eigh", "inv", "cholesky", "svd"), "dag": 2, "eq": "generic", "floor": "inactive", "follow": True}

REAL = ("GradICA", "NaturalGradICA", "FastICA", "GradLaplaceICA", "NaturalGradLaplaceICA")
FILTER = [
    "GradICA:", "NaturalGradICA:h", "FastICA:", "GradLaplaceICA:", "NaturalGradLaplaceICA:",
    "GradFDICA:", "NaturalGradFDICA:", "AuxFDICA:IP1", "AuxFDICA:IP2", "GradLaplaceFDICA:", "NaturalGradLaplaceFDICA:", "AuxLaplaceFDICA:IP1",
    "GradIVA:", "NaturalGradIVA:", "FastIVA:", "FasterIVA:", "AuxIVA:IP1", "AuxIVA:IP2", "GradLaplaceIVA:", "GradGaussIVA:", "NaturalGradLaplaceIVA:",
    "NaturalGradGaussIVA:", "AuxLaplaceIVA:IP1", "AuxGaussIVA:IP1", "AuxGaussIVA:IP2",
]
IMPLICIT = ["AuxIVA:ISS1", "AuxIVA:ISS2", "AuxIVA:IPA", "AuxGaussIVA:ISS1", "AuxLaplaceIVA:ISS2",
            "GaussILRMA:ISS1", "GaussILRMA:ISS2", "GaussILRMA:IPA", "GaussILRMA:ISS1,part", "TILRMA:ISS1", "TILRMA:ISS2,part", "GGDILRMA:ISS1"]
PROX = ["PDSIVA:", "ADMMIVA:", "PDSBSS:", "PDSBSS:2", "ADMMBSS:", "ADMMBSS:2", "MaskingPDSBSS:", "MaskingADMMBSS:", "MaskingPDSHVA:", "MaskingADMMHVA:"]
MODEL = [
    "GaussILRMA:IP1", "GaussILRMA:IP2", "GaussILRMA:IP1,part", "GaussILRMA:IP1,ME", "GaussILRMA:IP1,pb", "GaussILRMA:IP1,d1", "TILRMA:IP1", "TILRMA:IP2,part",
    "GGDILRMA:IP1", "GGDILRMA:IP2,part", "GaussMNMF:", "GaussMNMF:part", "FastGaussMNMF:IP1", "FastGaussMNMF:IP2", "CACGMM:", "CACGMM:perm",
    "GaussIPSDTA:", "GaussIPSDTA:nonorm", "TIPSDTA:",
]
ALL = FILTER + IMPLICIT + PROX + MODEL
K = 2


def family(name):
    return name.partition(":")[0]


def options(name):
    fam = family(name)
    kw = {}
    if fam not in REAL + ("GaussMNMF", "FastGaussMNMF", "CACGMM"):
        kw["scale_restoration"] = False
    if "FDICA" in fam:
        kw["permutation_alignment"] = False
    if "HVA" in fam or "IPSDTA" in fam:
        kw["record_loss"] = False
    return kw


def observe(ctx, name, n=2, nb=2, T=2, prefix="X"):
    memo = ctx.__dict__.setdefault("mix_memo", {})
    key = (family(name) in REAL, n, nb, T, prefix)
    if key not in memo:
        memo[key] = ctx.real(prefix, (n, T + 1), sym=2) if key[0] else ctx.cplx(prefix, (n, nb, T), sym=2)
    return memo[key]


def supplied(ctx, name, n=2, nb=2, T=2):
    memo = ctx.__dict__.setdefault("par_memo", {})
    key = (name, n, nb, T)
    if key not in memo:
        d = everything(ctx, name, n, nb, T, 1 if "IPSDTA" in name else K) if "CACGMM" not in name else {}
        memo[key] = {k: v + 0 for k, v in d.items()}
    return memo[key]


def run(m, X, n_iter=0, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return m(X.copy(), n_iter=n_iter, **{k: v.copy() for k, v in kw.items()})


class OtherGenerator(Exception):
    pass


def no_global_generator():
    """the numpy-wide generator and generators of the code's own are off limits while this is in force"""

    def refuse(*a, **k):
        raise OtherGenerator("random numbers from elsewhere")

    names = ["default_rng", "random", "rand", "randn", "uniform", "standard_normal", "normal", "random_sample", "permutation", "shuffle"]
    return Many([Patch(np.random, k, refuse) for k in names])


class Counting(StubRng):
    """also keeps what it handed out"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.drawn = []

    def random(self, size=None, *a, **k):
        out = super().random(size, *a, **k)
        self.drawn.append(out)
        return out.copy()


def eye(shape):
    return np.zeros(shape) + np.eye(shape[-1])


def identical(a, b):
    """the two arrays consist of the same numbers / the same symbols"""
    for x, y in zip(np.asarray(a).ravel().tolist(), np.asarray(b).ravel().tolist()):
        d = x - y
        if not (d.is_zero() if hasattr(d, "is_zero") else abs(d) < 1e-9):
            return False
    return True


def from_draws(ctx, rng, a, label, taken):
    """the array consists of one batch of draws, not used for anything else"""
    same = [i for i, d in enumerate(rng.drawn) if d.shape == a.shape and i not in taken]
    ctx.check(bool(same), f"{label}: drawn from the generator with shape {a.shape}")
    i = next((i for i in same if identical(rng.drawn[i], a)), same[-1] if same else None)
    if i is not None:
        taken.add(i)
        ctx.eq(a, rng.drawn[i], f"{label}: the draws as they are")


def default_state(ctx, name, m, rng, X, given, n, nb, T, c=None):
    """the documented initial state of everything that was not supplied"""
    fam, _, alg = name.partition(":")
    parts = alg.split(",")
    taken = set()
    c = c or n  # channels
    if fam in REAL:
        if "demix_filter" not in given:
            ctx.eq(m.demix_filter, np.eye(n), "identity filter")
        ctx.eq(m.output, m.demix_filter @ (m.whitened_input if "Fast" in fam else X), "output of the initial filter")
        return
    if fam not in ("GaussMNMF", "FastGaussMNMF", "CACGMM"):
        if "demix_filter" not in given:
            W = eye((nb, n, n))
            if getattr(m, "demix_filter", None) is not None:
                ctx.eq(m.demix_filter, W, "identity filter in every bin")
        else:
            W = given["demix_filter"]
        Z = m.whitened_input if "Fast" in fam else X
        ctx.eq(m.output, (W @ Z.transpose(1, 0, 2)).transpose(1, 0, 2), "output of the initial filter")
    q = (2,) if alg == "2" else () if "Masking" in fam else (1,)
    if "ADMM" in fam:
        for k, s in (("auxiliary1", (nb, n, n)), ("auxiliary2", q + (n, nb, T)), ("dual1", (nb, n, n)), ("dual2", q + (n, nb, T))):
            if k not in given:
                ctx.eq(getattr(m, k), np.zeros(s), f"{k} starts from zero")
    if "PDS" in fam and "dual" not in given:
        ctx.eq(m.dual, np.zeros(q + (n, nb, T)), "dual variable starts from zero")
    if "ILRMA" in fam or "MNMF" in fam:
        part = "part" in parts
        if part and "latent" not in given:
            Z = m.latent
            ctx.check(Z.shape == (n, K), "shape of the latent weights")
            ctx.eq(Z.sum(axis=0), np.ones(K), "latent weights sum to one over the sources")
            ctx.gt(Z, 0, "latent weights are positive")
        for k, s in (("basis", (nb, K) if part else (n, nb, K)), ("activation", (K, T) if part else (n, K, T))):
            if k not in given:
                ctx.check(getattr(m, k).shape == s, f"shape of {k}")
                from_draws(ctx, rng, getattr(m, k), k, taken)
    if fam == "GaussMNMF" and "spatial" not in given:
        ctx.eq(m.spatial, eye((n, nb, c, c)) / c, "spatial covariances start from identities of unit trace")
    if fam == "FastGaussMNMF":
        if "diagonalizer" not in given:
            ctx.eq(m.diagonalizer, eye((nb, c, c)), "identity diagonalizer in every bin")
        if "spatial" not in given:
            ctx.check(m.spatial.shape == (nb, n, c), "shape of the spatial parameters")
            from_draws(ctx, rng, m.spatial, "spatial", taken)
    if fam == "CACGMM":
        ctx.check(m.mixing.shape == (n, nb), "shape of the mixing weights")
        ctx.eq(m.mixing.sum(axis=0), np.ones(nb), "mixing weights sum to one over the sources")
        ctx.gt(m.mixing, 0, "mixing weights are positive")
        B = m.covariance
        ctx.check(B.shape == (n, nb, c, c), "shape of the covariances")
        ctx.eq(B * (1 - np.eye(c)), np.zeros((n, nb, c, c)), "diagonal covariances")
        ctx.eq(np.trace(B, axis1=-2, axis2=-1), np.ones((n, nb)), "covariances of unit trace")
        for i in range(c):
            ctx.gt(np.real(B[..., i, i]), 0, "covariances are positive definite")
    if "IPSDTA" in fam and not isinstance(m.basis, tuple):
        T_ = m.basis
        if "basis" not in given:
            ctx.check(T_.shape == (n, 1, 1, nb, nb), "shape of the basis matrices")
            ctx.eq(T_ * (1 - np.eye(nb)), np.zeros(T_.shape), "diagonal basis matrices")
            for i in range(nb):
                ctx.gt(np.real(T_[..., i, i]), 0, "basis matrices are positive definite")
        if "nonorm" not in parts:
            ctx.eq(np.trace(T_, axis1=-2, axis2=-1)[:, :, 0], np.ones((n, 1)), "basis matrices of unit trace")
        elif "activation" not in given:
            from_draws(ctx, rng, m.activation, "activation", taken)


def keeps(ctx, name, m, given):
    """what was supplied is what the run starts from"""
    for k, v in given.items():
        a = getattr(m, k)
        if a is None:  # implicit filters: kept in the output
            continue
        if "IPSDTA" in name and "nonorm" not in name and k in ("basis", "activation"):
            continue  # normalised: compared as a product
        ctx.eq(a, v, f"{k} as supplied")
    if "IPSDTA" in name and "basis" in given and "activation" in given and "nonorm" not in name:
        one = m.basis * m.activation[..., :1, None, None].reshape(m.activation.shape[:2] + (1, 1, 1))
        two = given["basis"] * given["activation"][..., :1, None, None].reshape(given["activation"].shape[:2] + (1, 1, 1))
        ctx.eq(one, two, "source model as supplied")


def sizes(name):
    return dict(n=2, nb=2, T=3 if "CACGMM" in name else 2)


def start(name, keys, n=None):
    """initial state with a subset of the parameters supplied"""

    def body(ctx):
        s = sizes(name)
        if n:
            s.update(n=n, T=5 if "Fast" in name else s["T"])
        with opaque_lqpqm(ctx), no_global_generator():
            X = observe(ctx, name, **s)
            given = {k: v for k, v in supplied(ctx, name, **s).items() if keys == "all" or k in keys}
            rng = Counting(ctx)
            m = build(name, ctx, rng)
            out = run(m, X, **given)
            ctx.eq(m.input, X, "input kept")
            keeps(ctx, name, m, given)
            default_state(ctx, name, m, rng, X, given, **s)
            if keys == "all" and "CACGMM" not in name:
                ctx.check(not rng.drawn, "nothing is drawn when everything is supplied")
            ctx.eq(out, m.output, "returned array")

    return body


def uneven(name, n, c):
    """more or fewer sources than microphones"""

    def body(ctx):
        nb, T = 2, 3
        with no_global_generator():
            X = observe(ctx, name, c, nb, T)
            rng = Counting(ctx)
            m = build(name, ctx, rng, n_sources=n)
            out = run(m, X)
            ctx.check((m.n_sources, m.n_channels, m.n_bins, m.n_frames) == (n, c, nb, T), "sizes")
            default_state(ctx, name, m, rng, X, {}, n, nb, T, c)
            ctx.eq(out, m.output, "returned array")
            ctx.check(out.shape == (n, nb, T), "one image per source")

    return body


def build(name, ctx, rng, **kw):
    over = dict(options(name), **kw)
    if any(k in name for k in ("ILRMA", "MNMF", "CACGMM", "IPSDTA")):
        over["rng"] = rng
    return make(name, ctx, **over)


def state(m):
    return {k: v for k, v in vars(m).items() if isinstance(v, np.ndarray)}


def compare(ctx, a, b, what, skip=()):
    sa, sb = state(a), state(b)
    ctx.check(set(sa) == set(sb), f"{what}: same attributes")
    for k in sa:
        if k in sb and k not in skip:
            ctx.check(sa[k].shape == sb[k].shape, f"{what}: shape of {k}")
            if sa[k].shape == sb[k].shape:
                ctx.eq(sb[k], sa[k], f"{what}: {k}")


def explicit(name):
    """leaving a fixed initial value out equals supplying it"""

    def body(ctx):
        s = sizes(name)
        fam, _, alg = name.partition(":")
        n, nb, T = s["n"], s["nb"], s["T"]
        q = (2,) if alg == "2" else () if "Masking" in fam else (1,)
        if fam in REAL:
            init = {"demix_filter": np.eye(n)}
        elif fam == "GaussMNMF":
            init = {"spatial": eye((n, nb, n, n)) / n + 0j}
        elif fam == "FastGaussMNMF":
            init = {"diagonalizer": eye((nb, n, n)) + 0j}
        else:
            init = {"demix_filter": eye((nb, n, n)) + 0j}
        if "ADMM" in fam:
            init.update(auxiliary1=np.zeros((nb, n, n)) + 0j, auxiliary2=np.zeros(q + (n, nb, T)) + 0j, dual1=np.zeros((nb, n, n)) + 0j,
                        dual2=np.zeros(q + (n, nb, T)) + 0j)
        if "PDS" in fam:
            init["dual"] = np.zeros(q + (n, nb, T)) + 0j
        with opaque_lqpqm(ctx):
            X = observe(ctx, name, **s)
            quiet = {"record_loss": False} if "ADMM" in fam else {}  # ADMM passes through a zero filter
            a, b = build(name, ctx, StubRng(ctx), **quiet), build(name, ctx, StubRng(ctx), **quiet)
            run(a, X, n_iter=1)
            run(b, X, n_iter=1, **{k: ctx.const(v) for k, v in init.items()})
            compare(ctx, a, b, "explicit initial values")

    return body


def generator(name):
    """a run is a function of the mixture and of the generator's draws; without a generator numpy's default one is used"""

    def body(ctx):
        s = sizes(name)
        with opaque_lqpqm(ctx):
            X = observe(ctx, name, **s)
            runs = []
            with no_global_generator():
                for _ in range(2):
                    m = build(name, ctx, StubRng(ctx))
                    run(m, X, n_iter=1)
                    runs.append(m)
            compare(ctx, *runs, "same draws")
            with Patch(np.random, "default_rng", lambda *a, **k: StubRng(ctx)):
                m = build(name, ctx, None)
                run(m, X, n_iter=1)
            compare(ctx, runs[0], m, "generator of its own")

    return body


def proceed(name, more):
    """a filter-based separator called on other data continues from its filter, as a fresh one given that filter would"""

    def body(ctx):
        s = sizes(name)
        with opaque_lqpqm(ctx):
            X = observe(ctx, name, **s)
            s["T"] += more
            Y = observe(ctx, name, prefix="Y", **s)
            a, b = build(name, ctx, None), build(name, ctx, None)
            run(a, X, n_iter=0, **supplied(ctx, name, n=s["n"], nb=s["nb"], T=s["T"] - more))
            W = a.demix_filter + 0
            first = [np.asarray(v) + 0 for v in a.loss]
            run(a, Y, n_iter=1)
            run(b, Y, n_iter=1, demix_filter=W)
            compare(ctx, a, b, "other data")
            ctx.check(len(a.loss) == len(first) + len(b.loss), "losses are appended")
            for x, y in zip(a.loss[len(first):], b.loss):
                ctx.eq(np.asarray(x), np.asarray(y), "losses of the second call")
            for x, y in zip(a.loss, first):
                ctx.eq(np.asarray(x), y, "losses of the first call are kept")

    return body



def ipsdta_blocks(n_blocks, nb, norm):
    def body(ctx):
        n, T = 2, 2
        X = ctx.cplx("X", (n, nb, T), sym=2)
        for fam in ("GaussIPSDTA:", "TIPSDTA:"):
            rng = Counting(ctx)
            with no_global_generator():
                m = make(fam, ctx, scale_restoration=False, record_loss=False, n_blocks=n_blocks, n_basis=2, rng=rng, source_normalization=norm)
                run(m, X)
            low, rest = nb // n_blocks, nb % n_blocks
            ctx.check(isinstance(m.basis, tuple) == (rest > 0), "two groups of blocks when the bins do not divide evenly")
            groups = m.basis if isinstance(m.basis, tuple) else (m.basis,)
            want = [(n, 2, n_blocks - rest, low, low)] + ([(n, 2, rest, low + 1, low + 1)] if rest else [])
            for B, s in zip(groups, want):
                ctx.check(B.shape == s, f"shape {s} of the basis matrices")
                ctx.eq(B * (1 - np.eye(s[-1])), np.zeros(s), "diagonal basis matrices")
                for i in range(s[-1]):
                    ctx.gt(np.real(B[..., i, i]), 0, "positive definite basis matrices")
            ctx.check(m.activation.shape == (n, 2, T), "shape of the activations")
            ctx.gt(m.activation, 0, "positive activations")

    return body


def harnesses(tier):
    h = []
    op = {"policy": POLICY, "max_paths": 40, "noval": True}
    for name in ALL:
        h.append((f"{name}-default", start(name, ()), op))
        if family(name) != "CACGMM":
            h.append((f"{name}-all", start(name, "all"), op))
            h.append((f"{name}-explicit", explicit(name), op))
        if name in FILTER:
            h.append((f"{name}-default-3", start(name, (), n=3), op))
            for more in (0, 1):
                h.append((f"{name}-other-data{more:+d}", proceed(name, more), op))
        else:
            h.append((f"{name}-generator", generator(name), op)) if name in MODEL or "ILRMA" in name else None
    for name in ("GaussMNMF:", "GaussMNMF:part", "FastGaussMNMF:IP1", "CACGMM:"):
        for n, c in ((3, 2), (2, 3)):
            h.append((f"{name}-{n}-sources-{c}-channels", uneven(name, n, c), op))
    for name in PROX + MODEL:
        fam, _, alg = name.partition(":")
        keys = []
        if "ADMM" in fam:
            keys = ["demix_filter", "auxiliary1", "auxiliary2", "dual1", "dual2"]
        elif "PDS" in fam:
            keys = ["demix_filter", "dual"]
        elif "ILRMA" in fam:
            keys = ["demix_filter", "basis", "activation"] + (["latent"] if "part" in alg else [])
        elif fam == "GaussMNMF":
            keys = ["basis", "activation", "spatial"] + (["latent"] if "part" in alg else [])
        elif fam == "FastGaussMNMF":
            keys = ["basis", "activation", "spatial", "diagonalizer"]
        elif "IPSDTA" in fam:
            keys = ["demix_filter", "basis", "activation"]
        for k in keys:
            h.append((f"{name}-only-{k}", start(name, (k,)), op))
    for nb, n_blocks in ((3, 2), (4, 2), (4, 3), (3, 1), (5, 3)):
        for norm in (True, False):
            h.append((f"IPSDTA-blocks{n_blocks}-bins{nb}-{'norm' if norm else 'raw'}", ipsdta_blocks(n_blocks, nb, norm), op))
    return h
