"""C31: options mean what they say: documented aliases and defaults are equivalent, documented ranges are the accepted ones, the rest is refused."""

import warnings

import numpy as np

from ssspy.algorithm.permutation_alignment import correlation_based_permutation_solver
from ssspy.bss import _flooring as old_flooring, _psd as old_psd, _solve_permutation as old_permutation
from ssspy.special import flooring, psd
from ssspy.utils.select_pair import sequential_pair_selector

from .common import opaque_lqpqm
from .models import fns, initial, make, mixture

FUNCTIONS = [
    "constructors and one iteration (__call__/_reset/update_once/normalize/solve_permutation/restore_scale) of every separator class",
    "bss/_flooring.py, bss/_psd.py, bss/_solve_permutation.py (deprecated names)",
    "ilrma: range checks of GaussILRMA, TILRMA, GGDILRMA constructors; refusal of domain != 2 in every *_me update",
]
BOUNDS = (
    "2-3 channels, 1-2 bins, 2-3 frames, 1-2 bases; 1-2 entries of the mixture and of the initial filter symbolic, every domain / shape parameter symbolic; one call with one iteration"
)
ASSUMPTIONS = [
    "eigenvalue / singular value / inverse computations and the quadratic minimiser of IPA are uninterpreted functions of their arguments",
    "contrast functions, penalties and masks are uninterpreted",
]
POLICY = {"opaque": ("eigh", "inv", "cholesky", "svd"), "dag": 2, "eq": "generic", "floor": "inactive", "follow": True}
RANGE = {"eq": "fork", "floor": "inactive", "opaque": ("eigh", "inv", "cholesky", "svd")}
REFUSED = (AssertionError, ValueError, NotImplementedError, TypeError)
REAL = ("GradICA", "NaturalGradICA", "FastICA")
NOSCALE = REAL + ("GaussMNMF", "FastGaussMNMF", "CACGMM")


def plain(name):
    """options that switch off what is not under test"""
    fam = name.partition(":")[0]
    kw = {}
    if fam not in NOSCALE:
        kw["scale_restoration"] = False
    if "FDICA" in fam:
        kw["permutation_alignment"] = False
    if "IPSDTA" in fam or "HVA" in fam:
        kw["record_loss"] = False
    return kw


def data(ctx, name, nb=2, n=2, T=2, prefix="X"):
    """mixture and initial state: the same symbols for every run of a harness"""
    fam = name.partition(":")[0]
    memo = ctx.__dict__.setdefault("data_memo", {})
    key = (fam in REAL, fam, nb, n, T, prefix)
    if key not in memo:
        if fam in REAL:
            X = ctx.real("X", (n, T + 1), sym=2)
            init = {"demix_filter": ctx.real("W", (n, n), sym=1)}
        elif n == 2:
            X = mixture(ctx, name, nb, T=T, prefix=prefix)
            init = initial(ctx, name, nb, T)
        else:
            X = ctx.cplx("X", (n, nb, T), sym=2)
            init = {} if fam in ("GaussMNMF", "FastGaussMNMF", "CACGMM") else {"demix_filter": ctx.cplx("W", (nb, n, n), sym=1)}
        memo[key] = X, init
    return memo[key]


def observe(ctx, name, kw, call=None, nb=2, n=2, T=2, n_iter=1, prefix="X"):
    """everything one run leaves behind"""
    X, init = data(ctx, name, nb, n, T, prefix)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = make(name, ctx, **{**plain(name), **kw})
        out = m(X.copy(), n_iter=n_iter, **{**{k: v.copy() for k, v in init.items()}, **(call(ctx, init) if call else {})})
    s = {k: v for k, v in vars(m).items() if isinstance(v, np.ndarray)}
    s["(returned)"] = out
    return s, getattr(m, "loss", None)


def compare(ctx, one, two, what):
    (a, la), (b, lb) = one, two
    ctx.check(set(a) == set(b), f"{what}: same attributes")
    for k in a:
        if k in b:
            ctx.check(a[k].shape == b[k].shape, f"{what}: shape of {k}")
            if a[k].shape == b[k].shape:
                ctx.eq(b[k], a[k], f"{what}: {k}")
    ctx.check((la is None) == (lb is None), f"{what}: loss recorded or not")
    if la is not None and lb is not None:
        ctx.check(len(la) == len(lb), f"{what}: number of recorded losses")
        for x, y in zip(la, lb):
            ctx.eq(np.asarray(x), np.asarray(y), f"{what}: recorded loss")


def same(name, name2, kw, kw2, what, **size):
    def run(ctx):
        with opaque_lqpqm(ctx):
            compare(ctx, observe(ctx, name, kw, **size), observe(ctx, name2, kw2, **size), what)

    return run


def differs(name, kw, kw2, what, **size):
    """the alias comparison is not vacuous: another value of the option gives another result"""

    def run(ctx):
        with opaque_lqpqm(ctx):
            a, b = observe(ctx, name, kw, **size)[0], observe(ctx, name, kw2, **size)[0]
            ctx.check(any(np.any(np.abs(np.asarray(a[k] - b[k], dtype=complex)) > 1e-6) for k in a if k in b), what)

    return run


def refused(build, use=True):
    """construction or, at the latest, the first use raises"""

    def run(ctx):
        ok = False
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                with opaque_lqpqm(ctx):
                    build(ctx)
            except REFUSED:
                ok = True
        ctx.check(ok, "refused")

    return run


def refuse(name, call=None, **kw):
    return refused(lambda ctx: observe(ctx, name, kw, call=call))


def unset(name, attribute, value, method, **kw):
    """a step that is switched off (or set to something unknown) refuses to run"""

    def build(ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nb = 2
            m = make(name, ctx, **{**plain(name), **kw})
            m(mixture(ctx, name, nb).copy(), n_iter=0, **{k: v.copy() for k, v in initial(ctx, name, nb).items()})
        if attribute:
            setattr(m, attribute, value)
        try:
            getattr(m, method)()
        except REFUSED:
            return
        ctx.check(False, f"{method} is refused")

    return lambda ctx: build(ctx)


# ------------------------------------------------------------------ numeric ranges


def interval(name, option, lo, hi, closed, **kw):
    """option accepted iff lo < option < hi (<= hi when closed)"""

    def run(ctx):
        d = ctx.real("d", (), sym=1)
        d = d[()] if hasattr(d, "shape") else d
        accepted = True
        try:
            make(name, ctx, **{**plain(name), **kw, option: d})
        except (AssertionError, ValueError):
            accepted = False
        if accepted:
            ctx.gt(d, lo, f"{option} > {lo} when accepted")
            if closed:
                ctx.ge(hi, d, f"{option} <= {hi} when accepted")
            else:
                ctx.gt(hi, d, f"{option} < {hi} when accepted")
        else:
            ctx.ge((d - lo) * (d - hi), 0, f"{option} outside ({lo}, {hi}) when refused")

    return run


def endpoint(name, option, value, ok, **kw):
    def run(ctx):
        got = True
        try:
            make(name, ctx, **{**plain(name), **kw, option: value})
        except (AssertionError, ValueError):
            got = False
        ctx.check(got == ok, f"{option}={value} is {'accepted' if ok else 'refused'}")

    return run


def me_domain(name):
    """the ME algorithm is accepted for domain 2 only"""

    def run(ctx):
        d = ctx.real("d", (), sym=1)
        d = d[()] if hasattr(d, "shape") else d
        accepted = True
        try:
            make(name, ctx, **{**plain(name), "domain": d, "source_algorithm": "ME"})
        except (AssertionError, ValueError):
            accepted = False
        if accepted:
            ctx.eq(np.asarray(d), np.asarray(2.0), "domain = 2 when ME is accepted")
        else:
            ctx.gt((d - 2) * (d - 2), 0, "domain != 2 when ME is refused")

    return run


def me_update(name, method):
    """updates by majorisation-equalisation refuse every domain but 2, also when it is changed later"""

    def run(ctx):
        X = ctx.const(np.array([[[1.5]], [[0.25 + 1j]]])) if "k1" in name else mixture(ctx, name, 2)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = make(name, ctx, **plain(name))
            m(X.copy(), n_iter=0)
        d = ctx.real("d", (), sym=1)
        m.domain = d[()] if hasattr(d, "shape") else d
        d = m.domain
        accepted = True
        try:
            getattr(m, method)()
        except ValueError:
            accepted = False
        if accepted:
            ctx.eq(np.asarray(d), np.asarray(2.0), "domain = 2 when the update is performed")
        else:
            ctx.gt((d - 2) * (d - 2), 0, "domain != 2 when the update is refused")

    return run


# ------------------------------------------------------------------ lists of options

IPS = ["AuxFDICA:", "AuxIVA:", "AuxLaplaceIVA:", "AuxGaussIVA:", "AuxLaplaceFDICA:", "GaussILRMA:", "TILRMA:", "GGDILRMA:", "FastGaussMNMF:"]
ISSS = ["AuxIVA:", "AuxLaplaceIVA:", "AuxGaussIVA:", "GaussILRMA:", "TILRMA:", "GGDILRMA:"]
SCALED = ["GradFDICA:", "NaturalGradFDICA:", "AuxFDICA:IP1", "GradIVA:", "NaturalGradIVA:", "FastIVA:", "FasterIVA:", "AuxIVA:IP1", "AuxIVA:ISS1",
          "PDSIVA:", "ADMMIVA:", "PDSBSS:", "ADMMBSS:", "MaskingPDSBSS:", "MaskingADMMBSS:", "GaussILRMA:IP1", "GaussILRMA:ISS1", "TILRMA:IP1",
          "GGDILRMA:IP2", "GaussIPSDTA:", "TIPSDTA:"]
ILRMAS = ["GaussILRMA:", "TILRMA:", "GGDILRMA:"]
PROX = ["PDSIVA:", "ADMMIVA:", "PDSBSS:", "ADMMBSS:", "MaskingPDSBSS:", "MaskingADMMBSS:", "MaskingPDSHVA:", "MaskingADMMHVA:"]
LOSSES = ["GradICA:", "FastICA:", "GradFDICA:", "AuxFDICA:IP1", "GradIVA:", "AuxIVA:IP1", "AuxIVA:ISS1", "FastIVA:", "PDSBSS:", "ADMMBSS:",
          "GaussILRMA:IP1", "TILRMA:ISS1", "GaussMNMF:", "FastGaussMNMF:IP1", "CACGMM:"]


def aliases():
    for f in IPS:
        yield f"{f}IP=IP1", f + "IP", f + "IP1", {}, {}, {}
        if f != "GaussILRMA:":
            continue
        yield f"{f}IP=IP1,ME", f + "IP,ME", f + "IP1,ME", {}, {}, {}
    for f in ISSS:
        yield f"{f}ISS=ISS1", f + "ISS", f + "ISS1", {}, {}, {}
    for f in ILRMAS:  # with projection-back normalisation and with partitioning
        for a, b in (("IP", "IP1"), ("ISS", "ISS1")):
            yield f"{f}{a}={b},pb", f"{f}{a},pb", f"{f}{b},pb", {}, {}, {}
            yield f"{f}{a}={b},part", f"{f}{a},part", f"{f}{b},part", {}, {}, {}
            yield f"{f}{a}={b},scaled", f + a, f + b, {"scale_restoration": True}, {"scale_restoration": True}, {}
    for f in ISSS[:3]:
        for a, b in (("IP", "IP1"), ("ISS", "ISS1")):
            yield f"{f}{a}={b},scaled", f + a, f + b, {"scale_restoration": True}, {"scale_restoration": True}, {}
    # scale restoration
    for f in SCALED:
        pb = {"scale_restoration": "projection_back"}
        yield f"{f}-scale-True=projection_back", f, f, {"scale_restoration": True}, pb, {}
        for alt in ("projection-back", "PB"):
            yield f"{f}-scale-{alt}=projection_back", f, f, {"scale_restoration": alt}, pb, {}
        mdp = {"scale_restoration": "minimal_distortion_principle"}
        for alt in ("minimal-distortion-principle", "MDP"):
            yield f"{f}-scale-{alt}=minimal_distortion_principle", f, f, {"scale_restoration": alt}, mdp, {}
        yield f"{f}-reference-default=0", f, f, pb, {**pb, "reference_id": 0}, {}
        if f.startswith(("PDS", "ADMM", "Masking", "Fast", "Grad", "Natural", "AuxIVA", "AuxFDICA")):
            yield f"{f}-scale-default=projection_back", f, f, {"scale_restoration": ...}, pb, {}
    # normalisation and permutation
    for f in [f + a for f in ILRMAS for a in ("IP1", "ISS1")] + ["GaussMNMF:", "FastGaussMNMF:IP1"]:
        yield f"{f}-normalization-True=power", f, f, {"normalization": True}, {"normalization": "power"}, {}
        yield f"{f}-normalization-default=power", f, f, {}, {"normalization": "power"}, {}
    for f in ["GradFDICA:", "NaturalGradFDICA:", "AuxFDICA:IP1", "AuxFDICA:IP2", "AuxLaplaceFDICA:IP1"]:
        yield f"{f}-permutation-True", f, f, {"permutation_alignment": True}, {"permutation_alignment": "spectrogram_correlation"}, {"T": 3}
    for pre in "CEJ":  # mixtures for which the documented targets order the sources differently
        size = {"T": 4, "nb": 3, "prefix": pre}
        yield f"CACGMM-permutation-True-{pre}", "CACGMM:", "CACGMM:", {"permutation_alignment": True}, {"permutation_alignment": "posterior_score"}, size
    for k in ("global_iter", "local_iter"):
        for perm in ("posterior_score", "amplitude_score"):
            on = {"permutation_alignment": perm}
            yield f"CACGMM-{perm}-{k}-default=1", "CACGMM:", "CACGMM:", on, {**on, k: 1}, {"T": 3}
    # proximal splitting
    for f in PROX:
        yield f"{f}-alpha=relaxation", f, f, {"alpha": 0.75}, {"relaxation": 0.75}, {}
        yield f"{f}-relaxation-default=1", f, f, {}, {"relaxation": 1}, {}
        if "PDS" in f:
            yield f"{f}-steps-default=1", f, f, {}, {"mu1": 1, "mu2": 1}, {}
        else:
            yield f"{f}-rho-default=1", f, f, {}, {"rho": 1}, {}
    # pairs of sources
    for f in ["AuxIVA:IP2", "AuxIVA:ISS2", "AuxFDICA:IP2", "GaussILRMA:IP2", "GaussILRMA:ISS2", "TILRMA:IP2", "GGDILRMA:ISS2", "FastGaussMNMF:IP2"]:
        yield f"{f}-pairs-default=sequential", f, f, {}, {"pair_selector": sequential_pair_selector}, {"n": 3, "nb": 1, "T": 3}
    # IPA
    for f in ["AuxIVA:IPA", "AuxLaplaceIVA:IPA", "AuxGaussIVA:IPA", "GaussILRMA:IPA"]:
        size = {"n": 3, "nb": 1, "T": 3}
        yield f"{f}-defaults", f, f, {}, {"lqpqm_normalization": True, "newton_iter": 1}, size
        yield f"{f}-newton-default", f, f, {"lqpqm_normalization": True}, {"newton_iter": 1}, size
    # number of sources
    for f in ["GaussMNMF:", "FastGaussMNMF:IP1", "CACGMM:"]:
        yield f"{f}-sources-default=channels", f, f, {}, {"n_sources": 2}, {"T": 3}
    # steps and exponents
    for f in ["GradICA:", "NaturalGradICA:h", "GradFDICA:", "NaturalGradFDICA:h", "GradIVA:", "NaturalGradIVA:nh"]:
        yield f"{f}-step-default=0.1", f, f, {}, {"step_size": 1e-1}, {}
    for f in ILRMAS:
        yield f"{f}-domain-default=2", f + "IP1", f + "IP1", {}, {"domain": 2}, {}
        yield f"{f}-source-algorithm-default=MM", f + "IP1", f + "IP1", {}, {"source_algorithm": "MM"}, {}
    for f in ["GaussMNMF:", "FastGaussMNMF:IP1", "GaussILRMA:IP1", "TILRMA:IP1", "GGDILRMA:ISS1"]:
        yield f"{f}-partitioning-default=False", f, f, {}, {"partitioning": False}, {}
    for f in LOSSES:
        yield f"{f}-record_loss-default=True", f, f, {}, {"record_loss": True}, {"T": 3 if "CACGMM" in f else 2}


def refusals():
    bad = "no-such-option"
    for f in IPS:
        yield f"{f}algorithm", refuse(f + bad)
    for f in ("AuxFDICA:", "AuxLaplaceFDICA:"):
        for a in ("ISS", "ISS1", "ISS2", "IPA"):
            yield f"{f}{a}", refuse(f + a)
    for a in ("ISS", "ISS1", "ISS2", "IPA"):
        yield f"FastGaussMNMF:{a}", refuse("FastGaussMNMF:" + a)
    for f in ILRMAS:
        yield f"{f}source-algorithm", refuse(f + "IP1", source_algorithm=bad)
        yield f"{f}normalization", refuse(f + "IP1", normalization=bad)
        for a in ("IP1", "ISS1"):
            yield f"{f}{a},pb,part", refuse(f"{f}{a},pb,part")
    yield "TILRMA:IPA", refuse("TILRMA:IPA")
    yield "GGDILRMA:IPA", refuse("GGDILRMA:IPA")
    yield "GGDILRMA:ME", refuse("GGDILRMA:IP1,ME")
    yield "FastGaussMNMF-normalization", refuse("FastGaussMNMF:IP1", normalization=bad)
    yield "FastGaussMNMF-partitioning", refuse("FastGaussMNMF:IP1", partitioning=True)
    for f in ["GaussIPSDTA:", "TIPSDTA:"]:
        yield f"{f}source-algorithm", refuse(f, source_algorithm=bad)
        yield f"{f}spatial-algorithm", refuse(f, spatial_algorithm=bad)
    for f in SCALED:
        yield f"{f}-scale", refuse(f, scale_restoration=bad)
        yield f"{f}-reference", refuse(f, scale_restoration=True, reference_id=None)
        yield f"{f}-restore_scale", unset(f, None, None, "restore_scale")
    for f in ["GradFDICA:", "AuxFDICA:IP1", "AuxFDICA:IP2", "CACGMM:"]:
        yield f"{f}-permutation", refuse(f, permutation_alignment=bad)
        yield f"{f}-solve_permutation", unset(f, None, None, "solve_permutation", permutation_alignment=False)
    for f in [f + "IP1" for f in ILRMAS] + ["FastGaussMNMF:IP1"]:
        yield f"{f}-normalize", unset(f, None, None, "normalize", normalization=False)
    for f in ("GaussIPSDTA:", "TIPSDTA:"):
        yield f"{f}-normalize", unset(f, None, None, "normalize_psdtf", source_normalization=False)
    # keywords
    for f in ["AuxIVA:", "GaussILRMA:"]:
        for a in ("IP1", "IP2", "ISS1", "ISS2"):
            yield f"{f}{a}-newton_iter", refuse(f + a, newton_iter=1)
            yield f"{f}{a}-lqpqm_normalization", refuse(f + a, lqpqm_normalization=True)
        yield f"{f}IPA-keyword", refuse(f + "IPA", **{"no_such_keyword": 1})
    for k in ("global_iter", "local_iter"):
        yield f"CACGMM-{k}-off", refuse("CACGMM:", **{k: 1, "permutation_alignment": False})
        yield f"CACGMM-{k}-correlation", refuse("CACGMM:", **{k: 1, "permutation_alignment": "amplitude_correlation"})
    yield "CACGMM-keyword", refuse("CACGMM:", no_such_keyword=1, permutation_alignment=True)
    # proximal splitting
    for f in PROX:
        yield f"{f}-alpha-and-relaxation", refuse(f, alpha=0.75, relaxation=0.5)
    for f in PROX[2:6]:
        yield f"{f}-loss-without-penalty", refuse(f, penalty_fn=None, record_loss=True)
    for f in PROX[2:4]:
        yield f"{f}-no-prox", refuse(f, prox_penalty=None)
        yield f"{f}-lengths", refuse(f, penalty_fn=[lambda y: np.abs(y).sum()] * 2, prox_penalty=[lambda z, step_size=1: z])
    for f in PROX[4:6]:
        yield f"{f}-no-mask", refuse(f, mask_fn=None)
        yield f"{f}-mask-list", refuse(f, mask_fn=[lambda z: 1])
        yield f"{f}-penalty-list", refuse(f, penalty_fn=[lambda y: np.abs(y).sum()])
    for f in PROX[:2]:
        yield f"{f}-no-prox", refuse(f, prox_penalty=None)
        yield f"{f}-no-contrast", refuse(f, contrast_fn=None)
    # missing functions
    for f in ["GradICA:", "NaturalGradICA:", "FastICA:", "GradFDICA:", "NaturalGradFDICA:", "GradIVA:", "NaturalGradIVA:"]:
        yield f"{f}-no-contrast", refuse(f, contrast_fn=None)
        yield f"{f}-no-score", refuse(f, score_fn=None)
    yield "FastICA-no-d_score", refuse("FastICA:", d_score_fn=None)
    for f in ["FastIVA:", "FasterIVA:", "AuxIVA:IP1", "AuxIVA:ISS2", "AuxFDICA:IP1"]:
        yield f"{f}-no-contrast", refuse(f, contrast_fn=None)
        yield f"{f}-no-d_contrast", refuse(f, d_contrast_fn=None)
    yield "FastIVA-no-dd_contrast", refuse("FastIVA:", dd_contrast_fn=None)


def optional_penalty(name):
    """without a penalty the loss is not recorded, and the iterations are the same"""

    def run(ctx):
        a = observe(ctx, name, {"record_loss": False})
        b = observe(ctx, name, {"penalty_fn": None, **({"record_loss": False} if name == "ADMMBSS:" else {})})
        compare(ctx, a, b, "penalty_fn=None")
        ctx.check(b[1] is None, "no loss without penalty")

    return run


def deprecated(name):
    """aux1 / aux2 of the splitting methods are auxiliary1 / auxiliary2"""

    def run(ctx):
        X = mixture(ctx, name, 2)
        init = initial(ctx, name, 2)
        runs = []
        for keys in (("auxiliary1", "auxiliary2"), ("aux1", "aux2")):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m = make(name, ctx, **plain(name))
                k = {q: v.copy() for q, v in init.items() if not q.startswith("auxiliary")}
                k.update({keys[0]: init["auxiliary1"].copy(), keys[1]: init["auxiliary2"].copy()})
                out = m(X.copy(), n_iter=1, **k)
            runs.append(({**{q: v for q, v in vars(m).items() if isinstance(v, np.ndarray)}, "(returned)": out}, m.loss))
        compare(ctx, *runs, "deprecated names")

    return run


def quietly(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def old_floors(ctx):
    """every outcome of the comparisons with the floor"""
    x = ctx.real("x", (2, 2), sym=2)
    eps = ctx.pos("eps", ())[()]
    ctx.eq(quietly(old_flooring.identity, x), flooring.identity(x), "identity")
    for f in ("max_flooring", "add_flooring"):
        old, new = getattr(old_flooring, f), getattr(flooring, f)
        ctx.eq(quietly(old, x), new(x), f)
        ctx.eq(quietly(old, x, eps), new(x, eps), f"{f} with a level")
        ctx.eq(quietly(old, x, eps=eps), new(x, eps=eps), f"{f} with a named level")


def old_to_psd(how):
    def run(ctx):
        X = (ctx.cplx if how != "real" else ctx.real)("X", (2, 2, 2), sym=4)
        f = ctx.fn("gen")
        kw = {"axes": {"axis1": 1, "axis2": 2}, "axis1": {"axis1": 1}, "none": {"flooring_fn": None},
              "fn": {"flooring_fn": lambda v: f(v)}, "default": {}, "real": {}}[how]
        ctx.eq(quietly(old_psd.to_psd, X.copy(), **kw), psd.to_psd(X.copy(), **kw), "positive semidefinite part")
        for bad in ({"axis1": 0, "axis2": 1}, {"axis1": 2, "axis2": 1}):
            try:
                quietly(old_psd.to_psd, X.copy(), **bad)
            except REFUSED:
                continue
            ctx.check(False, "other axes are refused")

    return run


def old_solver(how):
    def run(ctx):
        Y = ctx.cplx("Y", (2, 2, 2), sym=4)
        c = [ctx.real(f"c{k}", (2, 2) + (2,) * k, sym=2) for k in range(2)]
        kw = {"default": {}, "keep": {"overwrite": False}, "none": {"flooring_fn": None}, "fn": {"flooring_fn": lambda v: v + 1}}[how]
        for n in (0, 1, 2):
            a, b = [Y.copy()] + [v.copy() for v in c[:n]], [Y.copy()] + [v.copy() for v in c[:n]]
            ra, rb = quietly(old_permutation.correlation_based_permutation_solver, *a, **kw), correlation_based_permutation_solver(*b, **kw)
            flat = lambda r: [r] if isinstance(r, np.ndarray) else [r[0]] + (list(r[1]) if isinstance(r[1], (tuple, list)) else [r[1]])
            ctx.check(len(flat(ra)) == len(flat(rb)), "as many results")
            for x, y in zip(flat(ra) + a, flat(rb) + b):
                ctx.eq(x, y, f"result and arguments, {n} companions")

    return run


def one_penalty(name):
    """a single penalty and a list of one are the same problem"""

    def run(ctx):
        G, phi, _ = fns(ctx)

        def pen(y):
            return G(np.abs(y)).sum()

        def prox(z, step_size=1):
            return phi(np.abs(z) + step_size) * z

        a = observe(ctx, name, {"penalty_fn": pen, "prox_penalty": prox})
        compare(ctx, a, observe(ctx, name, {"penalty_fn": [pen], "prox_penalty": [prox]}), "list of one penalty")
        compare(ctx, a, observe(ctx, name, {"penalty_fn": [pen], "prox_penalty": prox}), "list of one penalty, single proximal operator")

    return run


def one_callback(name):
    def run(ctx):
        seen = []
        runs = []
        for wrap in (lambda f: f, lambda f: [f], lambda f: [f, f]):
            calls = []
            runs.append(observe(ctx, name, {"callbacks": wrap(lambda m, c=calls: c.append((m.output if getattr(m, "output", None) is not None else m.input) + 0))},
                                T=3 if "CACGMM" in name else 2))
            seen.append(calls)
        compare(ctx, runs[0], runs[1], "list of one callback")
        compare(ctx, runs[0], runs[2], "two callbacks")
        ctx.check([len(c) for c in seen] == [2, 2, 4], "called before the first and after every iteration")
        for k in range(2):
            ctx.eq(seen[1][k], seen[0][k], "state seen by the callback")
            ctx.eq(seen[2][2 * k], seen[0][k], "state seen by the first callback")
            ctx.eq(seen[2][2 * k + 1], seen[0][k], "state seen by the second callback")

    return run


def harnesses(tier):
    h = []
    op = {"policy": POLICY, "max_paths": 40, "noval": True}
    for label, a, b, ka, kb, size in aliases():
        default = [k for k, v in ka.items() if v is ...]
        if default:
            h.append((label, defaulted(a, default[0], kb, label, size), op))
        else:
            h.append((label, same(a, b, ka, kb, label, **size), op))
    for label, f in refusals():
        h.append((f"refuse-{label}", f, op))
    for f in PROX[2:6]:
        h.append((f"{f}-penalty-optional", optional_penalty(f), op))
    for f in PROX[2:4]:
        h.append((f"{f}-one-penalty", one_penalty(f), op))
    for f in ["ADMMBSS:", "MaskingADMMBSS:"]:
        h.append((f"{f}-aux", deprecated(f), op))
    for f in LOSSES:
        h.append((f"{f}-one-callback", one_callback(f), op))
    fork = {"policy": dict(RANGE, clamp=False, floor="fork"), "max_paths": 300, "noval": True}
    h.append(("old-flooring", old_floors, fork))
    for how in ("default", "axes", "axis1", "none", "fn", "real"):
        h.append((f"old-psd-{how}", old_to_psd(how), op))
    for how in ("default", "keep", "none", "fn"):
        h.append((f"old-solver-{how}", old_solver(how), op))
    rg = {"policy": RANGE, "max_paths": 20, "noval": True}
    for f in ILRMAS:
        h.append((f"{f}domain-range", interval(f + "IP1", "domain", 0, 2, True), rg))
        h.append((f"{f}domain-2", endpoint(f + "IP1", "domain", 2, True), rg))
        h.append((f"{f}domain-0", endpoint(f + "IP1", "domain", 0, False), rg))
        if f != "GGDILRMA:":
            h.append((f"{f}ME-domain", me_domain(f + "IP1"), rg))
            for k in ("basis", "activation", "latent", "source_model"):
                h.append((f"{f}{k}-ME-domain", me_update(f + ("IP1,part" if k == "latent" else "IP1"), f"update_{k}_me"), rg))
            h.append((f"{f}source-ME-part-domain", me_update(f + "IP1,part,k1", "update_source_model_me"), rg))
    h.append(("GGDILRMA:beta-range", interval("GGDILRMA:IP1", "beta", 0, 2, False), rg))
    h.append(("GGDILRMA:beta-2", endpoint("GGDILRMA:IP1", "beta", 2, False), rg))
    # the comparisons can tell options apart
    h.append(("control-IP1-IP2", differs_names("AuxIVA:IP1", "AuxIVA:IP2"), op))
    for f, k, v in [("AuxIVA:IP1", "scale_restoration", "MDP"), ("GaussILRMA:IP1", "domain", 1), ("PDSBSS:", "relaxation", 0.75), ("GradIVA:", "step_size", 0.2),
                    ]:
        h.append((f"control-{f}-{k}", differs(f, {k: True} if k == "scale_restoration" else {}, {k: v}, f"{k} matters"), op))
    h.append(("control-IPA-newton_iter", differs("AuxIVA:IPA", {}, {"newton_iter": 2}, "newton_iter matters", n=3, nb=1, T=3), op))
    return h


def defaulted(name, option, kb, label, size):
    """the option left out"""

    def run(ctx):
        from . import c31

        old = c31.plain
        b = observe(ctx, name, kb, **size)
        c31.plain = lambda n: {k: v for k, v in old(n).items() if k != option}
        try:
            a = observe(ctx, name, {}, **size)
        finally:
            c31.plain = old
        compare(ctx, a, b, label)

    return run


def differs_names(a, b):
    def run(ctx):
        x, y = observe(ctx, a, {})[0], observe(ctx, b, {})[0]
        if ctx.mode == "num":
            ctx.check(np.any(np.abs(x["output"] - y["output"]) > 1e-6), "other algorithm, other result")
        else:
            ctx.check(True, "-")

    return run
