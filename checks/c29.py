"""C29: the flooring function of an update is the one asked for."""

import inspect
import warnings

import numpy as np

from .common import opaque_lqpqm
from .models import initial, make, mixture

FUNCTIONS = [
    "ssspy.utils.flooring.choose_flooring_fn",
    "every method with a flooring_fn parameter of AuxFDICA, AuxIVA, AuxLaplaceIVA, AuxGaussIVA, FastIVA, FasterIVA, GaussILRMA, TILRMA, GGDILRMA, "
    "GaussMNMF, FastGaussMNMF, GaussIPSDTA, TIPSDTA, CACGMM (found by introspection of the current source)",
]
BOUNDS = (
    "2 sources, 2 channels, 2 bins, 2-3 frames, 1-2 bases; 1-2 entries of the mixture and of each initial parameter symbolic; one call of every method; "
    "flooring functions that change every value"
)
ASSUMPTIONS = [
    "eigenvalue / singular value / inverse computations and the quadratic minimiser of IPA are uninterpreted functions of their arguments",
    "contrast functions are uninterpreted",
]
POLICY = {"opaque": ("eigh", "inv", "cholesky", "svd"), "dag": 2, "eq": "generic", "floor": "inactive", "follow": True}

CLASSES = [
    "AuxFDICA:IP1", "AuxFDICA:IP2", "FastIVA:", "FasterIVA:", "AuxIVA:IP1", "AuxIVA:IP2", "AuxIVA:ISS1", "AuxIVA:ISS2", "AuxIVA:IPA",
    "AuxLaplaceFDICA:IP1", "AuxLaplaceIVA:IP1", "AuxGaussIVA:IP1", "AuxGaussIVA:ISS1",
    "GradFDICA:", "NaturalGradFDICA:", "GradLaplaceFDICA:", "NaturalGradLaplaceFDICA:",
    "GaussILRMA:IP1", "GaussILRMA:IP2", "GaussILRMA:ISS1", "GaussILRMA:ISS2", "GaussILRMA:IPA", "GaussILRMA:IP1,ME", "GaussILRMA:IP1,part",
    "GaussILRMA:ISS1,part,ME", "GaussILRMA:IP1,pb",
    "TILRMA:IP1", "TILRMA:IP2", "TILRMA:ISS1", "TILRMA:ISS2", "TILRMA:IP1,ME", "TILRMA:IP1,part",
    "GGDILRMA:IP1", "GGDILRMA:IP2", "GGDILRMA:ISS1", "GGDILRMA:ISS2", "GGDILRMA:IP1,part",
    "GaussMNMF:", "GaussMNMF:part", "FastGaussMNMF:IP1", "FastGaussMNMF:IP2", "GaussIPSDTA:", "TIPSDTA:", "CACGMM:", "CACGMM:perm",
]
IMPLICIT = ("ISS", "IPA")


def options(name):
    kw = {}
    fam = name.partition(":")[0]
    if fam not in ("GaussMNMF", "FastGaussMNMF", "CACGMM"):
        kw["scale_restoration"] = False
    if fam == "CACGMM" and name.endswith("perm"):
        kw["permutation_alignment"] = True
    if "IPSDTA" in fam:
        kw["record_loss"] = False
    return kw


def shift(x):
    """changes every value, in every position"""
    return x + 0.5


def identity(x):
    return x


class Foreign(Exception):
    pass


def foreign(x):
    raise Foreign("another flooring function than the requested one is called")


def ready(name, ctx, X, init, own):
    """separator in its initial state (reached with the same flooring function), whose own flooring function is ``own``"""
    m = make(name, ctx, flooring_fn=shift, **options(name))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m(X.copy(), n_iter=0, **{k: v.copy() for k, v in init.items()})
    if any(k in name for k in IMPLICIT) and getattr(m, "demix_filter", None) is not None:
        m.output, m.demix_filter = m.separate(X, demix_filter=m.demix_filter), None
    m.flooring_fn = own
    return m


def arrays(m):
    return {k: v for k, v in vars(m).items() if isinstance(v, np.ndarray)}


def defined(ctx, x, y):
    """without flooring, a replayed point can divide 0 by 0: the same way in both"""
    return np.where(np.isnan(x) & np.isnan(y), 0, x) if ctx.mode == "num" else x


def call(m, method, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(m, method)(*a, **k)


def methods(name):
    """public methods of the class that take a flooring function and need nothing else"""

    class Any:
        mode = "num"

        def __getattr__(self, k):
            return lambda *a, **kw: (lambda x: x)

    cls = type(make(name, Any(), **options(name)))
    out = []
    for k, f in inspect.getmembers(cls, inspect.isfunction):
        ps = inspect.signature(f).parameters
        if k.startswith("_") or "flooring_fn" not in ps:
            continue
        need = [p for p in list(ps.values())[1:] if p.name != "flooring_fn" and p.default is inspect.Parameter.empty
                and p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
        if not need:
            out.append(k)
    return out


def applicable(name, method):
    fam, _, alg = name.partition(":")
    parts = alg.split(",")
    for a in ("ip1", "ip2", "iss1", "iss2", "ipa"):  # the algorithm's own method only; projection-back normalisation takes no power
        if method.endswith("_" + a) and parts[0].lower() != a:
            return False
    if fam != "FastGaussMNMF" and method.endswith(("_me", "_mm")) and "ILRMA" in fam:
        return method.endswith("_me") == ("ME" in parts)
    if method.startswith("solve_permutation"):
        return fam != "CACGMM" or alg == "perm"
    if method == "update_latent":
        return "part" in parts
    if "latent" in method and "part" not in parts:
        return False
    if "pb" in parts and "power" in method:
        return False
    return True


def chosen(name, method, variant):
    def run(ctx):
        with opaque_lqpqm(ctx):
            nb = 2
            X = mixture(ctx, name, nb, T=3 if "CACGMM" in name else 2)
            init = initial(ctx, name, nb)
            want = {"given": shift, "self": shift, "none": identity}[variant]
            a = ready(name, ctx, X, init, want)
            b = ready(name, ctx, X, init, foreign if variant != "self" else shift)
            ra = call(a, method)
            try:
                rb = call(b, method, **{"given": {"flooring_fn": shift}, "self": {"flooring_fn": "self"}, "none": {"flooring_fn": None}}[variant])
            except Foreign:
                ctx.check(False, f"{method}: the given flooring function is the only one in use")
                return
            except AssertionError:
                ctx.check(False, f"{method}: flooring_fn={variant} is accepted")
                return
            sa, sb = arrays(a), arrays(b)
            ctx.check(set(sa) == set(sb), f"{method}: same attributes")
            for k in sa:
                if k in sb:
                    ctx.check(sa[k].shape == sb[k].shape, f"{method}: shape of {k}")
                    ctx.eq(defined(ctx, sb[k], sa[k]), defined(ctx, sa[k], sb[k]), f"{method}: {k} as with an object built with that flooring function")
            if isinstance(ra, np.ndarray):
                ctx.eq(defined(ctx, rb, ra), defined(ctx, ra, rb), f"{method}: returned array")

    return run


def constructor(name):
    """flooring_fn=None builds an object that does not floor; the function given at construction is what later updates use"""

    def run(ctx):
        with opaque_lqpqm(ctx):
            nb = 2
            X = mixture(ctx, name, nb, T=3 if "CACGMM" in name else 2)
            init = initial(ctx, name, nb)
            runs = []
            for fl in (None, identity):
                m = make(name, ctx, flooring_fn=fl, **options(name))
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    out = m(X.copy(), n_iter=1, **{k: v.copy() for k, v in init.items()})
                runs.append((arrays(m), out))
            (sa, oa), (sb, ob) = runs
            ctx.eq(defined(ctx, oa, ob), defined(ctx, ob, oa), "flooring_fn=None is the identity")
            for k in sb:
                ctx.check(k in sa, f"attribute {k}")
                if k in sa:
                    ctx.eq(defined(ctx, sa[k], sb[k]), defined(ctx, sb[k], sa[k]), f"flooring_fn=None is the identity: {k}")

    return run


def harnesses(tier):
    h = []
    for name in CLASSES:
        op = {"policy": POLICY, "max_paths": 60, "noval": True}
        if "Grad" not in name:
            h.append((f"{name}-constructor", constructor(name), op))
        for method in methods(name):
            if applicable(name, method):
                for v in ("given", "none") + (("self",) if method == "update_once" else ()):
                    if v == "none" and "IPSDTA" in name and method.startswith("update_spatial_model"):
                        continue  # unfloored fixed-point equations: out of reach of the engine
                    h.append((f"{name}-{method}-{v}", chosen(name, method, v), op))
    return h
