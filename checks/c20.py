"""C20: normalisation of ILRMA states."""

import warnings

import numpy as np

from .c19 import build, lam, nll
from .c26 import det
from .models import make

CL = "ssspy.bss.ilrma.ILRMABase."
FUNCTIONS = [
    CL + "{normalize,normalize_by_power,normalize_by_projection_back,_reset,_init_nmf,separate,reconstruct_nmf,compute_logdet}",
    "ssspy.bss.ilrma.{GaussILRMA,TILRMA,GGDILRMA}.{update_once,update_source_model,update_spatial_model,compute_loss,update_latent_mm}",
    "ssspy.bss.ilrma.{GaussILRMA,TILRMA}.update_latent_me",
]
BOUNDS = (
    "2-3 sources, 1-2 bins, 2-3 frames, 1-2 bases; mixture, demixing filter, bases, activations, latent weights symbolic (also slices); domain 1, 2 "
    "(1/2, 4/3 on slices); one normalisation, and one whole iteration with and without it from the same state (IP1, IP2, ISS1, ISS2, IPA). "
    "Equality of the losses over slices of 1-2 symbols per array. Exact arithmetic."
)
ASSUMPTIONS = ["parameters positive, flooring inactive", "eigendecompositions, inverses and the quadratic minimiser of IPA are uninterpreted functions in the whole-iteration harnesses"]
PD = {"clamp": False, "floor": "inactive", "eq": "generic"}
OPT = {"policy": PD, "max_paths": 40, "timeout": 10}
NOVAL = {"noval": True}  # eigenvectors are determined up to phase only
DAG = {"policy": dict(PD, dag=2, follow=True, opaque=("inv", "eigh")), "max_paths": 40, "timeout": 10}


def scalar(ctx, v):
    return np.asarray(v) if ctx.mode == "num" else ctx.const(v)


def after(ctx, m, X, Y, Z, B, V, W, ref, how, where, floor=None):
    """state of m is (Y | W, Z, B, V) rescaled by one factor per source (power) or source and bin (projection back)"""
    p = float(m.domain)
    n = Y.shape[0]
    L = lam(Z, B, V)
    if how == "power":
        psi = np.sqrt(np.mean(np.abs(Y) ** 2, axis=(-2, -1)))
        if floor is not None:
            psi = floor(psi)
        g = (1 / psi)[:, None]
        mag = 1 / psi[:, None, None] ** p
    elif W is not None:
        a = np.linalg.inv(W)[:, ref, :].T
        g, mag = a, (np.abs(a) ** p)[:, :, None]
    else:
        # Y = W X: the scale of source n in bin i is the coefficient of y_n in the reference channel, i.e. (X Y^H (Y Y^H)^-1)[ref]
        Yb, Xb = Y.transpose(1, 0, 2), X.transpose(1, 0, 2)
        YH = Yb.transpose(0, 2, 1).conj()
        a = (Xb @ YH @ np.linalg.inv(Yb @ YH))[..., ref, :].T
        g, mag = a, (np.abs(a) ** p)[:, :, None]
    if W is not None:
        ctx.eq(m.demix_filter, W * g.T[..., None], f"{where}: filter rescaled")
        ctx.check(m.demix_filter.shape == W.shape, f"{where}: shape")
    else:
        ctx.check(m.demix_filter is None, f"{where}: no filter appears")
        ctx.eq(m.output, Y * g[..., None], f"{where}: output rescaled")
    Ln = lam(m.latent if Z is not None else None, m.basis, m.activation)
    ctx.eq(Ln, L * mag, f"{where}: source model rescaled with the separated signal")
    ctx.same(m.activation, V, f"{where}: activations untouched")
    if Z is not None:
        ctx.eq(np.sum(m.latent, axis=0), np.ones(Z.shape[1]), f"{where}: latent weights sum to one")
    return Ln


def once(name, n, nb, T, K, part, sym, filt, how, ref=0, keyword=None, **kw):
    def run(ctx):
        k = dict(kw)
        if how == "pb":
            k["reference_id"] = ref
        m, X, Y, Z, B, V, W = build(ctx, name, n, nb, T, K, part, sym, filt,
                                    normalization=keyword or {"power": True, "pb": "projection_back"}[how], **k)
        if "ISS" in name:
            if filt:
                Y = m.output
            W = None
        elif W is None:
            W = np.tile(np.eye(n, dtype=complex), (nb, 1, 1))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.normalize()
        after(ctx, m, X, Y, Z, B, V, W, 0 if ref is None else ref, how, "normalize", kw.get("flooring_fn"))
        ctx.same(m.input, X, "input untouched")

    return run


def unit(name, n, nb, T, K, sym, filt, how, ref=0, **kw):
    """the normalised state is in the advertised normal form, and normalising it again changes nothing"""

    def run(ctx):
        k = dict(kw)
        if how == "pb":
            k["reference_id"] = ref
        m, X, Y, Z, B, V, W = build(ctx, name, n, nb, T, K, False, sym, filt, normalization={"power": "power", "pb": "projection_back"}[how], **k)
        m.normalize()
        Yn = m.output if m.demix_filter is None else m.separate(X, demix_filter=m.demix_filter)
        if how == "power":
            ctx.eq(np.mean(np.abs(Yn) ** 2, axis=(1, 2)), np.ones(n), "unit power per source")
        elif m.demix_filter is not None:
            ctx.eq(np.linalg.inv(m.demix_filter)[:, ref, :], np.ones((nb, n)), "unit coefficient in the reference channel")
        else:
            ctx.eq(np.sum(Yn, axis=0), X[ref], "sources sum to the reference channel")

    return run


def invariant(name, n, nb, T, K, part, sym, filt, how, ref=0, **kw):
    """compute_loss is the same number before and after"""

    def run(ctx):
        k = dict(kw)
        if how == "pb":
            k["reference_id"] = ref
        m, X, Y, Z, B, V, W = build(ctx, name, n, nb, T, K, part, sym, filt, normalization={"power": True, "pb": "projection_back"}[how], **k)
        a = m.compute_loss()
        m.normalize()
        b = m.compute_loss()
        ctx.eq(scalar(ctx, a), scalar(ctx, b), "loss unchanged by the normalisation")

    return run


def iteration(name, n, nb, T, K, part, sym, filt, how, ref=0, iters=1, **kw):
    """one whole iteration with the normalisation is one iteration without it, rescaled"""
    from .common import opaque_lqpqm

    def run(ctx):
        with opaque_lqpqm(ctx):
            k = dict(kw)
            if how == "pb":
                k["reference_id"] = ref
            a, X, _, _, _, _, _ = build(ctx, name, n, nb, T, K, part, sym, filt, normalization=False, **k)
            init = {key: getattr(a, key).copy() for key in ("basis", "activation") + (("latent",) if part else ())}
            W0 = a.demix_filter
            if W0 is None and filt:
                W0 = ctx.cplx("W2", (nb, n, n), sym=filt)
            b = make(name.split("|")[0], ctx, n_basis=K, scale_restoration=False, partitioning=part, record_loss=False,
                     normalization={"power": True, "pb": "projection_back"}[how], **{**k, **dom(name)})
            a = make(name.split("|")[0], ctx, n_basis=K, scale_restoration=False, partitioning=part, record_loss=False,
                     normalization=False, **{**k, **dom(name)})
            if filt:
                init["demix_filter"] = W0
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a(X.copy(), n_iter=1, **{k_: v.copy() for k_, v in init.items()})
                b(X.copy(), n_iter=1, **{k_: v.copy() for k_, v in init.items()})
            Y = a.output
            after(ctx, b, X, Y, a.latent if part else None, a.basis, a.activation, a.demix_filter, ref, how, "iteration")
            if b.demix_filter is not None:
                ctx.eq(b.output, b.separate(X, demix_filter=b.demix_filter), "output is the filter applied to the input")

    return run


def dom(name):
    for k, v in (("d1", 1), ("d0.5", 0.5), ("d4/3", 4 / 3)):
        if k in name:
            return {"domain": v}
    return {}


def rejects(ctx):
    X = ctx.cplx("X", (2, 1, 3), sym=1)
    for cls in ("GaussILRMA", "TILRMA", "GGDILRMA"):
        m = make(f"{cls}:IP1", ctx, partitioning=True, normalization="projection_back", scale_restoration=False)
        m(X, n_iter=0)
        try:
            m.normalize()
            ok = False
        except NotImplementedError:
            ok = True
        ctx.check(ok, f"{cls}: projection back with partitioning is refused")
        m = make(f"{cls}:IP1", ctx, normalization="unknown", scale_restoration=False)
        m(X, n_iter=0)
        try:
            m.normalize()
            ok = False
        except NotImplementedError:
            ok = True
        ctx.check(ok, f"{cls}: unknown normalisation is refused")


def scaling(x):
    """a flooring function that changes every value"""
    return 0.5 * x + 1


def silent(x):
    """one that changes the power of the last source only"""
    shape = np.shape(x)
    if not shape:
        return x
    on = np.zeros(shape)
    on[-1] = 2
    return x + on


ALG = {"gauss": "GaussILRMA", "t": "TILRMA", "ggd": "GGDILRMA"}


def harnesses(tier):
    h = []
    one, two = (1, 1, 1, 1), (2, 2, 2, 2)
    for f, c in ALG.items():
        ip, iss = c + ":IP1", c + ":ISS1"
        for part in (False, True):
            tag = f + ("-part" if part else "")
            for d in ("", "|d1", "|d0.5"):
                dt = d.replace("|", "-")
                h += [
                    (f"power-{tag}{dt}", once(ip + d, 2, 2, 2, 2, part, two, 2, "power"), DAG),
                    (f"power-{tag}{dt}-out", once(iss + d, 2, 2, 2, 2, part, two, 2, "power"), DAG),
                ]
            h += [
                (f"power-{tag}-full", once(ip, 3, 2, 3, 2, part, (None,) * 4, 2, "power", keyword="power"), DAG),
                (f"loss-power-{tag}", invariant(ip, 2, 1, 2, 1, part, one, 1, "power"), OPT),
                (f"loss-power-{tag}-d1", invariant(ip + "|d1", 2, 1, 2, 1, part, one, 1, "power"), OPT),
                # a flooring function that acts: source model and signal are still rescaled by one and the same factor
                (f"power-{tag}-floor", once(ip, 2, 2, 2, 2, part, two, 2, "power", flooring_fn=scaling), DAG),
                (f"power-{tag}-floor-d1", once(ip + "|d1", 2, 2, 2, 2, part, two, 2, "power", flooring_fn=scaling), DAG),
                (f"power-{tag}-floor-out", once(iss, 2, 2, 2, 2, part, two, 2, "power", flooring_fn=scaling), DAG),
                (f"power-{tag}-floor-one", once(ip, 2, 2, 2, 2, part, two, 2, "power", flooring_fn=silent), DAG),
                (f"power-{tag}-nofloor", once(ip, 2, 2, 2, 2, part, two, 2, "power", flooring_fn=None), DAG),
                (f"power-{tag}-n4", once(ip, 4, 1, 3, 3, part, (None,) * 4, 2, "power"), DAG),
                (f"loss-power-{tag}-floor", invariant(ip, 2, 1, 2, 1, part, one, 1, "power", flooring_fn=scaling), OPT),
                (f"loss-power-{tag}-out", invariant(iss, 2, 1, 2, 1, part, one, 1, "power"), OPT),
            ]
            algs = ["IP1", "IP2", "ISS1", "ISS2"] + (["IPA"] if f == "gauss" else [])
            for alg in algs:
                h.append((f"iter-power-{tag}-{alg}", iteration(f"{c}:{alg}", 2, 1, 2, 1, part, one, 0 if alg in ("ISS1", "ISS2", "IPA") else 1, "power"), {**DAG, **(NOVAL if alg in ("IP2", "ISS2", "IPA") else {})}))
                if not part:
                    h.append((f"iter-pb-{tag}-{alg}", iteration(f"{c}:{alg}", 2, 1, 2, 1, part, one, 0 if alg in ("ISS1", "ISS2", "IPA") else 1, "pb", ref=1), {**DAG, **(NOVAL if alg in ("IP2", "ISS2", "IPA") else {})}))
            if f != "ggd":
                h.append((f"iter-power-{tag}-ME", iteration(f"{c}:IP1,ME", 2, 1, 2, 1, part, one, 1, "power"), DAG))
        for ref in (0, 1, None):
            for d in ("", "|d1"):
                dt = d.replace("|", "-") + f"-ref{ref}"
                h += [
                    (f"pb-{f}{dt}", once(ip + d, 2, 2, 2, 2, False, two, 2, "pb", ref), DAG),
                    (f"pb-{f}{dt}-out", once(iss + d, 2, 2, 2, 2, False, two, 2, "pb", ref), DAG),
                ]
        h += [
            (f"pb-{f}-n3", once(ip, 3, 2, 3, 1, False, (None,) * 4, 2, "pb", 2), DAG),
            (f"loss-pb-{f}", invariant(ip, 2, 1, 2, 1, False, one, 1, "pb", 1), OPT),
            (f"loss-pb-{f}-d1", invariant(ip + "|d1", 2, 1, 2, 1, False, one, 1, "pb", 1), OPT),
            (f"unit-power-{f}", unit(ip, 2, 2, 2, 1, one, 2, "power"), OPT),
            (f"unit-power-{f}-out", unit(iss, 2, 2, 2, 1, one, 1, "power"), OPT),
            (f"unit-pb-{f}", unit(ip, 2, 2, 2, 1, one, 4, "pb", 1), OPT),
            (f"unit-pb-{f}-out", unit(iss, 2, 2, 2, 1, one, 2, "pb", 1), OPT),
        ]
        if f != "ggd":
            h.append((f"loss-pb-{f}-out", invariant(iss, 2, 1, 2, 1, False, one, 1, "pb", 1), OPT))
    h.append(("rejects", rejects, {}))
    return h
