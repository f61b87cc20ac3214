"""C19: ILRMA source-model updates and likelihood."""

from fractions import Fraction

import numpy as np

from .c26 import det
from .models import make

CL = "ssspy.bss.ilrma.{GaussILRMA,TILRMA,GGDILRMA}."
FUNCTIONS = [
    CL + "{update_source_model,update_source_model_mm,update_latent_mm,update_basis_mm,update_activation_mm,compute_loss}",
    "ssspy.bss.ilrma.{GaussILRMA,TILRMA}.{update_source_model_me,update_latent_me,update_basis_me,update_activation_me}",
    "ssspy.bss.ilrma.ILRMABase.{_reset,_init_nmf,separate,reconstruct_nmf,compute_logdet}",
]
BOUNDS = (
    "2-3 sources, 1-3 bins, 2-3 frames, 1-3 bases; separated spectrogram, bases, activations and latent weights with every entry symbolic (also slices); "
    "domain 1 and 2 (1/2 and 4/3 on slices), nu = 3, 1/2, beta = 1, 3/2, 1/2. Losses over slices of 1-2 symbols per array. Exact arithmetic."
)
ASSUMPTIONS = ["parameters positive, flooring inactive", "log x <= x - 1 (monotonicity is decided for the tangent majoriser of the logarithms)"]
PD = {"clamp": False, "floor": "inactive", "eq": "generic"}
OPT = {"policy": PD, "max_paths": 40, "timeout": 10}
DAG = {"policy": dict(PD, dag=2, follow=True, opaque=("inv",)), "max_paths": 40, "timeout": 10}


def build(ctx, name, n, nb, T, K, part, sym, filt, **kw):
    """-> separator holding arbitrary parameters, and (Y, Z, T, V)"""
    for k, v in (("d1", 1), ("d0.5", 0.5), ("d4/3", 4 / 3)):
        if k in name:
            kw["domain"] = v
    m = make(name.split("|")[0], ctx, n_basis=K, scale_restoration=False, partitioning=part, **kw)
    X = ctx.cplx("X", (n, nb, T), sym=sym[0])
    init = {}
    Y = X
    if filt:
        init["demix_filter"] = W = ctx.cplx("W", (nb, n, n), sym=filt)
        Y = (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)
    Z = None
    if part:
        init["latent"] = Z = ctx.pos("Z", (n, K), sym=sym[3], lo=0.25, hi=1)
        init["basis"], init["activation"] = ctx.pos("T", (nb, K), sym=sym[1]), ctx.pos("V", (K, T), sym=sym[2])
    else:
        init["basis"], init["activation"] = ctx.pos("T", (n, nb, K), sym=sym[1]), ctx.pos("V", (n, K, T), sym=sym[2])
    keep = {k: v.copy() for k, v in init.items()}
    m(X, n_iter=0, **init)
    for k in keep:
        ctx.same(init[k], keep[k], f"{k} of the caller untouched")
    return m, X, Y, Z, init["basis"].copy(), init["activation"].copy(), init.get("demix_filter")


def lam(Z, T, V):
    if Z is None:
        return T @ V
    return np.sum(Z[:, None, :, None] * (T[:, :, None] * V[None, :, :])[None], axis=2)


def parameters(m):
    """(algorithm family, numerator weight a with -dL/dlambda = (2/p)(a - 1/lambda), exponent of the MM step)"""
    p = Fraction(m.domain).limit_denominator(10)
    if hasattr(m, "dof"):
        nu = Fraction(m.dof)
        c = float(nu / (nu + 2))

        def a(Y, L):
            Y2 = np.abs(Y) ** 2
            return Y2 / ((c * L ** float(2 / p) + (1 - c) * Y2) * L)

        return a, p / (p + 2), p
    if hasattr(m, "beta"):
        b = Fraction(m.beta)

        def a(Y, L):
            return float(b / 2) * np.abs(Y) ** float(b) / L ** float((b + p) / p)

        return a, p / (b + p), p

    def a(Y, L):
        return np.abs(Y) ** 2 / L ** float((2 + p) / p)

    return a, p / (p + 2), p



def directional(w, which, Z, T, V):
    """sum over time-frequency (and sources) of w[n,i,j] * d lambda / d theta, same shape as theta"""
    if which == "Z":
        TV = T[:, :, None] * V[None, :, :]
        return np.sum(w[:, :, None, :] * TV[None], axis=(1, 3))
    if Z is None:
        if which == "T":
            return np.sum(w[:, :, None, :] * V[:, None, :, :], axis=3)
        return np.sum(w[:, :, None, :] * T[:, :, :, None], axis=1)
    if which == "T":
        ZV = Z[:, :, None] * V[None, :, :]
        return np.sum(w[:, :, None, :] * ZV[:, None, :, :], axis=(0, 3))
    ZT = Z[:, None, :] * T[None, :, :]
    return np.sum(w[:, :, None, :] * ZT[:, :, :, None], axis=(0, 1))


def stepcheck(ctx, new, old, which, Y, Z, T, V, m, me, norm=False):
    a, e, _ = parameters(m)
    L = lam(Z, T, V)
    num, den = directional(a(Y, L), which, Z, T, V), directional(1 / L, which, Z, T, V)
    step = old * (num / den if me else (num / den) ** float(e))
    if norm:
        ctx.eq(new, step / np.sum(step, axis=0), "latent weights: renormalised step to the minimiser of the auxiliary function")
        ctx.eq(np.sum(new, axis=0), np.ones(new.shape[1]), "latent weights sum to one")
    else:
        ctx.eq(new, step, f"{which}: step to the minimiser (ME: equaliser) of the auxiliary function")


def sweep(name, n, nb, T, K, part, sym, filt=0, only=None, **kw):
    me = ",ME" in name

    def run(ctx):
        m, X, Y, Z, B, V, W = build(ctx, name, n, nb, T, K, part, sym, filt, **kw)
        stages = (["latent"] if part else []) + ["basis", "activation"]
        suffix = "_me" if me else "_mm"
        for st in stages:
            if only and st not in only:
                continue
            Z0, B0, V0 = None if Z is None else m.latent.copy(), m.basis.copy(), m.activation.copy()
            getattr(m, f"update_{st}{suffix}")()
            if st == "latent":
                stepcheck(ctx, m.latent, Z0, "Z", Y, Z0, B0, V0, m, me, norm=True)
            else:
                if Z is not None:
                    ctx.same(m.latent, Z0, "latent untouched")
            if st == "basis":
                stepcheck(ctx, m.basis, B0, "T", Y, Z0, B0, V0, m, me)
            else:
                ctx.same(m.basis, B0, "basis untouched")
            if st == "activation":
                stepcheck(ctx, m.activation, V0, "V", Y, Z0, B0, V0, m, me)
            else:
                ctx.same(m.activation, V0, "activation untouched")
            if m.demix_filter is not None:
                ctx.same(m.demix_filter, W if filt else np.tile(np.eye(n, dtype=complex), (nb, 1, 1)), "filter untouched")
            else:
                ctx.same(m.output, Y, "output untouched")

    return run


def order(name, n, nb, T, K, part, sym, **kw):
    """update_source_model runs the stages on each other's results, for the configured algorithm"""
    me = ",ME" in name

    def run(ctx):
        m, _, Y, Z0, B0, V0, _ = build(ctx, name, n, nb, T, K, part, sym, 0, **kw)
        m.update_source_model()
        a = m
        if part:
            stepcheck(ctx, a.latent, Z0, "Z", Y, Z0, B0, V0, m, me, norm=True)
            Z0 = a.latent
        stepcheck(ctx, a.basis, B0, "T", Y, Z0, B0, V0, m, me)
        stepcheck(ctx, a.activation, V0, "V", Y, Z0, a.basis, V0, m, me)

    return run


def nll(m, ctx, Y, L, W):
    """negative log-likelihood up to constants, mean over frames"""
    p = float(m.domain)
    Y2 = np.abs(Y) ** 2
    if hasattr(m, "dof"):
        c = (1 + m.dof / 2) * np.log(1 + 2 / m.dof * (Y2 / L ** (2 / p)))
    elif hasattr(m, "beta"):
        c = np.abs(Y) ** m.beta / L ** (m.beta / p)
    else:
        c = Y2 / L ** (2 / p)
    c = c + 2 / p * np.log(L)
    J = Y.shape[-1]
    d = det(W)
    return np.sum(c) / J - np.sum(np.log(np.real(d * d.conj())))


def loss(name, n, nb, T, K, part, sym, filt, **kw):
    def run(ctx):
        m, X, Y, Z, B, V, W = build(ctx, name, n, nb, T, K, part, sym, filt, **kw)
        before = {k: getattr(m, k).copy() for k in ("basis", "activation")}
        v = m.compute_loss()
        if filt == 0:
            W = np.tile(np.eye(n, dtype=complex), (nb, 1, 1))
        c = (lambda v: np.asarray(v)) if ctx.mode == "num" else ctx.const
        ctx.eq(c(v), nll(m, ctx, Y, lam(Z, B, V), W), "loss is the negative log-likelihood")
        for k in before:
            ctx.same(getattr(m, k), before[k], f"{k} untouched by the loss")

    return run


def decrease(name, n, nb, T, K, part, sym, stage, **kw):
    """one stage never increases the loss (separated signals fixed): the step minimises (equalises) the majoriser, which by the
    'lemma' and 'jensen' harnesses and log x <= x - 1 bounds the change of the loss; in numeric runs the loss itself is compared"""
    me = ",ME" in name

    def run(ctx):
        m, X, Y, Z, B, V, W = build(ctx, name, n, nb, T, K, part, sym, 0, **kw)
        before = m.compute_loss() if ctx.mode == "num" else None
        getattr(m, f"update_{stage}_{'me' if me else 'mm'}")()
        which, old = ("T", B) if stage == "basis" else ("V", V)
        stepcheck(ctx, getattr(m, stage), old, which, Y, Z, B, V, m, me)
        if ctx.mode == "num":
            ctx.ge(np.asarray(before - m.compute_loss()) + 1e-9, 0, "loss never increases")

    return run


def lemma(q, me):
    """num (s^-q - 1) / q + den (s - 1) <= 0 for the step s = (num / den)^(1 / (q + 1)) (MM) resp. num / den (ME, q = 1)"""

    def run(ctx):
        s, den = ctx.pos("s", ())[()], ctx.pos("den", ())[()]
        num = den * s if me else den * s ** (q + 1)
        ctx.ge(ctx.const(-(num * (s ** (-q) - 1) / q + den * (s - 1))), 0, "majoriser never increases")

    return run


def jensen(q):
    """the lemma linking both: (sum_k c_k s_k)^-q <= sum_k c_k s_k^-q for convex weights c"""

    def run(ctx):
        w, s = ctx.pos("w", (2,)), ctx.pos("s", (2,))
        c = w[0] / (w[0] + w[1])
        mean = c * s[0] + (1 - c) * s[1]
        ctx.ge(ctx.const(c * s[0] ** (-q) + (1 - c) * s[1] ** (-q) - mean ** (-q)), 0, "Jensen")

    return run


def rejects(ctx):
    """ME needs domain 2; unknown algorithms are rejected"""
    for cls in ("GaussILRMA:IP1", "TILRMA:IP1"):
        for kw in (dict(source_algorithm="ME", domain=1), dict(source_algorithm="EM"), dict(domain=3), dict(domain=0)):
            try:
                make(cls, ctx, **kw)
                ok = False
            except AssertionError:
                ok = True
            ctx.check(ok, f"{cls} rejects {kw}")


ALG = {"gauss": "GaussILRMA:IP1", "t": "TILRMA:IP1", "ggd": "GGDILRMA:IP1"}
ISS = {"gauss": "GaussILRMA:ISS1", "t": "TILRMA:ISS1", "ggd": "GGDILRMA:ISS1"}


def harnesses(tier):
    h = []
    for f, base in ALG.items():
        for part in (False, True):
            tag = f + ("-part" if part else "")
            s = (1, 2, 2, 1)
            h += [
                (f"mm-{tag}", sweep(base, 2, 2, 2, 2, part, s), DAG),
                (f"mm-{tag}-filter", sweep(base, 2, 1, 2, 2, part, (1, 1, 1, 1), filt=2), DAG),
                (f"mm-{tag}-out", sweep(ISS[f], 2, 1, 2, 2, part, (2, 1, 1, 1), filt=1), DAG),
                (f"mm-{tag}-d1", sweep(base + "|d1", 2, 2, 2, 2, part, s), DAG),
                (f"mm-{tag}-dhalf", sweep(base + "|d0.5", 2, 1, 2, 2, part, (1, 1, 1, 1)), DAG),
                (f"mm-{tag}-full", sweep(base, 2, 2, 3, 2, part, (None,) * 4), DAG),
                (f"mm-{tag}-n3", sweep(base + "|d1", 3, 2, 2, 3, part, (2, None, None, None)), DAG),
                (f"mm-{tag}-k1", sweep(ISS[f], 3, 3, 2, 1, part, (2, None, None, None)), DAG),
                (f"order-{tag}", order(base, 2, 1, 2, 2, part, (1, 1, 1, 1)), DAG),
                (f"loss-{tag}", loss(base, 2, 2, 2, 2, part, (1, 1, 1, 1), 2), OPT),
                (f"loss-{tag}-d1", loss(base + "|d1", 2, 1, 2, 2, part, (1, 1, 1, 1), 2), OPT),
                (f"loss-{tag}-out", loss(ISS[f], 2, 1, 2, 2, part, (1, 1, 1, 1), 1), OPT),
            ]
            if f != "ggd":
                me = base + ",ME"
                h += [
                    (f"me-{tag}", sweep(me, 2, 2, 2, 2, part, (2, 2, 2, 2)), DAG),
                    (f"me-{tag}-out", sweep(ISS[f] + ",ME", 2, 1, 2, 2, part, (2, 1, 1, 1), filt=1), DAG),
                    (f"me-{tag}-full", sweep(me, 2, 2, 3, 3, part, (None,) * 4), DAG),
                    (f"me-order-{tag}", order(me, 2, 1, 2, 2, part, (1, 1, 1, 1)), DAG),
                ]
            for st in ("basis", "activation"):
                nm = [(base, ""), (base + "|d1", "-d1")] + ([(base + ",ME", "-me")] if f != "ggd" else [])
                for b, t in nm:
                    h.append((f"decrease-{st}-{tag}{t}", decrease(b, 2, 1, 2, 2, part, (1, 1, 0, 0) if st == "basis" else (1, 0, 1, 0), st), DAG))
    h += [
        ("mm-t-nu", sweep(ALG["t"], 2, 1, 2, 2, False, (1, 1, 1, 1), dof=0.5), DAG),
        ("mm-ggd-1.5", sweep(ALG["ggd"], 2, 1, 2, 2, False, (1, 1, 1, 1), beta=1.5), DAG),
        ("mm-ggd-half", sweep(ALG["ggd"], 2, 1, 2, 2, False, (1, 1, 1, 1), beta=0.5), DAG),
        ("loss-t-nu", loss(ALG["t"], 2, 1, 2, 2, False, (1, 1, 1, 1), 1, dof=0.5), OPT),
        ("loss-ggd-half", loss(ALG["ggd"], 2, 1, 2, 2, False, (1, 1, 1, 1), 1, beta=0.5), OPT),
        ("jensen", jensen(1), OPT), ("jensen-2", jensen(2), OPT),
        ("lemma-1", lemma(1, False), OPT), ("lemma-2", lemma(2, False), OPT), ("lemma-4", lemma(4, False), OPT), ("lemma-me", lemma(1, True), OPT),
        ("rejects", rejects, {}),
    ]
    return h
