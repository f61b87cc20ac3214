"""C28: auxiliary-function separators weight the spatial update by the tangent majoriser of their own loss."""

import numpy as np

from ssspy.bss._update_spatial_model import update_by_ip1, update_by_ip2, update_by_ip2_one_pair, update_by_ipa, update_by_iss1, update_by_iss2
from ssspy.utils.select_pair import combination_pair_selector, sequential_pair_selector

from .common import opaque_lqpqm
from .models import make

FUNCTIONS = [
    "ssspy.bss.iva.AuxIVA.{update_once,update_once_ip1,update_once_ip2,update_once_iss1,update_once_iss2,update_once_ipa}",
    "ssspy.bss.iva.{AuxLaplaceIVA,AuxGaussIVA}.{update_once,update_once_ip2,update_source_model}, contrast functions",
    "ssspy.bss.fdica.{AuxFDICA,AuxLaplaceFDICA}.{update_once,update_once_ip1,update_once_ip2}",
    "ssspy.bss.ilrma.{GaussILRMA,TILRMA,GGDILRMA}.{update_once,update_spatial_model,update_spatial_model_ip1,_ip2,_iss1,_iss2,_ipa}",
]
BOUNDS = (
    "2-4 sources, 1-3 bins, 2-4 frames, 1-2 bases, every entry of mixture, filter and parameters symbolic; contrast derivatives uninterpreted; ILRMA domains 0.5, 1, 2, "
    "with and without partitioning; 1-2 iterations; pair selectors sequential (default) and combination. Exact arithmetic."
)
ASSUMPTIONS = ["the row / pair / steering updates themselves as decided by C02-C06, called with the weights required by the loss",
               "flooring inactive except where varied", "matrix inverses and eigendecompositions uninterpreted (equal operands, equal results)"]
DAG = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic", "dag": 2, "follow": True, "opaque": ("inv", "eigh", "cholesky", "svd")},
       "noval": True, "max_paths": 20}
OPT = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic"}}


def nmf(m, p):
    T, V = m.basis, m.activation
    if m.partitioning:
        Z = m.latent
        L = np.sum(Z[:, None, :, None] * (T[:, :, None] * V[None, :, :])[None], axis=2)
    else:
        L = T @ V
    return L


def weights(m, ctx, fam, Y, k=None):
    """d loss / d |y|^2 (per frame mean), broadcastable to (n, n_bins, n_frames); k: sources Y consists of"""
    fl = m.flooring_fn
    if fam == "AuxIVA":
        phi = ctx.fn("phi")
        r = np.linalg.norm(Y, axis=1)
        return (phi(r) / fl(2 * r))[:, None, :]
    if fam == "AuxLaplaceIVA":
        r = np.linalg.norm(Y, axis=1)
        return (2 / fl(2 * r))[:, None, :]
    if fam == "AuxGaussIVA":
        r = np.linalg.norm(Y, axis=1)
        v = m.spec_variance if k is None else m.spec_variance[list(k)]
        return (2 * r / v / fl(2 * r))[:, None, :]
    if fam == "AuxFDICA":
        a = np.abs(Y)
        return ctx.fn("phi")(a) / fl(2 * a)
    if fam == "AuxLaplaceFDICA":
        a = np.abs(Y)
        return 2 / fl(2 * a)
    p = m.domain
    L = nmf(m, p)
    Y2 = np.abs(Y) ** 2
    if fam == "GaussILRMA":
        return 1 / L ** (2 / p)
    if fam == "TILRMA":
        c = m.dof / (m.dof + 2)
        return 1 / (c * L ** (2 / p) + (1 - c) * Y2)
    b = m.beta
    return 1 / (2 / b * fl(np.abs(Y) ** (2 - b)) * L ** (b / p))


def cov(X, w):
    """(n_bins, n, c, c) weighted covariances"""
    XX = (X[:, None] * X[None].conj()).transpose(2, 0, 1, 3)
    if w.shape[1] == 1:
        return np.mean(w[:, 0][:, None, None, :] * XX[:, None], axis=-1)
    return np.mean(w.transpose(1, 0, 2)[:, :, None, None, :] * XX[:, None], axis=-1)


def apply(X, W):
    return (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)


def expected(m, ctx, fam, alg, X, W, Y, sel, kw):
    """-> (filter, output) after one spatial update from the current parameters of m"""
    fl = m.flooring_fn
    n = len(X)
    if alg in ("IP", "IP1"):
        return update_by_ip1(W, cov(X, weights(m, ctx, fam, Y)), flooring_fn=fl), None
    if alg == "IP2":
        if "ILRMA" in fam:
            return update_by_ip2(W, cov(X, weights(m, ctx, fam, Y)), flooring_fn=fl, pair_selector=sel), None
        W = W.copy()
        for i, j in sel(n):
            k = (i, j)
            U = cov(X, weights(m, ctx, fam, apply(X, W[:, k, :]), k))
            W[:, k, :] = update_by_ip2_one_pair(W, U, pair=k, flooring_fn=fl)
        return W, None
    w = weights(m, ctx, fam, Y)
    if alg in ("ISS", "ISS1"):
        return None, update_by_iss1(Y, w, flooring_fn=fl)
    if alg == "ISS2":
        return None, update_by_iss2(Y, w, flooring_fn=fl, pair_selector=sel)
    d = {"normalization": True, "max_iter": 1}
    for k, v in kw.items():
        d[{"lqpqm_normalization": "normalization", "newton_iter": "max_iter"}[k]] = v
    return None, update_by_ipa(Y, w, flooring_fn=fl, **d)


def upto_phase(rows):
    """rows that are only determined up to a phase (eigenvectors)"""
    return rows[..., :, None] * rows[..., None, :].conj()


def step(name, n, nb, T, K=2, iters=1, selector=None, floor=False, sym=None, **kw):
    fam, _, rest = name.partition(":")
    alg = rest.split(",")[0]
    parts = rest.split(",")[1:]

    def body(ctx):
        X = ctx.cplx("X", (n, nb, T), sym=sym)
        W = ctx.cplx("W", (nb, n, n), sym=sym)
        over = dict(kw)
        init = {"demix_filter": W}
        if "ILRMA" in fam:
            over.update(n_basis=K, normalization=False, partitioning="part" in parts)
            if "part" in parts:
                init["latent"] = ctx.pos("Z", (n, K), sym=sym, lo=0.25, hi=1)
                init["basis"], init["activation"] = ctx.pos("T", (nb, K), sym=sym), ctx.pos("V", (K, T), sym=sym)
            else:
                init["basis"], init["activation"] = ctx.pos("T", (n, nb, K), sym=sym), ctx.pos("V", (n, K, T), sym=sym)
        if "FDICA" in fam:
            over["permutation_alignment"] = False
        if selector is not None:
            over["pair_selector"] = selector
        if floor:
            over["flooring_fn"] = lambda x: x + 0.5
        opt = {k: over[k] for k in ("lqpqm_normalization", "newton_iter") if k in over}
        m = make(name.replace(",part", ""), ctx, scale_restoration=False, record_loss=False, **over)
        seen = []

        def cb(m):
            s = {k: getattr(m, k).copy() for k in ("basis", "activation", "latent") if getattr(m, k, None) is not None}
            seen.append((None if m.demix_filter is None else m.demix_filter.copy(), m.output.copy(), s))

        m.callbacks = [cb]
        out = m(X, n_iter=iters, **init)
        ctx.check(len(seen) == iters + 1, "one state per iteration")
        sel = selector or sequential_pair_selector
        for it in range(iters):
            W0, Y0, _ = seen[it]
            W1, Y1, par = seen[it + 1]
            if W0 is not None:
                Y0 = apply(X, W0)
            elif it == 0:
                ctx.eq(Y0, apply(X, W), "initial separated signal uses the given filter")
            for k, v in par.items():
                setattr(m, k, v)
            if fam == "AuxGaussIVA":
                m.spec_variance = np.mean(np.abs(Y0) ** 2, axis=1)
            Ws, Ys = expected(m, ctx, fam, alg, X, W0, Y0, sel, opt)
            free = upto_phase if alg in ("IP2", "ISS2") else lambda rows: rows
            if Ws is not None:
                ctx.eq(free(W1), free(Ws), "filter: spatial update with the weights of the loss")
            else:
                ctx.check(W1 is None, "separated signal is updated instead of the filter")
                ctx.eq(free(Y1), free(Ys), "output: spatial update with the weights of the loss")
        ctx.eq(out, apply(X, seen[-1][0]) if seen[-1][0] is not None else seen[-1][1], "returned output")

    def run(ctx):
        if alg == "IPA":
            with opaque_lqpqm(ctx):
                body(ctx)
        else:
            body(ctx)

    return run


def majorise(kind):
    """l(y') <= l(y) + phi(y) (|y'|^2 - |y|^2), equality at y' = y: the weight is that of a tangent majoriser of the loss"""

    def run(ctx):
        a, b = ctx.pos("a", ())[()], ctx.pos("b", ())[()]  # |y|, |y'|
        R = ctx.pos("R", ())[()]
        if kind == "laplace":  # 2 |y|
            gap = 2 * a + (b**2 - a**2) / a - 2 * b
        elif kind == "t":  # (1 + nu / 2) log(1 + 2 / nu |y|^2 / R), log x <= x - 1
            nu = ctx.pos("nu", ())[()]
            c = nu / (nu + 2)
            w = 1 / (c * R + (1 - c) * a**2)
            k = 2 / nu
            gap = w * (b**2 - a**2) - (1 + nu / 2) * ((1 + k * b**2 / R) / (1 + k * a**2 / R) - 1)
        else:  # |y|^beta / R^(beta / p), beta = 1
            gap = a / R + (b**2 - a**2) / (2 * a * R) - b / R
        ctx.ge(ctx.const(gap), 0, f"{kind}: tangent majoriser")

    return run


def harnesses(tier):
    h = []
    for alg in ("IP1", "IP2", "ISS1", "ISS2", "IPA"):
        T, more = (4, 2) if alg in ("IP2", "ISS2") else (2, 0)
        for fam in ("AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA"):
            h.append((f"{fam}-{alg}", step(f"{fam}:{alg}", 2, 2, T), DAG))
            h.append((f"{fam}-{alg}-it2", step(f"{fam}:{alg}", 2, 2 if "Gauss" in fam else 1, (4 if "Gauss" in fam else 2) + more, iters=2, sym=2), DAG))
            h.append((f"{fam}-{alg}-n3", step(f"{fam}:{alg}", 3, 1, 3 + more, sym=2), DAG))
            h.append((f"{fam}-{alg}-floor", step(f"{fam}:{alg}", 2, 1, T, floor=True), DAG))
            h.append((f"{fam}-{alg}-n4", step(f"{fam}:{alg}", 4, 2, 4 + more, sym=1), DAG))
            h.append((f"{fam}-{alg}-nb3", step(f"{fam}:{alg}", 2, 3, 3 + more, sym=1), DAG))
        if alg in ("IP1", "IP2"):
            for fam in ("AuxFDICA", "AuxLaplaceFDICA"):
                h.append((f"{fam}-{alg}", step(f"{fam}:{alg}", 2, 2, T), DAG))
                h.append((f"{fam}-{alg}-it2", step(f"{fam}:{alg}", 2, 2 if "Gauss" in fam else 1, (4 if "Gauss" in fam else 2) + more, iters=2, sym=2), DAG))
                h.append((f"{fam}-{alg}-n3", step(f"{fam}:{alg}", 3, 1, 3 + more, sym=2), DAG))
                h.append((f"{fam}-{alg}-floor", step(f"{fam}:{alg}", 2, 1, T, floor=True), DAG))
                h.append((f"{fam}-{alg}-n4", step(f"{fam}:{alg}", 4, 2, 4 + more, sym=1), DAG))
                h.append((f"{fam}-{alg}-nb3", step(f"{fam}:{alg}", 2, 3, 3 + more, sym=1), DAG))
        for fam in ("GaussILRMA", "TILRMA", "GGDILRMA"):
            if alg == "IPA" and fam != "GaussILRMA":
                continue
            for part in ("", ",part"):
                n = f"{fam}:{alg}{part}"
                h.append((n.replace(":", "-").replace(",", "-"), step(n, 2, 2, T), DAG))
                h.append((n.replace(":", "-").replace(",", "-") + "-d1", step(n, 2, 1, T, domain=1, sym=2), DAG))
                h.append((n.replace(":", "-").replace(",", "-") + "-n3", step(n, 3, 1, 3 + more, K=1, sym=2), DAG))
                t = n.replace(":", "-").replace(",", "-")
                h.append((t + "-dhalf", step(n, 2, 1, T, domain=0.5, sym=1), DAG))
                h.append((t + "-n4", step(n, 4, 1, 4 + more, K=1, sym=1), DAG))
                if part:
                    h.append((t + "-floor", step(n, 2, 1, T, floor=True, sym=1), DAG))
                    h.append((t + "-it2", step(n, 2, 1, T, iters=2, sym=1), DAG))
                    h.append((t + "-d1-nb3", step(n, 2, 3, 3 + more, K=2, domain=1, sym=1), DAG))
                if not part:
                    h.append((n.replace(":", "-") + "-floor", step(n, 2, 1, T, floor=True), DAG))
                    h.append((n.replace(":", "-") + "-it2", step(n, 2, 1, T, iters=2, sym=1), DAG))
        if alg in ("IP2", "ISS2"):
            for fam in ("AuxIVA", "AuxGaussIVA", "GaussILRMA", "TILRMA", "GGDILRMA") + (("AuxFDICA",) if alg == "IP2" else ()):
                h.append((f"{fam}-{alg}-comb", step(f"{fam}:{alg}", 3, 1, 5, K=1, selector=combination_pair_selector, sym=1), DAG))
                h.append((f"{fam}-{alg}-comb4", step(f"{fam}:{alg}", 4, 1, 6, K=1, selector=combination_pair_selector, sym=1), DAG))
    for fam in ("AuxIVA", "GaussILRMA"):
        h.append((f"{fam}-IPA-opt", step(f"{fam}:IPA", 2, 1, 2, lqpqm_normalization=False, newton_iter=3), DAG))
    for k in ("laplace", "t", "ggd"):
        h.append((f"majorise-{k}", majorise(k), OPT))
    return h
