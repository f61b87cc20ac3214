"""C21: complex angular central Gaussian mixture model."""

import numpy as np

from .common import hpd
from .models import make

FUNCTIONS = ["ssspy.bss.cacgmm.CACGMM.{__call__,update_once,update_posterior,update_parameters,compute_loss,separate}",
             "ssspy.bss.cacgmm.CACGMMBase.{_reset,_init_parameters,normalize_covariance,compute_logdet}"]
BOUNDS = (
    "2 channels, 2-3 sources, 1-2 bins, 1-3 frames; every observation entry, mixing weight and covariance entry on slices of 2-8 symbols; 1-2 iterations; "
    "normalisation on and off, every reference channel. Exact arithmetic."
)
ASSUMPTIONS = ["covariances positive definite, flooring inactive", "np.linalg.eigh by its defining equations", "exp(log x) = x, exp(a+b) = exp a exp b"]
OPT = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic", "opaque": ("eigh",)}, "max_paths": 40, "timeout": 8}
EIG = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic"}, "max_paths": 40, "timeout": 8}
RANK = {"policy": {"clamp": False, "eq": "fork"}, "max_paths": 200, "timeout": 8}
DAG = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic", "dag": 2, "follow": True, "opaque": ("eigh", "inv")}, "max_paths": 20, "timeout": 8}


def prepare(ctx, ns, nb, T, symx, symb, norm=True, ref=0, X=None, ab=None):
    m = make("CACGMM:", ctx, n_sources=ns, normalization=norm, reference_id=ref)
    X = ctx.cplx("X", (2, nb, T), sym=symx) if X is None else X
    m.input = X
    m._reset(flooring_fn=m.flooring_fn)
    a, B = ab or (None, None)
    if ab is None:
        a = ctx.pos("a", (ns, nb), sym=2, lo=0.25, hi=1)
        B = hpd(ctx, "B", 2, True, symb, (ns, nb))
    m.mixing, m.covariance = a.copy(), B.copy()
    return m, X, a, B


def model(ctx, X, a, B):
    """(n_sources, n_bins, n_frames) unnormalised posterior alpha det(B)^-1 (z^H B^-1 z)^-2 and the quadratic form"""
    nrm = np.sqrt(np.sum(np.real(X * X.conj()), axis=0))
    z = (X / nrm).transpose(1, 2, 0)
    det = np.real(B[..., 0, 0] * B[..., 1, 1] - B[..., 0, 1] * B[..., 1, 0])
    adj = np.stack([np.stack([B[..., 1, 1], -B[..., 0, 1]], -1), np.stack([-B[..., 1, 0], B[..., 0, 0]], -1)], -2)
    q = np.stack([np.real(np.sum(z.conj() * (z @ np.swapaxes(adj[i], -1, -2)), axis=-1)) / det[i][:, None] for i in range(len(B))], axis=0)
    return (a / det)[:, :, None] / q**2, q, z


def posterior(ns, nb, T, symx, symb):
    def run(ctx):
        m, X, a, B = prepare(ctx, ns, nb, T, symx, symb)
        m.update_posterior(flooring_fn=m.flooring_fn)
        p, _, _ = model(ctx, X, a, B)
        g = m.posterior
        ctx.check(g.shape == (ns, nb, T), "shape")
        ctx.eq(g * np.sum(p, axis=0), p, "responsibility is the exact posterior")
        ctx.eq(np.sum(g, axis=0), np.ones((nb, T)), "sum to one over sources")
        ctx.gt(p, 0, "unnormalised posterior positive")
        ctx.same(m.mixing, a, "E-step leaves the mixing weights")
        ctx.same(m.covariance, B, "E-step leaves the covariances")
        ctx.eq(m.separate(X), g * X[m.reference_id], "separation uses the exact posterior")

    return run


def mstep(ns, nb, T, symx, symb, symg):
    def run(ctx):
        m, X, a, B = prepare(ctx, ns, nb, T, symx, symb)
        g = ctx.pos("g", (ns, nb, T), sym=symg, lo=0.1, hi=0.9)
        m.posterior = g.copy()
        m.update_parameters(flooring_fn=m.flooring_fn)
        _, q, z = model(ctx, X, a, B)
        ctx.eq(m.mixing, np.mean(g, axis=-1), "mixing weights are mean responsibilities")
        zz = z[..., :, None] * z[..., None, :].conj()
        S = np.sum((g / q)[..., None, None] * zz, axis=2)
        den = np.sum(g, axis=2)[..., None, None]
        ctx.eq(m.covariance * den, 2 * S, "weighted maximum-likelihood covariance")
        ctx.eq(m.covariance, ctx.H(m.covariance), "Hermitian")
        ctx.same(m.posterior, g, "M-step leaves the responsibilities")

    return run


def rank_one(ns, nb):
    """a single frame gives a rank-one covariance: it is made positive definite"""
    def run(ctx):
        m, X, a, B = prepare(ctx, ns, nb, 1, 0, 0)
        g = ctx.pos("g", (ns, nb, 1), sym=2, lo=0.1, hi=0.9)
        m.posterior = g.copy()
        eps = ctx.pos("eps", (), lo=0.125, hi=0.25)[()]
        m.update_parameters(flooring_fn=lambda x: np.maximum(x, eps))
        V = m.covariance
        ctx.eq(V, ctx.H(V), "Hermitian")
        det = np.real(V[..., 0, 0] * V[..., 1, 1] - V[..., 0, 1] * V[..., 1, 0])
        ctx.gt(np.real(V[..., 0, 0]), 0, "positive definite (first minor)")
        ctx.gt(det, 0, "positive definite (determinant)")

    return run


def normalise(ns, nb, T):
    def run(ctx):
        m, X, a, B = prepare(ctx, ns, nb, T, 1, 2)
        l0 = m.compute_loss()
        m.normalize_covariance()
        V = m.covariance
        ctx.eq(V[..., 0, 0] + V[..., 1, 1], np.ones((ns, nb)), "unit trace")
        tr = np.real(B[..., 0, 0] + B[..., 1, 1])[..., None, None]
        ctx.eq(V * tr, B, "only the scale of the covariance changes")
        ctx.eq(ctx.scalar(m.compute_loss()), ctx.scalar(l0), "likelihood unchanged by the normalisation")

    return run


def loss(ns, nb, T, symx, symb):
    def run(ctx):
        m, X, a, B = prepare(ctx, ns, nb, T, symx, symb)
        p, _, _ = model(ctx, X, a, B)
        ref = np.sum(np.mean(-np.log(np.sum(p, axis=0)), axis=-1))
        ctx.eq(np.exp(-T * ctx.scalar(m.compute_loss())), np.exp(-T * ref), "loss is the negative log-likelihood")
        ctx.same(m.mixing, a, "loss leaves the mixing weights")
        ctx.same(m.covariance, B, "loss leaves the covariances")

    return run


def scaling(ns, nb, T):
    """every observation vector rescaled by its own complex factor: same likelihood, same responsibilities"""
    def run(ctx):
        r = ctx.pos("r", (nb, T), sym=2)
        u = ctx.unim("u", (nb, T))
        m1, X, a, B = prepare(ctx, ns, nb, T, 1, 1)
        m2, _, _, _ = prepare(ctx, ns, nb, T, 1, 1, X=X * (r * u), ab=(a, B))
        ctx.eq(ctx.scalar(m1.compute_loss()), ctx.scalar(m2.compute_loss()), "likelihood does not depend on the scale of the observations")
        for m in (m1, m2):
            m.update_posterior(flooring_fn=m.flooring_fn)
        ctx.eq(m1.posterior, m2.posterior, "responsibilities do not depend on the scale of the observations")

    return run


def steps(ns, nb, T, norm, ref, n_iter, record=True):
    """a run equals the composition of exact E and M steps; losses and output belong to the final state"""
    def run(ctx):
        X = ctx.cplx("X", (2, nb, T), sym=1)
        kw = {"n_sources": ns, "normalization": norm, "reference_id": ref, "permutation_alignment": False, "record_loss": record}
        m = make("CACGMM:", ctx, **kw)
        out = m(X.copy(), n_iter=n_iter)
        k = make("CACGMM:", ctx, **kw)
        k.input = X
        k._reset(flooring_fn=k.flooring_fn)
        losses = [k.compute_loss()]
        a0, B0 = k.mixing, k.covariance
        ctx.eq(np.sum(a0, axis=0), np.ones((nb,)), "initial mixing weights sum to one")
        for _ in range(n_iter):
            k.update_posterior(flooring_fn=k.flooring_fn)
            k.update_parameters(flooring_fn=k.flooring_fn)
            if norm:
                k.normalize_covariance()
            losses.append(k.compute_loss())
        k.update_posterior(flooring_fn=k.flooring_fn)
        ctx.eq(m.mixing, k.mixing, "mixing weights after the run")
        ctx.eq(m.covariance, k.covariance, "covariances after the run")
        ctx.eq(m.posterior, k.posterior, "final responsibilities belong to the final parameters")
        ctx.eq(out, k.posterior * X[ref], "output is the masked reference channel")
        ctx.eq(np.sum(out, axis=0), X[ref], "separated sources sum to the reference channel")
        if record:
            ctx.check(len(m.loss) == n_iter + 1, "one loss per state")
            for x, y in zip(m.loss, losses):
                ctx.eq(ctx.scalar(x), ctx.scalar(y), "recorded loss is the loss of the state")

    return run


def harnesses(tier):
    return [
        ("posterior-2-free", posterior(2, 1, 1, None, 2), OPT), ("posterior-2", posterior(2, 2, 2, 2, 2), OPT), ("posterior-3", posterior(3, 1, 2, 1, 2), OPT),
        ("posterior-B", posterior(2, 1, 1, 1, 8), OPT),
        ("mstep-2", mstep(2, 1, 2, 1, 1, 4), EIG), ("mstep-2-X", mstep(2, 1, 2, 2, 0, 2), EIG), ("mstep-3", mstep(3, 1, 2, 1, 1, 2), EIG),
        ("mstep-bins", mstep(2, 2, 2, 1, 1, 2), EIG), ("mstep-3frames", mstep(2, 1, 3, 1, 1, 3), EIG),
        ("rank-one", rank_one(2, 1), RANK), ("rank-one-3", rank_one(3, 1), RANK),
        ("normalise", normalise(2, 2, 2), OPT), ("normalise-3", normalise(3, 1, 1), OPT),
        ("loss-1", loss(2, 1, 1, 4, 2), OPT), ("loss-frames", loss(2, 1, 2, 1, 2), OPT), ("loss-bins", loss(2, 2, 2, 1, 2), OPT), ("loss-3", loss(3, 1, 1, 1, 2), OPT),
        ("scaling-2", scaling(2, 1, 2), OPT), ("scaling-bins", scaling(2, 2, 1), OPT), ("scaling-3", scaling(3, 1, 1), OPT),
        ("steps-2", steps(2, 2, 3, True, 0, 1), DAG), ("steps-2-ref1", steps(2, 1, 3, True, 1, 2), DAG), ("steps-nonorm", steps(2, 1, 3, False, 0, 2), DAG),
        ("steps-3", steps(3, 1, 3, True, 1, 1), DAG), ("steps-0", steps(2, 2, 2, True, 0, 0), DAG), ("steps-noloss", steps(2, 1, 3, True, 0, 1, False), DAG),
    ]
