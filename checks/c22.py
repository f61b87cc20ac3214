"""C22: multichannel NMF (MNMF and FastMNMF)."""

import numpy as np

from ssspy.bss import mnmf
from ssspy.bss._update_spatial_model import update_by_ip1, update_by_ip2

from .c26 import det
from .common import Many, Patch, chol
from .models import make

FUNCTIONS = [
    "ssspy.bss.mnmf.GaussMNMF.{__call__,update_once,update_basis,update_activation,update_spatial,update_latent,compute_loss,separate}",
    "ssspy.bss.mnmf.FastGaussMNMF.{__call__,update_once,update_basis,update_activation,update_diagonalizer,update_diagonalizer_ip1,"
    "update_diagonalizer_ip2,update_spatial,compute_loss,separate}",
    "ssspy.bss.mnmf.{MNMFBase,MNMF,FastMNMFBase}.{_reset,_init_nmf,_init_spatial,_init_diagonalizer,_init_instant_covariance,reconstruct_nmf,"
    "reconstruct_mnmf,normalize,normalize_by_power}",
]
BOUNDS = (
    "1-3 channels, 2-3 sources (also different from the number of channels), 1-2 bins, 1-3 frames, 1-2 bases; mixture, bases, activations, spatial "
    "covariances, diagonalisers and latent weights symbolic in 1-4 entries each (all entries for one channel), the others fixed generic numbers; exact arithmetic"
)
ASSUMPTIONS = [
    "parameters positive, spatial covariances positive definite, flooring inactive",
    "to_psd is the Hermitian part (C13: its argument is positive semidefinite up to the floor); gmeanmh solves its Riccati equation (C10); "
    "IP1/IP2 row updates as in C02/C03",
    "log x <= x - 1 and joint diagonalisability of two positive definite matrices link the step equations to the loss",
]
PD = {"clamp": False, "floor": "inactive", "eq": "generic"}
OPT = {"policy": PD, "max_paths": 40, "timeout": 15}
DAG = {"policy": dict(PD, dag=2, follow=True, opaque=("inv", "eigh")), "max_paths": 40, "timeout": 15}


def hermitian(ctx, X):
    return 0.5 * (X + ctx.H(X))


def nopsd(ctx):
    """sym mode: the safeguard on matrices that are positive semidefinite by construction"""
    if ctx.mode == "num":
        return Many([])
    return Patch(mnmf, "to_psd", lambda X, *a, **k: hermitian(ctx, X))


def setup(ctx, cls, n, c, nb, T, K, part, sym, ref=0, spatial="full", iters=0, alg="", **kw):
    """-> (separator holding arbitrary parameters, X, dict of the parameters)"""
    sx, st, sv, sz, sh = sym
    m = make(f"{cls}:{alg}", ctx, n_basis=K, n_sources=n, partitioning=part, reference_id=ref, **kw)
    X = ctx.cplx("X", (c, nb, T), sym=sx)
    p = {}
    if part:
        p["latent"] = ctx.pos("Z", (n, K), sym=sz, lo=0.25, hi=1)
        p["basis"], p["activation"] = ctx.pos("T", (nb, K), sym=st), ctx.pos("V", (K, T), sym=sv)
    else:
        p["basis"], p["activation"] = ctx.pos("T", (n, nb, K), sym=st), ctx.pos("V", (n, K, T), sym=sv)
    if cls == "GaussMNMF":
        L = chol(ctx, "H", c, sym=sh, batch=(n, nb))
        p["spatial"] = L @ ctx.H(L)
    else:
        p["spatial"] = ctx.pos("D", (nb, n, c), sym=sh)
        p["diagonalizer"] = ctx.cplx("Q", (nb, c, c), sym=sz)
    m(X, n_iter=iters, **{k: v.copy() for k, v in p.items()})
    return m, X, p


def lam(p):
    T, V = p["basis"], p["activation"]
    if "latent" not in p:
        return T @ V
    return np.sum(p["latent"][:, None, :, None] * (T[:, :, None] * V[None])[None], axis=2)


def components(p, ctx):
    """model covariance of every source, (n, nb, T, c, c)"""
    L = lam(p)
    if "diagonalizer" not in p:
        return L[..., None, None] * p["spatial"][:, :, None]
    Qi = np.linalg.inv(p["diagonalizer"])  # R_n = lambda Q^-1 diag(d) Q^-H
    D = p["spatial"].transpose(1, 0, 2)  # (n, nb, c)
    H = (Qi[None] * D[:, :, None, :]) @ ctx.H(Qi)[None]
    return L[..., None, None] * H[:, :, None]


def current(m, part):
    p = {k: getattr(m, k).copy() for k in ("basis", "activation", "spatial")}
    if part:
        p["latent"] = m.latent.copy()
    if hasattr(m, "diagonalizer"):
        p["diagonalizer"] = m.diagonalizer.copy()
    return p


def cov(X):
    return (X[:, None] * X[None].conj()).transpose(2, 3, 0, 1)


def traces(ctx, X, p):
    """(n, nb, T): tr(R^-1 XX R^-1 H_n), tr(R^-1 H_n)"""
    R = np.sum(components(p, ctx), axis=0)
    Ri = np.linalg.inv(R)
    RXXR = Ri @ cov(X) @ Ri
    H = p["spatial"][:, :, None]
    return np.real(np.trace(RXXR[None] @ H, axis1=-2, axis2=-1)), np.real(np.trace(Ri[None] @ H, axis1=-2, axis2=-1))


def diag_traces(X, p):
    """same for the jointly diagonalised model"""
    QX2 = np.abs((p["diagonalizer"] @ X.transpose(1, 0, 2)).transpose(0, 2, 1)) ** 2  # (nb, T, c)
    D = p["spatial"].transpose(1, 0, 2)  # (n, nb, c)
    L = np.sum(lam(p)[..., None] * D[:, :, None, :], axis=0)  # (nb, T, c)
    return np.sum(D[:, :, None] * (QX2 / L ** 2)[None], axis=-1), np.sum(D[:, :, None] / L[None], axis=-1)


def gradient(which, w, p):
    """sum of w[n,i,j] d lambda[n,i,j] / d theta"""
    T, V, Z = p["basis"], p["activation"], p.get("latent")
    if which == "latent":
        return np.sum(w[:, :, None, :] * (T[:, :, None] * V[None])[None], axis=(1, 3))
    if Z is None:
        if which == "basis":
            return np.sum(w[:, :, None, :] * V[:, None], axis=3)
        return np.sum(w[:, :, None, :] * T[..., None], axis=1)
    if which == "basis":
        return np.sum(Z[:, None, :, None] * w[:, :, None, :] * V[None, None], axis=(0, 3))
    return np.sum(Z[:, None, :, None] * w[:, :, None, :] * T[None, :, :, None], axis=(0, 1))


def ratio(ctx, new, old, num, den, what):
    """new = old sqrt(num / den), cross-multiplied"""
    ctx.eq(new ** 2 * den, old ** 2 * num, what)
    ctx.gt(new, 0, f"{what} (positive)") if ctx.mode == "num" else None


def step(cls, which, n, c, nb, T, K, part, sym, **kw):
    """one multiplicative update"""

    def run(ctx):
        with nopsd(ctx):
            m, X, p = setup(ctx, cls, n, c, nb, T, K, part, sym, **kw)
            getattr(m, f"update_{which}")()
        num, den = (gradient(which, t, p) for t in (traces(ctx, X, p) if cls == "GaussMNMF" else diag_traces(X, p)))
        if which == "latent":
            s = m.latent / p["latent"]
            q = num / den
            for k in range(K):
                for i in range(1, n):
                    ctx.eq(s[i, k] ** 2 * q[0, k], s[0, k] ** 2 * q[i, k], "latent weights: step of the auxiliary function up to renormalisation")
            ctx.eq(np.sum(m.latent, axis=0), np.ones(K), "latent weights sum to one")
        else:
            ratio(ctx, getattr(m, which), p[which], num, den, f"{which}: minimiser of the auxiliary function")
        for k in p:
            if k != which:
                ctx.same(getattr(m, k), p[k], f"{k} untouched")
        ctx.same(m.input, X, "input untouched")

    return run


def spatial(n, c, nb, T, K, part, sym, **kw):
    """MNMF: the new spatial covariances solve the Riccati equation H P H = H0 Q H0"""

    def run(ctx):
        with nopsd(ctx):
            m, X, p = setup(ctx, "GaussMNMF", n, c, nb, T, K, part, sym, **kw)
            R = np.sum(components(p, ctx), axis=0)
            Ri = np.linalg.inv(R)
            L = lam(p)
            P = np.sum(L[..., None, None] * Ri[None], axis=2)
            S = np.sum(L[..., None, None] * (Ri @ cov(X) @ Ri)[None], axis=2)
            HSH = p["spatial"] @ S @ p["spatial"]
            if ctx.mode == "num" or c == 1:
                m.update_spatial()
                H = m.spatial
                ctx.eq(H @ P @ H, HSH, "spatial: stationary point of the auxiliary function")
            else:
                calls = []

                def gm(A, B, type=1, **kw):
                    calls.append((A, B, type, hermitian(ctx, ctx.cplx("G", A.shape))))
                    return calls[0][3]

                with Patch(mnmf, "gmeanmh", gm):
                    m.update_spatial()
                H = m.spatial
                assert len(calls) == 1, "gmeanmh is called once"
                A, B, t, G = calls[0]
                ctx.eq(H, G, "spatial: solution of the Riccati equation")
                if t == 2:  # G A G = B
                    ctx.eq(A, P, "spatial: linear term of the Riccati equation")
                    ctx.eq(B, HSH, "spatial: constant term of the Riccati equation")
                else:  # geometric mean of A and B: G A^-1 G = B
                    assert t == 1
                    ctx.eq(A @ P, np.tile(np.eye(c), A.shape[:2] + (1, 1)), "spatial: linear term of the Riccati equation")
                    ctx.eq(B, HSH, "spatial: constant term of the Riccati equation")
            ctx.eq(ctx.H(H), H, "spatial covariance is Hermitian")
        for k in p:
            if k != "spatial":
                ctx.same(getattr(m, k), p[k], f"{k} untouched")

    return run


def fast_spatial(n, c, nb, T, K, sym, **kw):
    def run(ctx):
        with nopsd(ctx):
            m, X, p = setup(ctx, "FastGaussMNMF", n, c, nb, T, K, False, sym, **kw)
            m.update_spatial()
        QX2 = np.abs(p["diagonalizer"] @ X.transpose(1, 0, 2)) ** 2  # (nb, c, T)
        L = lam(p)  # (n, nb, T)
        D = p["spatial"]
        M = np.sum(L.transpose(1, 0, 2)[:, :, None] * D[..., None], axis=1)  # (nb, c, T)
        num = np.sum(L.transpose(1, 0, 2)[:, :, None] * (QX2 / M ** 2)[:, None], axis=-1)
        den = np.sum(L.transpose(1, 0, 2)[:, :, None] / M[:, None], axis=-1)
        ratio(ctx, m.spatial, D, num, den, "spatial: minimiser of the auxiliary function")
        for k in p:
            if k != "spatial":
                ctx.same(getattr(m, k), p[k], f"{k} untouched")

    return run


def diagonalizer(alg, n, c, nb, T, K, sym, selector=None, **kw):
    """rows updated by IP with the covariances weighted by the inverse model variance of their component"""

    def run(ctx):
        with nopsd(ctx):
            if selector is not None:
                kw["pair_selector"] = selector
            m, X, p = setup(ctx, "FastGaussMNMF", n, c, nb, T, K, False, sym, alg=alg, **kw)
            m.update_diagonalizer()
        L = lam(p).transpose(1, 0, 2)
        M = np.sum(L[:, :, None, :] * p["spatial"][:, :, :, None], axis=1)
        XX = (X[:, None] * X[None].conj()).transpose(2, 0, 1, 3)
        U = np.mean((1 / M)[:, :, None, None, :] * XX[:, None], axis=-1)
        fl = m.flooring_fn
        if alg == "IP2":
            Q = update_by_ip2(p["diagonalizer"].copy(), U, flooring_fn=fl, pair_selector=m.pair_selector)
        else:
            Q = update_by_ip1(p["diagonalizer"].copy(), U, flooring_fn=fl)
        ctx.eq(m.diagonalizer, Q, "diagonaliser rows")
        for k in p:
            if k != "diagonalizer":
                ctx.same(getattr(m, k), p[k], f"{k} untouched")

    return run


def loss(cls, n, c, nb, T, K, part, sym, **kw):
    def run(ctx):
        with nopsd(ctx):
            m, X, p = setup(ctx, cls, n, c, nb, T, K, part, sym, **kw)
            v = m.compute_loss()
        v = np.asarray(v) if ctx.mode == "num" else ctx.const(v)
        if cls == "GaussMNMF":
            R = np.sum(components(p, ctx), axis=0)
            tr = np.real(np.trace(np.linalg.inv(R) @ cov(X), axis1=-2, axis2=-1))
            d = np.real(det(R.reshape((-1, c, c)))).reshape(R.shape[:2])
            ctx.eq(v, np.sum(np.mean(tr + np.log(d), axis=1)), "loss is the negative log-likelihood")
        else:
            QX2 = np.abs(p["diagonalizer"] @ X.transpose(1, 0, 2)) ** 2
            M = np.sum(lam(p)[:, :, None] * p["spatial"].transpose(1, 0, 2)[..., None], axis=0)
            d = det(p["diagonalizer"])
            ctx.eq(v, np.sum(np.mean(np.sum(QX2 / M + np.log(M), axis=1), axis=-1) - np.log(np.real(d * d.conj()))), "loss is the negative log-likelihood")
        for k in p:
            ctx.same(getattr(m, k), p[k], f"{k} untouched by the loss")

    return run


def wiener(cls, n, c, nb, T, K, part, sym, ref=0, **kw):
    """separated signals: multichannel Wiener estimates at the reference channel, summing to the observation"""

    def run(ctx):
        with nopsd(ctx):
            m, X, p = setup(ctx, cls, n, c, nb, T, K, part, sym, ref=ref, **kw)
            Y = m.separate(X)
        ctx.check(Y.shape == (n, nb, T), "shape")
        ctx.eq(m.output, Y, "output attribute")
        ctx.eq(np.sum(Y, axis=0), X[ref], "estimates sum to the observation at the reference channel")
        Rn = components(p, ctx)
        Ri = np.linalg.inv(np.sum(Rn, axis=0))
        x = X.transpose(1, 2, 0)[..., None]
        ctx.eq(Y, (Rn @ (Ri @ x)[None])[..., ref, 0], "Wiener estimate")

    return run


def normalise(cls, n, c, nb, T, K, sym, **kw):
    def run(ctx):
        with nopsd(ctx):
            m, X, p = setup(ctx, cls, n, c, nb, T, K, False, sym, **kw)
            before = m.compute_loss()
            m.normalize()
            after = m.compute_loss()
        q = current(m, False)
        ctx.same(q["activation"], p["activation"], "activation untouched")
        ctx.eq(components(q, ctx), components(p, ctx), "model covariance of every source unchanged")
        if cls == "GaussMNMF":
            ctx.eq(np.real(np.trace(q["spatial"], axis1=-2, axis2=-1)), np.ones((n, nb)), "unit trace")
            ctx.eq(ctx.H(q["spatial"]), q["spatial"], "Hermitian")
        else:
            ctx.same(q["basis"], p["basis"], "basis untouched")
            QX2 = np.abs(q["diagonalizer"] @ X.transpose(1, 0, 2)) ** 2
            ctx.eq(np.mean(QX2, axis=(0, 2)), np.ones(c), "unit power per component")
        c_ = np.asarray if ctx.mode == "num" else ctx.const
        if kw.get("losses", True):
            ctx.eq(c_(before), c_(after), "loss unchanged by the normalisation")

    return run


def unit_trace_part(n, c, nb, T, K, sym, **kw):
    """partitioned MNMF: spatial covariances are brought to unit trace, nothing else is touched"""

    def run(ctx):
        with nopsd(ctx):
            m, X, p = setup(ctx, "GaussMNMF", n, c, nb, T, K, True, sym, **kw)
            m.normalize()
        tr = np.real(np.trace(p["spatial"], axis1=-2, axis2=-1))
        ctx.eq(m.spatial * tr[..., None, None], p["spatial"], "spatial covariance divided by its trace")
        for k in ("basis", "activation", "latent"):
            ctx.same(getattr(m, k), p[k], f"{k} untouched")

    return run


def order(cls, n, c, nb, T, K, part, sym, alg="", normalization=True, **kw):
    """update_once is the sequence of the single updates, each on the others' results, and the normalisation"""

    def run(ctx):
        a, X, p = setup(ctx, cls, n, c, nb, T, K, part, sym, alg=alg, normalization=normalization, record_loss=False, iters=1, **kw)
        b, _, _ = None, None, None
        b = make(f"{cls}:{alg}", ctx, n_basis=K, n_sources=n, partitioning=part, normalization=normalization, record_loss=False)
        b(X, n_iter=0, **{k: v.copy() for k, v in p.items()})
        b.update_basis()
        b.update_activation()
        if cls == "GaussMNMF":
            b.update_spatial()
        else:
            b.update_diagonalizer()
            b.update_spatial()
        if normalization:
            b.normalize()
        if part:
            b.update_latent()
        for k in p:
            ctx.eq(getattr(a, k), getattr(b, k), k)
        ctx.eq(a.output, b.separate(X), "output is the separation with the final parameters")

    return run


def matrix_jensen(ctx):
    """x^H (s1 A + s2 B)^-1 x <= x^H M^-1 (A / s1 + B / s2) M^-1 x, M = A + B, in the joint eigenbasis (A = 1, B = d, |x|^2 = 1):
    the majoriser of the quadratic term behind the multiplicative steps"""
    s, d = ctx.pos("s", (2,)), ctx.pos("d", ())[()]
    rhs = (1 / s[0] + d / s[1]) / (1 + d) ** 2
    ctx.ge(ctx.const(rhs - 1 / (s[0] + s[1] * d)), 0, "Jensen")


def harnesses(tier):
    G, F = "GaussMNMF", "FastGaussMNMF"
    h = []
    one = (1, 1, 1, 1, 1)
    for part in (False, True):
        t = "-part" if part else ""
        for w in ("basis", "activation") + (("latent",) if part else ()):
            h += [
                (f"mnmf-{w}{t}", step(G, w, 2, 2, 1, 2, 2, part, (1, 1, 1, 1, 1)), OPT),
                (f"mnmf-{w}{t}-nb2", step(G, w, 2, 2, 2, 2, 2, part, (1, 1, 1, 0, 0)), OPT),
                (f"mnmf-{w}{t}-c1", step(G, w, 2, 1, 2, 2, 2, part, (2, 2, 2, 2, 0)), OPT),
                (f"mnmf-{w}{t}-n3", step(G, w, 3, 2, 1, 2, 2, part, (1, 1, 0, 0, 0)), OPT),
                (f"mnmf-{w}{t}-c3", step(G, w, 2, 3, 1, 1, 1, part, (1, 1, 0, 1, 0)), OPT),
            ]
        h += [
            (f"mnmf-spatial{t}", spatial(2, 2, 1, 2, 2, part, (1, 1, 1, 1, 1)), dict(OPT, noval=True)),
            (f"mnmf-spatial{t}-nb2", spatial(3, 2, 2, 2, 2, part, (1, 1, 0, 0, 0)), dict(OPT, noval=True)),
            (f"mnmf-spatial{t}-c1", spatial(2, 1, 1, 2, 1, part, (1, 1, 1, 1, 0)), OPT),
            (f"mnmf-loss{t}", loss(G, 2, 2, 1, 2, 2, part, (1, 1, 1, 1, 0)), OPT),
            (f"mnmf-loss{t}-c1", loss(G, 2, 1, 2, 2, 2, part, (1, 1, 1, 1, 0)), OPT),
            (f"mnmf-wiener{t}", wiener(G, 2, 2, 1, 2, 2, part, (2, 1, 1, 1, 1)), OPT),
            (f"mnmf-wiener{t}-ref1", wiener(G, 3, 2, 2, 2, 1, part, (2, 1, 1, 1, 1), ref=1), OPT),
            (f"mnmf-wiener{t}-c3", wiener(G, 2, 3, 1, 2, 1, part, (1, 1, 0, 1, 0), ref=2), OPT),
            (f"mnmf-order{t}", order(G, 2, 2, 1, 2, 2, part, one), dict(DAG, noval=True)),
            (f"mnmf-order{t}-nonorm", order(G, 2, 2, 1, 2, 2, part, one, normalization=False), dict(DAG, noval=True)),
        ]
    h.append(("mnmf-normalise-part", unit_trace_part(2, 2, 2, 2, 2, (1, 1, 1, 1, 2)), OPT))
    h += [
        ("mnmf-normalise", normalise(G, 2, 2, 1, 2, 1, (1, 1, 1, 1, 1)), OPT),
        ("mnmf-normalise-nb2", normalise(G, 3, 2, 2, 1, 2, (0, 1, 0, 0, 2)), OPT),
        ("jensen", matrix_jensen, OPT),
    ]
    for w in ("basis", "activation"):
        h += [
            (f"fast-{w}", step(F, w, 2, 2, 1, 2, 2, False, (1, 1, 1, 1, 1)), OPT),
            (f"fast-{w}-nb2", step(F, w, 2, 2, 2, 2, 2, False, (2, 1, 0, 0, 2)), OPT),
            (f"fast-{w}-n3", step(F, w, 3, 2, 2, 2, 1, False, (1, 1, 1, 0, 1)), OPT),
            (f"fast-{w}-c3", step(F, w, 2, 3, 1, 2, 2, False, (1, 1, 1, 0, 1)), OPT),
            (f"fast-{w}-c1", step(F, w, 2, 1, 1, 3, 2, False, (2, 2, 2, 0, 2)), OPT),
        ]
    h += [
        ("fast-spatial", fast_spatial(2, 2, 1, 2, 2, one), OPT),
        ("fast-spatial-n3", fast_spatial(3, 2, 2, 2, 1, (1, 1, 1, 0, 1)), OPT),
        ("fast-spatial-c3", fast_spatial(2, 3, 1, 2, 1, (1, 1, 1, 1, 1)), OPT),
        ("fast-loss", loss(F, 2, 2, 1, 2, 2, False, one), OPT),
        ("fast-loss-nb2", loss(F, 3, 2, 2, 2, 1, False, (1, 1, 1, 1, 0)), OPT),
        ("fast-wiener", wiener(F, 2, 2, 1, 2, 2, False, (2, 1, 1, 1, 1)), OPT),
        ("fast-wiener-ref1", wiener(F, 3, 2, 2, 2, 1, False, (2, 1, 0, 1, 1), ref=1), OPT),
        ("fast-wiener-c3", wiener(F, 2, 3, 1, 1, 1, False, (1, 1, 0, 0, 1), ref=2), OPT),
        ("fast-normalise", normalise(F, 2, 2, 1, 2, 1, (1, 1, 1, 1, 1)), OPT),
        ("fast-normalise-nb2", normalise(F, 3, 2, 2, 2, 1, (1, 0, 0, 1, 1)), OPT),
    ]
    for alg in ("IP", "IP1", "IP2"):
        o = dict(DAG, noval=alg == "IP2")
        h += [
            (f"fast-diag-{alg}", diagonalizer(alg, 2, 2, 1, 2, 2, one), o),
            (f"fast-diag-{alg}-n3", diagonalizer(alg, 3, 2, 2, 2, 1, (2, 1, 1, 2, 2)), o),
            (f"fast-diag-{alg}-c3", diagonalizer(alg, 2, 3, 1, 4, 1, (1, 1, 1, 1, 1)), o),
            (f"fast-order-{alg}", order(F, 2, 2, 1, 2, 2, False, one, alg=alg), dict(DAG, noval=True)),
            (f"fast-order-{alg}-nonorm", order(F, 3, 2, 2, 2, 1, False, one, alg=alg, normalization=False), dict(DAG, noval=True)),
        ]
    h.append(("fast-diag-selector", diagonalizer("IP2", 2, 3, 1, 4, 1, (1, 1, 1, 1, 1), selector=lambda n: [(0, 2), (2, 1)]), dict(DAG, noval=True)))
    return h
