"""C06: IPA and the log-quadratically penalised quadratic minimisation (LQPQM)."""

import numpy as np

from ssspy.bss._update_spatial_model import update_by_ipa  # noqa: F401
import ssspy.bss._update_spatial_model as usm
from ssspy.linalg import lqpqm
from ssspy.linalg.cubic import cbrt
from ssspy.linalg.lqpqm import _find_largest_root, lqpqm2, solve_equation

from checks.c12 import unitary

FUNCTIONS = [
    "ssspy.linalg.lqpqm.lqpqm2",
    "ssspy.linalg.lqpqm.solve_equation",
    "ssspy.linalg.lqpqm._find_largest_root",
    "ssspy.linalg.lqpqm._fn",
    "ssspy.linalg.lqpqm._d_fn",
    "ssspy.bss._update_spatial_model.update_by_ipa",
]
BOUNDS = (
    "subproblem: 1-3 coefficients (2-4 sources), 1-3 bins, every spectrum/eigenvectors/linear term/offset in the stated families; "
    "1-3 Newton steps; IPA sweep: 2-4 sources, 1-2 bins, symbolic subproblem solution with slices of the mixture and weights; exact real arithmetic."
)
ASSUMPTIONS = [
    "floors inactive except in the flooring harness",
    "inside update_by_ipa: lqpqm2 returns an arbitrary vector, to_psd leaves positive definite matrices (C13) and _psd_inv is the inverse (own harness)",
    "inside solve_equation: _find_largest_root returns the largest root (own harness); cube root is the principal one (C11)",
    "linear terms with a nonzero component in every retained eigendirection; the degenerate cases have their own harnesses",
]
_largest = _find_largest_root


def cubic(a, P, Q):
    """coefficients of (x + a)^3 + P (x + a) + Q"""
    return 3 * a, 3 * a ** 2 + P, a ** 3 + P * a + Q


class Patch:
    """replace a function of a module while a harness runs"""

    def __init__(self, mod, name, f):
        self.mod, self.name, self.f = mod, name, f

    def __enter__(self):
        self.old = getattr(self.mod, self.name, None)  # a refactored module may lack it: then nothing to replace
        if self.old is not None:
            setattr(self.mod, self.name, self.f)

    def __exit__(self, *a):
        if self.old is not None:
            setattr(self.mod, self.name, self.old)


def largest(fam):
    """largest real root, by Cardano parameters: roots of x^3 + Px + Q are u + v with 3uv = -P, u^3 + v^3 = -Q"""
    def run(ctx):
        sh = (1,)
        a = ctx.real("a", sh)
        if fam == "three":
            p, q = ctx.pos("p", sh), ctx.pos("q", sh)
            ctx.assume_pos(3 * p ** 2 - q ** 2)
            u = p + 1j * q
            A, B, C = cubic(a, -3 * (p ** 2 + q ** 2), -2 * (p ** 3 - 3 * p * q ** 2))

            def root(c):  # the principal cube root (C11)
                if ctx.mode == "sym" and np.iscomplexobj(c):
                    ctx.zero(c - u ** 3, "argument of the cube root")
                    return u
                return cbrt(c)

            with Patch(lqpqm, "cbrt", root):
                x = _find_largest_root(A, B, C)
            ctx.eq(x, 2 * p - a, "largest of three real roots")
        elif fam == "double":
            s = ctx.pos("s", sh)
            x = _find_largest_root(*cubic(a, -3 * s ** 2, -2 * s ** 3))
            ctx.eq(x, 2 * s - a, "simple root above the double root", tol=1e-4)
        else:
            s, t = ctx.pos("s", sh, lo=1.5), ctx.pos("t", sh, hi=1)
            ctx.assume_pos(s - t)
            t = t if fam == "single" else -t if fam == "monotonic" else 0 * t
            x = _find_largest_root(*cubic(a, -3 * s * t, -(s ** 3) - t ** 3))
            ctx.eq(x, s + t - a, "only real root")

    return run


def secular(lam, phi, w, z):
    """f(lambda) (lambda - phi)^2 of the 1x1 problem"""
    return lam ** 2 * phi * w ** 2 - (lam - z) * (lam - phi) ** 2


def family(ctx, n, sym=None):
    """(phi, |v|, z, lambda): the secular equation of one component with known largest root lambda"""
    phi, g, a = (ctx.pos(k, (n,), sym=sym, lo=lo, hi=hi) for k, lo, hi in (("phi", 0.5, 2), ("g", 0.5, 2), ("t", 0.25, 0.75)))
    lam = phi + g
    z = lam - phi * a ** 2
    ctx.assume_nonneg(z)
    return phi, a * g / lam, z, lam


class Root:
    """contract of _find_largest_root on the secular cubic: the obligations are its arguments"""

    def __init__(self, ctx, phi, w, z, lam):
        self.a = ctx, phi, w, z, lam

    def __call__(self, A, B, C):
        ctx, phi, w, z, lam = self.a
        if ctx.mode == "num":
            return _largest(A, B, C)
        # the cubic must be (a multiple of) the secular equation for eigenvalues scaled by s
        for s in (1, phi):
            if self.match(A, B, C, phi / s, z / s, w):
                return lam / s
        s = 1
        p, zz = phi / s, z / s
        ctx.zero(A - (-(p * w ** 2 + 2 * p + zz)), "cubic coefficient A")
        ctx.zero(B - ((p + 2 * zz) * p), "cubic coefficient B")
        ctx.zero(C - (-(p ** 2) * zz), "cubic coefficient C")
        return lam / s

    def match(self, A, B, C, p, z, w):
        d = [A + (p * w ** 2 + 2 * p + z), B - (p + 2 * z) * p, C + p ** 2 * z]
        return all(x.view(np.ndarray).ravel()[i].coef == 0 for x in d for i in range(x.size))


def eq1(n, max_iter, norm):
    def run(ctx):
        phi, w, z, lam = family(ctx, n)
        u = ctx.unim("u", (n, 1))
        v = u * w[:, None]
        with Patch(lqpqm, "_find_largest_root", Root(ctx, phi, w, z, lam)):
            x = solve_equation(phi[:, None], v, z, flooring_fn=None, max_iter=max_iter, normalization=norm)
        ctx.eq(x, lam, "largest root of the secular equation")

    return run


def lq1(n, max_iter):
    """one coefficient (two sources): the exact minimiser"""
    def run(ctx):
        phi, w, z, lam = family(ctx, n)
        u = ctx.unim("u", (n, 1))
        v = u * w[:, None]
        with Patch(lqpqm, "_find_largest_root", Root(ctx, phi, w, z, lam)):
            y = lqpqm2(phi[:, None, None] + 0j, v, z, flooring_fn=None, singular_fn=None, max_iter=max_iter)
        H = phi[:, None]
        ctx.eq(lam[:, None] * y, H * (y + v), "stationary point")
        ctx.eq(np.real(np.sum(H * (y + v) * (y + v).conj(), axis=-1)) + z, lam, "multiplier")

    return run


def newton(n, order, k, norm=True, free="rw"):
    """several components: Newton steps from below never overshoot the root and never leave the region above the top eigenvalue"""
    def run(ctx):
        phi1, w1, z, lam = family(ctx, 1, sym=None if free == "top" else 0)
        r, w2 = ctx.pos("r", (1,), sym=None if "r" in free else 0, lo=0.25, hi=0.75), ctx.pos("w2", (1,), sym=None if "w" in free else 0, lo=0.25, hi=1)
        ctx.assume_pos(1 - r)
        phi = np.stack([phi1, r * phi1], axis=-1)
        w = np.stack([w1, w2], axis=-1)
        if n == 3:
            phi = np.concatenate([phi, 0.5 * phi[:, 1:]], axis=-1)
            w = np.concatenate([w, w[:, 1:]], axis=-1)
        phi, w = phi[:, order], w[:, order]
        root = _largest if ctx.mode == "num" else Root(ctx, phi1, w1, z, lam)
        xs = []
        for m in (k,):
            with Patch(lqpqm, "_find_largest_root", root):
                xs.append(solve_equation(phi, w + 0j, z, flooring_fn=None, max_iter=m, normalization=norm))
        x = xs[-1]
        ctx.gt(x, phi1, "above the top eigenvalue")
        ctx.ge(x, lam, "moves towards the root")

        def g(x):  # f(x) prod (x - phi)^2 >= 0 below the root
            den = 1
            for i in range(phi.shape[1]):
                den = den * (x - phi[:, i]) ** 2
            return x ** 2 * sum(phi[:, i] * w[:, i] ** 2 * den / (x - phi[:, i]) ** 2 for i in range(phi.shape[1])) - (x - z) * den

        if len(free) == 1:
            ctx.ge(g(x), 0, "does not overshoot the root")
        if k == 1:
            i1 = order.index(0)
            f = lam ** 2 * sum(phi[:, i] * w[:, i] ** 2 / (lam - phi[:, i]) ** 2 for i in range(phi.shape[1]) if i != i1)
            df = 2 * lam * sum(phi[:, i] ** 2 * w[:, i] ** 2 / (lam - phi[:, i]) ** 3 for i in range(phi.shape[1])) + 1
            ctx.eq((x - lam) * df, f, "exact Newton step")

    return run


def given(ctx, n, nb, names=("phi", "g", "vt")):
    """eigenvalues phi (ascending, distinct), eigenvectors V, multiplier lam above phi_max, rotated linear term"""
    d = ctx.pos(names[0], (nb, n), sym=2 if nb * n > 2 else None, lo=0.25, hi=1)
    phi = np.cumsum(d, axis=-1)
    lam = phi[:, -1] + ctx.pos(names[1], (nb,), lo=0.5, hi=1)
    t = ctx.cplx(names[2], (nb, n), sym=2)
    return phi, lam, t


def lqn(n, nb, case):
    """the minimiser is stationary with multiplier >= top eigenvalue; solve_equation by contract"""
    def run(ctx):
        phi, lam, t = given(ctx, n, nb)
        V = unitary(ctx, "V", n, (nb,), True)
        if case == "hard-below":  # no linear term in the top eigenspace, secular root below the top eigenvalue
            t = t * np.array([1.0] * (n - 1) + [0.0])
            lam = phi[:, -1] - 0.5 * (phi[:, -1] - phi[:, -2])
        elif case == "hard-above":
            t = t * np.array([1.0] * (n - 1) + [0.0])
        t = 0.125 * t
        z = lam - lam ** 2 * np.sum(phi * np.real(t * t.conj()) / (lam[:, None] - phi) ** 2, axis=-1)
        ctx.assume_nonneg(z, "offset nonnegative")
        H = V @ (phi[:, :, None] * ctx.H(V))
        for b in range(nb if ctx.mode == "sym" else 0):
            ctx.register_eigh(H[b], phi[b], V[b])
        v = (V @ t[:, :, None])[:, :, 0]

        def solve(p, v_, z_, **kw):
            return lam

        with Patch(lqpqm, "solve_equation", solve_equation if ctx.mode == "num" else solve):
            # in floating point the vanishing component is only zero up to rounding: the default flooring decides
            kw = {} if ctx.mode == "num" and case == "hard-below" else {"flooring_fn": None}
            y = lqpqm2(H, v, z, max_iter=60, singular_fn=None, **kw)
        ref = phi[:, -1] if case == "hard-below" else lam
        Hu = (H @ (y + v)[:, :, None])[:, :, 0]
        ctx.zero(ref[:, None] * y - Hu, "stationary point")
        ctx.eq(np.real(np.sum(Hu * (y + v).conj(), axis=-1)) + z, ref, "multiplier at least the top eigenvalue")

    return run


def singular(n, nb, case, kw=None):
    """no linear term"""
    kw = {"flooring_fn": None, "singular_fn": None} if kw is None else kw

    def run(ctx):
        phi, lam, _ = given(ctx, n, nb)
        V = unitary(ctx, "V", n, (nb,), True)
        d = ctx.pos("z", (nb,), lo=0.125, hi=0.5)
        z = phi[:, -1] + d if case == "above" else phi[:, -1] - d
        ctx.assume_nonneg(z)
        H = V @ (phi[:, :, None] * ctx.H(V))
        for b in range(nb if ctx.mode == "sym" else 0):
            ctx.register_eigh(H[b], phi[b], V[b])
        y = lqpqm2(H, np.zeros((nb, n), dtype=complex), z, **kw)
        Hu = (H @ y[:, :, None])[:, :, 0]
        ref = z if case == "above" else phi[:, -1]
        ctx.zero(ref[:, None] * y - Hu, "stationary point")
        ctx.eq(np.real(np.sum(Hu * y.conj(), axis=-1)) + z, ref, "multiplier is max(z, top eigenvalue)")

    return run


def defaults(ctx):
    """default flooring and singularity test: a bin without linear term next to a regular one"""
    phi, w, z, lam = family(ctx, 2)
    ctx.assume_pos(phi[1] - z[1])
    v = np.stack([w[0], 0 * w[1]])[:, None] + 0j
    with Patch(lqpqm, "_find_largest_root", Root(ctx, phi[:1], w[:1], z[:1], lam[:1])):
        y = lqpqm2(phi[:, None, None] + 0j, v, z)
    ref = np.stack([lam[0], phi[1]])
    H = phi[:, None]
    ctx.zero(ref[:, None] * y - H * (y + v), "stationary point")
    ctx.zero(np.real(np.sum(H * (y + v) * (y + v).conj(), axis=-1)) + z - ref, "multiplier")


def mixed(ctx):
    """bins with and without linear term are told apart"""
    phi, w, z, lam = family(ctx, 3)
    u = ctx.unim("u", (3, 1))
    on = np.array([1.0, 0.0, 1.0])
    v = u * (w * on)[:, None]
    ctx.assume_pos(phi[1] - z[1])
    k = [0, 2]
    with Patch(lqpqm, "_find_largest_root", Root(ctx, phi[k], w[k], z[k], lam[k])):
        y = lqpqm2(phi[:, None, None] + 0j, v, z, flooring_fn=None, singular_fn=None, max_iter=1)
    ref = lam * on + phi * (1 - on)
    H = phi[:, None]
    ctx.eq(ref[:, None] * y, H * (y + v), "stationary point")
    ctx.eq(np.real(np.sum(H * (y + v) * (y + v).conj(), axis=-1)) + z, ref, "multiplier")


def mom(P, a, b):
    return (P * a * b.conj()).sum(axis=-1) / P.shape[-1]


def solve_secular(H, v, z):
    """independent float solver of the subproblem (bisection on the multiplier)"""
    out = np.zeros_like(v)
    for b in range(len(z)):
        phi, V = np.linalg.eigh(H[b])
        t = V.conj().T @ v[b]
        if np.linalg.norm(t) < 1e-8:
            out[b] = np.sqrt(max(phi[-1] - z[b], 0) / phi[-1]) * V[:, -1]
            continue

        def f(x):
            return x ** 2 * np.sum(phi * np.abs(t) ** 2 / (x - phi) ** 2) - x + z[b]

        lo, hi = phi[-1], 2 * phi[-1] + z[b] + 1
        while f(hi) > 0:
            hi *= 2
        for _ in range(200):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if f(mid) > 0 else (lo, mid)
        out[b] = V @ (phi * t / (hi - phi))
    return out


def ref_step(ctx, Y, P, n, solve, fl):
    """one IPA step, derived from the objective sum_m <phi_m |y_m + c_m y_n|^2> - log q^H U_n^-1 q, q = e_n - sum_m c_m e_m"""
    K, nb, T = Y.shape
    oth = [m for m in range(K) if m != n]
    U = np.stack([np.stack([mom(P[n], Y[i], Y[j]) for j in range(K)], axis=-1) for i in range(K)], axis=-2)
    M = np.linalg.inv(U)
    a = np.stack([np.real(mom(P[m], Y[n], Y[n])) for m in oth], axis=-1)
    b = np.stack([mom(P[m], Y[m], Y[n]) for m in oth], axis=-1)
    C, d = M[:, oth][:, :, oth], M[:, oth, n]
    Cd = (np.linalg.inv(C) @ d[:, :, None])[:, :, 0]
    ra = np.sqrt(a)
    H = C / (ra[:, :, None] * ra[:, None, :])
    v = -b / ra - ra * Cd
    z = np.real(M[:, n, n] - np.sum(d.conj() * Cd, axis=-1))
    c = solve(H, v, z) / ra - b / a
    q = [None] * K
    for k, m in enumerate(oth):
        q[m] = -c[:, k]
    q[n] = c[:, 0] * 0 + 1
    q = np.stack(q, axis=-1)
    Uq = (M @ q[:, :, None])[:, :, 0]
    s = np.sqrt(np.real(np.sum(q.conj() * Uq, axis=-1)))
    p = Uq / fl(s)[:, None]
    Z = [None] * K
    for k, m in enumerate(oth):
        Z[m] = Y[m] + c[:, k, None] * Y[n]
    Z[n] = np.sum(p.conj().T[:, :, None] * Y, axis=0)
    return np.stack(Z, axis=0), (H, v, z)


def ipa(K, nb, symP, symY, symy, norm, T=None):
    """a sweep equals the exact block-coordinate steps; the subproblem by contract"""
    T = T or K + 1

    def run(ctx):
        Y = ctx.cplx("Y", (K, nb, T), sym=symY)
        P = ctx.pos("P", (K, nb, T), sym=symP, lo=0.5, hi=1.5)
        calls = []

        def sub(H, v, z, **kw):
            # earlier steps with y = 0 and a rational normaliser, so that only the last step adds radicals
            y = 0.25 * ctx.cplx(f"y{len(calls)}", v.shape, sym=symy) if len(calls) == K - 1 else 0 * v
            calls.append((H, v, z, y))
            return y

        patches = []
        if ctx.mode == "sym":
            # contracts: C13 (to_psd leaves positive definite matrices), psd-inv harnesses, lq* harnesses
            patches = [
                Patch(usm, "lqpqm2", sub),
                Patch(usm, "to_psd", lambda X, **kw: (X + X.conj().swapaxes(-1, -2)) / 2),
                Patch(usm, "_psd_inv", lambda X, **kw: np.linalg.inv(X)),
            ]
        Y0, P0 = Y.copy(), P.copy()

        def fl(x, last=None):
            last = len(calls) == K if last is None else last
            return x if ctx.mode == "num" or last else 0 * x + 1.5

        with Many(patches):
            kw = {"flooring_fn": fl} if ctx.mode == "sym" else {}
            Z = usm.update_by_ipa(Y, P, normalization=norm, max_iter=60, **kw)
        ctx.same(Y, Y0, "separated untouched")
        ctx.same(P, P0, "weight untouched")
        ctx.check(Z.shape == Y.shape, "shape")
        R = Y0
        for n in range(K):
            def solve(H, v, z):
                return solve_secular(H, v, z) if ctx.mode == "num" else calls[n][3].conj()

            R, (H, v, z) = ref_step(ctx, R, P0, n, solve, lambda x: fl(x, n == K - 1))
            if ctx.mode == "sym":
                Hc, vc, zc, _ = calls[n]
                ctx.zero(Hc * z[:, None, None] - H.conj() * zc[:, None, None], "quadratic form over offset")
                ctx.zero(Hc[:, :1, :1] * H.conj() - Hc * H.conj()[:, :1, :1], "quadratic form up to scale")
                ctx.zero(vc - v.conj(), "linear term")
        ctx.zero(Z - R, "exact coordinate step")
        ctx.eq(mom(P0[K - 1], Z[K - 1], Z[K - 1]), 1, "unit weighted power")
        for m in range(K - 1):
            ctx.zero(mom(P0[K - 1], Z[K - 1], Z[m]), "optimal row given the steering coefficients")

    return run


def psd_inv(n, nb):
    def run(ctx):
        phi, _, _ = given(ctx, n, nb)
        V = unitary(ctx, "V", n, (nb,), True)
        H = V @ (phi[:, :, None] * ctx.H(V))
        for b in range(nb if ctx.mode == "sym" else 0):
            ctx.register_eigh(H[b], phi[b], V[b])
        ctx.eq(usm._psd_inv(H) @ H, np.broadcast_to(np.eye(n), (nb, n, n)), "inverse")
        ctx.eq(usm._psd_inv(H, flooring_fn=lambda x: 2 * x) @ H, 0.5 * np.broadcast_to(np.eye(n), (nb, n, n)), "flooring applied to the eigenvalues")

    return run


class Many:
    def __init__(self, ps):
        self.ps = ps

    def __enter__(self):
        for p in self.ps:
            p.__enter__()

    def __exit__(self, *a):
        for p in self.ps:
            p.__exit__()


def harnesses(tier):
    fork = {"policy": {"clamp": False}, "max_paths": 64, "debug": 1}
    op = {"policy": {"clamp": False, "floor": "inactive"}, "max_paths": 64}
    ip = {"policy": {"floor": "inactive", "eq": "generic"}, "noval": True}
    hs = [("largest-" + k, largest(k), fork) for k in ("three", "double", "single", "monotonic", "zero")]
    hs += [("eq1", eq1(1, 1, True), fork), ("eq1-nonorm", eq1(1, 1, False), fork), ("eq1-3", eq1(2, 3, True), fork),
           ("lq1", lq1(1, 1), fork), ("lq1-2", lq1(2, 3), fork), ("mixed", mixed, fork), ("defaults", defaults, {"policy": {"floor": "inactive"}})]
    hs += [("newton2", newton(2, [0, 1], 1), fork), ("newton2-rev", newton(2, [1, 0], 1), fork), ("newton2-top", newton(2, [0, 1], 1, free="top"), fork), ("newton2-2", newton(2, [0, 1], 2, free="w"), fork), ("newton3", newton(3, [2, 0, 1], 1), fork), ("newton2-w", newton(2, [1, 0], 1, free="w"), fork), ("newton2-r", newton(2, [0, 1], 1, free="r"), fork), ("newton3-w", newton(3, [1, 2, 0], 1, free="w"), fork),
           ("newton2-nonorm", newton(2, [0, 1], 1, False), fork)]
    for c in ("regular", "hard-below", "hard-above"):
        for n, nb in ((2, 1), (3, 1), (2, 2)):
            hs.append((f"lq{n}-{c}-{nb}", lqn(n, nb, c), op))
    for c in ("above", "below"):
        for n, nb in ((1, 2), (2, 1), (3, 1)):
            hs.append((f"singular{n}-{c}", singular(n, nb, c), {**op, "strict": True}))
        hs.append((f"singular2-{c}-nofloor", singular(2, 1, c, {"flooring_fn": None}), {**op, "points": 8, "strict": True}))
        hs.append((f"singular2-{c}-default", singular(2, 1, c, {}), {**op, "strict": True}))
    hs += [("ipa2", ipa(2, 1, 0, 0, 1, True), ip), ("ipa2-w", ipa(2, 1, 1, 0, 1, True), ip), ("ipa2-y", ipa(2, 1, 0, 1, 1, True, 2), ip),
           ("ipa2-bins", ipa(2, 2, 0, 0, 1, False), ip), ("ipa3", ipa(3, 1, 0, 0, 2, True), ip), ("ipa3-w", ipa(3, 1, 1, 0, 1, True, 3), ip),
           ("ipa3-nonorm", ipa(3, 1, 0, 0, 1, False, 3), ip), ("ipa4", ipa(4, 1, 0, 0, 1, True), ip)]
    hs += [("psd-inv2", psd_inv(2, 2), ip), ("psd-inv3", psd_inv(3, 1), ip)]
    return hs
