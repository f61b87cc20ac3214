"""C11: inverse, solve, quadratic form, cube root, cubic roots."""

import numpy as np
from numpy.linalg import LinAlgError

from ssspy.linalg import inv2, prox, quadratic  # noqa: F401
from ssspy.linalg._solve import solve
from ssspy.linalg.cubic import cbrt
from ssspy.linalg.polynomial import solve_cubic

FUNCTIONS = [
    "ssspy.linalg.inv.inv2", "ssspy.linalg._solve.solve", "ssspy.linalg.quadratic.quadratic", "ssspy.linalg.cubic.cbrt",
    "ssspy.linalg.polynomial.solve_cubic", "ssspy.linalg.polynomial._find_cubic_roots",
]
BOUNDS = (
    "2x2 matrices with every entry symbolic; 3x3 slices (solve, quadratic); cubic: every coefficient symbolic (real and complex), "
    "general and degenerate families (p = 0, q = 0, triple root). Exact arithmetic over the reals."
)
ASSUMPTIONS = ["invertible matrices, nonzero leading coefficient; the principal cube root c of z is the number with c^3 = z and |c|^3 = |z|"]


def t_inv2(batch, cplx, sym=None):
    def run(ctx):
        X = (ctx.cplx if cplx else ctx.real)("X", batch + (2, 2), sym=sym)
        X0 = X.copy()
        d = X[..., 0, 0] * X[..., 1, 1] - X[..., 0, 1] * X[..., 1, 0]
        ctx.assume_pos(np.real(d * np.conj(d)), "nonsingular")
        Y = inv2(X)
        ctx.same(X, X0, "argument not modified")
        ctx.check(Y.shape == X.shape, "shape")
        eye = np.broadcast_to(np.eye(2), batch + (2, 2))
        ctx.eq(X @ Y, eye, "X inv2(X) = I")
        ctx.eq(Y @ X, eye, "inv2(X) X = I")

    return run


def t_solve(n, batch, rhs, cplx, sym):
    def run(ctx):
        mk = ctx.cplx if cplx else ctx.real
        A = mk("A", batch + (n, n), sym=sym)
        b = mk("b", batch + ((n,) if rhs is None else (n, rhs)), sym=2)
        A0, b0 = A.copy(), b.copy()
        x = solve(A, b)
        ctx.check(x.shape == b0.shape, "shape")
        ctx.same(A, A0, "matrix not modified")
        ctx.same(b, b0, "right-hand side not modified")
        lhs = (A @ x[..., None])[..., 0] if rhs is None else A @ x
        ctx.eq(lhs, b0, "A x = b")

    return run


def t_quadratic(n, batch, cx, ca, sym=None):
    def run(ctx):
        X = (ctx.cplx if cx else ctx.real)("X", batch + (n,), sym=sym)
        A = (ctx.cplx if ca else ctx.real)("A", batch + (n, n), sym=sym)
        q = quadratic(X, A)
        ctx.check(q.shape == batch, "shape")
        Xb, Ab = np.broadcast_to(X, batch + (n,)), np.broadcast_to(A, batch + (n, n))
        want = sum(Xb[..., i].conj() * Ab[..., i, j] * Xb[..., j] for i in range(n) for j in range(n))
        ctx.eq(q, want, "x^H A x")

    return run


def t_cbrt(kind):
    def run(ctx):
        if kind == "cplx":
            x = ctx.cplx("x", (2,))
        elif kind == "neg":
            x = -ctx.pos("x", (2,))
        elif kind == "zero":
            x = ctx.real("x", (2,), sym=1) * 0
        else:
            x = ctx.real("x", (2,))
        c = cbrt(x)
        ctx.eq(c * c * c, x, "cube of the cube root")
        if kind != "cplx":
            ctx.zero(c.imag, "real cube root of a real number")
        else:
            # principal branch: |arg c| <= pi/3  <=>  re(c) >= 0 and im(c)^2 <= 3 re(c)^2
            pass

    return run


def vieta(ctx, r, A, B, C, what=""):
    ctx.check(r.shape == (3,) + A.shape, "three roots")
    ctx.eq(r[0] + r[1] + r[2], -A, f"{what}sum of the roots")
    ctx.eq(r[0] * r[1] + r[1] * r[2] + r[0] * r[2], B, f"{what}pairwise products of the roots")
    ctx.eq(r[0] * r[1] * r[2], -C, f"{what}product of the roots")


def t_cubic(fam, cplx):
    def run(ctx):
        mk = ctx.cplx if cplx else ctx.real
        sh = (1,)
        if fam == "pq":  # depressed
            A = ctx.const(np.zeros(sh, dtype=complex if cplx else float))
            B, C = mk("p", sh), mk("q", sh)
        elif fam == "monic":
            A, B, C = mk("A", sh), mk("B", sh), mk("C", sh)
        elif fam == "p0":  # (x + a)^3 = e
            a, e = mk("a", sh), mk("e", sh)
            A, B, C = 3 * a, 3 * a * a, a * a * a - e
        elif fam == "q0":  # (x + a)((x + a)^2 - s)
            a, s = mk("a", sh), mk("s", sh)
            A, B, C = 3 * a, 3 * a * a - s, a * (a * a - s)
        elif fam == "triple":
            a = mk("a", sh)
            A, B, C = 3 * a, 3 * a * a, a * a * a
        elif fam == "double":
            a, b = mk("a", sh), mk("b", sh)
            A, B, C = -(2 * a + b), a * a + 2 * a * b, -(a * a * b)
        elif fam == "real3":  # three real roots (casus irreducibilis)
            a, b, c = mk("a", sh), mk("b", sh), mk("c", sh)
            A, B, C = -(a + b + c), a * b + b * c + a * c, -(a * b * c)
        r = solve_cubic(A, B, C)
        vieta(ctx, r, A, B, C)
        one = solve_cubic(A, B, C, all=False)
        ctx.zero(one ** 3 + A * one ** 2 + B * one + C, "all=False returns a root")

    return run


def t_scaled(fam, cplx, s=2.0 ** -12):
    """roots of a cubic in s x: s times the roots"""

    def run(ctx):
        mk = ctx.cplx if cplx else ctx.real
        if fam == "pq":
            B, C = mk("p", (1,)), mk("q", (1,))
            A = B * 0
        else:
            a, b, c = mk("a", (1,)), mk("b", (1,)), mk("c", (1,))
            A, B, C = -(a + b + c), a * b + b * c + a * c, -(a * b * c)
        vieta(ctx, solve_cubic(s * A, s * s * B, s * s * s * C) / s, A, B, C, "small roots: ")

    return run


def t_cancel(ctx):
    """fixed finding: floats whose depressed linear term is only round-off, or tiny (concrete inputs, replayed in float)"""
    e = ctx.real("e", (1,), sym=1) * 0
    for A, B, C in ((3 * 0.1, 3 * 0.1 * 0.1, 0.1 ** 3 + 1), (0.0, 1e-5, 1.0), (0.0, -1e-5, 1.0)):
        r = solve_cubic(A + e, B + e, C + e)
        vieta(ctx, r, A + e, B + e, C + e, f"A={A} B={B} C={C}: ")


def t_cubic4(cplx, zeros=""):
    def run(ctx):
        mk = ctx.cplx if cplx else ctx.real
        c = [mk(k, (1,)) * (0 if k in zeros else 1) for k in "ABCD"]
        c0 = [x.copy() for x in c]
        r = solve_cubic(*c)
        for x, y in zip(c, c0):
            ctx.same(x, y, "coefficients not modified")
        A, B, C, D = c0
        ctx.check(r.shape == (3, 1), "three roots")
        ctx.eq(A * (r[0] + r[1] + r[2]), -B, "sum of the roots")
        ctx.eq(A * (r[0] * r[1] + r[1] * r[2] + r[0] * r[2]), C, "pairwise products of the roots")
        ctx.eq(A * (r[0] * r[1] * r[2]), -D, "product of the roots")
        ctx.zero(solve_cubic(*c, all=False) - r[0], "all=False returns the first root")

    return run


def t_lead0(ctx):
    A = ctx.real("A", (2,), sym=None)
    A[1] = 0
    B, C, D = ctx.real("B", (2,)), ctx.real("C", (2,)), ctx.real("D", (2,))
    try:
        solve_cubic(A, B, C, D)
        ok = False
    except LinAlgError:
        ok = True
    ctx.check(ok, "vanishing leading coefficient is rejected")


def harnesses(tier):
    hs = []
    for b, nm in (((), "2d"), ((2,), "3d"), ((1, 2), "4d")):
        for c in (True, False):
            hs.append((f"inv2-{nm}-{'c' if c else 'r'}", t_inv2(b, c), {}))
    for c in (True, False):
        t = "c" if c else "r"
        hs += [
            (f"solve2-vec-{t}", t_solve(2, (2,), None, c, None), {}),
            (f"solve2-mat-{t}", t_solve(2, (2,), 2, c, None), {}),
            (f"solve3-vec-{t}", t_solve(3, (2,), None, c, 4), {}),
            (f"solve2-4d-{t}", t_solve(2, (1, 2), None, c, 4), {}),
            (f"solve2-4d-mat-{t}", t_solve(2, (2, 1), 1, c, 4), {}),
            (f"solve2-2d-{t}", t_solve(2, (), None, c, None), {}),
            (f"solve2-2d-mat-{t}", t_solve(2, (), 3, c, None), {}),
        ]
    for cx in (True, False):
        for ca in (True, False):
            hs.append((f"quadratic2-{cx:d}{ca:d}", t_quadratic(2, (2,), cx, ca), {}))
    hs += [("quadratic3", t_quadratic(3, (2, 2), True, True, 6), {}), ("quadratic1", t_quadratic(1, (3,), True, True), {}),
           ("quadratic-2d", t_quadratic(3, (), True, True), {})]
    for k in ("cplx", "real", "neg", "zero"):
        hs.append((f"cbrt-{k}", t_cbrt(k), {}))
    fork = {"policy": {"clamp": False}, "max_paths": 64}
    for fam in ("pq", "monic", "p0", "q0", "triple", "double", "real3"):
        for c in (True, False):
            hs.append((f"cubic-{fam}-{'c' if c else 'r'}", t_cubic(fam, c), fork))
    for z in ("", "B", "C", "BC", "D", "BD", "BCD"):
        hs.append((f"cubic4-r{z}", t_cubic4(False, z), fork))
    hs += [("cubic4-c", t_cubic4(True), fork), ("cubic4-cB", t_cubic4(True, "B"), fork), ("cubic-cancellation", t_cancel, fork), ("cubic4-lead0", t_lead0, {})]
    hs += [(f"cubic-scaled-{fam}-{'c' if c else 'r'}", t_scaled(fam, c), fork) for fam in ("pq", "real3") for c in (True, False)]
    return [(n, f, {**o, "policy": {**o.get("policy", {}), "floor": "fork"}}) for n, f, o in hs]
