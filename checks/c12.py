"""C12: proximal operators."""

import numpy as np

from ssspy.linalg import prox

FUNCTIONS = ["ssspy.linalg.prox.l1", "ssspy.linalg.prox.l21", "ssspy.linalg.prox.neg_log", "ssspy.linalg.prox.neg_logdet"]
BOUNDS = (
    "elementwise operators: 1-4 free elements; l21: groups of 1-3 elements, every layout of the array up to 2x2x2; neg_logdet: 1x1 and 2x2 "
    "(every entry of the unitary factors and singular values symbolic), batches, 3x3 with rotations in one plane. Every positive step size. Exact arithmetic."
)
ASSUMPTIONS = ["neg_logdet: nonsingular and zero singular values; the input is given by its singular value decomposition (every matrix has one)"]
FORK = {"policy": {"clamp": False, "eq": "fork", "floor": "fork"}, "max_paths": 64}


def shrink_optimal(ctx, z, out, norm_z2, inner, step):
    """x = prox_{step |.|}(z)  <=>  |z - x| <= step  and  <z - x, x> = step |x|   (per group)."""
    d2, n2, ip = norm_z2(z - out), norm_z2(out), inner(z - out, out)
    ctx.ge(step * step, d2, "distance to the input at most the step size")
    ctx.ge(ip, 0, "output points towards the input")
    ctx.eq(ip * ip, step * step * n2, "optimality of the nonzero outputs")


def t_l1(shape, cplx, where=None, defstep=False):
    def run(ctx):
        z = (ctx.cplx if cplx else ctx.real)("z", shape)
        if where == "zero":
            z = z * 0
        step = 1 if defstep else ctx.pos("s", ())[()]
        if where == "boundary":
            z = ctx.unim("u", shape) * step if cplx else z * 0 + step
        z0 = z.copy()
        out = prox.l1(z) if defstep else prox.l1(z, step_size=step)
        ctx.same(z, z0, "argument not modified")
        ctx.check(out.shape == z0.shape, "shape")
        shrink_optimal(ctx, z0, out, lambda a: np.real(a * a.conj()), lambda a, b: np.real(a * b.conj()), step)
        if cplx:
            ctx.zero(np.imag(out * z0.conj()), "phase preserved")
        if where in ("boundary", "zero"):
            ctx.zero(out, "threshold and zero map to zero")

    return run


def t_l21(shape, axis2, cplx, sym=None, where=None, defstep=False, axis1=None):
    def run(ctx):
        z = (ctx.cplx if cplx else ctx.real)("z", shape, sym=sym)
        step = 1 if defstep else ctx.pos("s", ())[()]
        if where == "zero":
            z = z * 0
        if where == "boundary":  # one group of (3, 4)/5 step
            z = np.stack([ctx.unim("u", (1,)) * 3 * step / 5, ctx.unim("v", (1,)) * 4 * step / 5], axis=-1)
        kw = {} if axis2 is None else {"axis2": axis2}
        if axis1 is not None:
            kw["axis1"] = axis1
        if not defstep:
            kw["step_size"] = step
        ax = -1 if axis2 is None else axis2
        z0 = z.copy()
        out = prox.l21(z, **kw)
        ctx.same(z, z0, "argument not modified")
        ctx.check(out.shape == z0.shape, "shape")
        shrink_optimal(
            ctx, z0, out, lambda a: np.sum(np.real(a * a.conj()), axis=ax), lambda a, b: np.sum(np.real(a * b.conj()), axis=ax), step
        )
        if where in ("boundary", "zero"):
            ctx.zero(out, "threshold and zero map to zero")

    return run


def t_neglog(shape, zero=False, defstep=False):
    def run(ctx):
        x = ctx.pos("x", shape) * (0 if zero else 1)
        step = 1 if defstep else ctx.pos("s", ())[()]
        x0 = x.copy()
        out = prox.neg_log(x) if defstep else prox.neg_log(x, step_size=step)
        ctx.same(x, x0, "argument not modified")
        ctx.gt(out, 0, "positive output")
        ctx.eq((out - x0) * out, step + 0 * x0, "output - input = step / output")

    return run


def t_neglog_reject(ctx):
    x = -ctx.pos("x", (2,))
    try:
        prox.neg_log(x)
        ok = False
    except AssertionError:
        ok = True
    ctx.check(ok, "negative input is rejected")


def unitary(ctx, name, n, batch, cplx):
    """rotation in the first coordinate plane times phases (all of U(2) resp. SO(2) for n = 2)."""
    b = tuple(batch)
    u = ctx.unim(name, b)  # c + i s
    c, s = np.real(u), np.imag(u)
    one, zero = c * 0 + 1, c * 0
    rows = []
    for i in range(n):
        row = []
        for j in range(n):
            if i < 2 and j < 2 and n > 1:
                row.append([[c, -s], [s, c]][i][j])
            else:
                row.append(one if i == j else zero)
        rows.append(np.stack(row, axis=-1))
    Q = np.stack(rows, axis=-2)
    if cplx:
        p, q = ctx.unim(name + "p", b + (n,)), ctx.unim(name + "q", b + (n,))
        Q = p[..., :, None] * Q * q[..., None, :]
    return Q


def t_logdet(n, batch, cplx, defstep=False, singular=False):
    def run(ctx):
        U, V = unitary(ctx, "U", n, batch, cplx), unitary(ctx, "V", n, batch, cplx)
        s = ctx.pos("sv", tuple(batch) + (n,))
        step = 1 if defstep else ctx.pos("step", ())[()]
        if singular:
            s = s * (np.arange(n) < n - 1)
        X = (U * s[..., None, :]) @ V
        if ctx.mode == "sym":
            for idx in np.ndindex(*tuple(batch)):
                ctx.register_svd(X[idx], U[idx], s[idx], V[idx])
        X0 = X.copy()
        out = prox.neg_logdet(X) if defstep else prox.neg_logdet(X, step_size=step)
        ctx.same(X, X0, "argument not modified")
        ctx.check(out.shape == X0.shape, "shape")
        eye = np.broadcast_to(np.eye(n), tuple(batch) + (n, n))
        ctx.eq((out - X0) @ ctx.H(out), step * eye, "(output - input) output^H = step I")
        ctx.eq(ctx.H(out) @ (out - X0), step * eye, "output^H (output - input) = step I")
        # positive definite in the frame of the singular vectors: minimiser, nonsingular
        D = ctx.H(U) @ out @ ctx.H(V)
        for i in range(n):
            if singular and i == n - 1:  # phase of this direction is arbitrary
                ctx.gt(np.real(D[..., i, i] * D[..., i, i].conj()), 0, "nonsingular")
            else:
                ctx.gt(np.real(D[..., i, i]), 0, "positive singular values")

    return run


def harnesses(tier):
    hs = [
        ("l1-c", t_l1((1,), True), FORK), ("l1-r", t_l1((2,), False), FORK), ("l1-c2", t_l1((2, 1), True), FORK),
        ("l1-default", t_l1((1,), True, defstep=True), FORK), ("l1-zero", t_l1((2,), True, "zero"), FORK),
        ("l1-boundary-c", t_l1((1,), True, "boundary"), FORK), ("l1-boundary-r", t_l1((1,), False, "boundary"), FORK),
        ("l21-c", t_l21((1, 2), None, True), FORK), ("l21-r", t_l21((1, 3), None, False), FORK), ("l21-1", t_l21((2, 1), -1, True), FORK),
        ("l21-axis0", t_l21((2, 2), 0, True, 3), FORK), ("l21-axis1", t_l21((2, 2), 1, True, 3), FORK),
        ("l21-3d-axis1", t_l21((1, 2, 2), 1, True, 3), FORK), ("l21-3d-axis-2", t_l21((2, 2, 1), -2, True, 3), FORK),
        ("l21-3d-axis0", t_l21((2, 1, 2), 0, False), FORK), ("l21-default", t_l21((1, 2), None, True, defstep=True), FORK),
        ("l21-zero", t_l21((1, 2), None, True, where="zero"), FORK), ("l21-boundary", t_l21((1, 2), None, True, where="boundary"), FORK),
        ("neg_log", t_neglog((2,)), {}), ("neg_log-zero", t_neglog((2,), True), {}), ("neg_log-default", t_neglog((1, 2), defstep=True), {}),
        ("neg_log-negative", t_neglog_reject, {}),
        ("neg_logdet-1", t_logdet(1, (1,), True), {}), ("neg_logdet-2c", t_logdet(2, (1,), True), {}),
        ("neg_logdet-2r", t_logdet(2, (1,), False), {}), ("neg_logdet-batch", t_logdet(2, (2,), True), {}),
        ("neg_logdet-2d", t_logdet(2, (), True), {}), ("neg_logdet-default", t_logdet(2, (1,), True, defstep=True), {}),
        ("neg_logdet-singular", t_logdet(2, (1,), True, singular=True), {"strict": True}), ("neg_logdet-3", t_logdet(3, (1,), True), {}),
    ]
    for sh in ((2, 1, 2), (1, 2, 2), (2, 2, 1)):
        for a1 in range(3):
            for a2 in range(3):
                if a1 != a2:
                    d = 3 if a2 == 2 and a1 == 0 else 0
                    hs.append((f"l21-{sh}-axes{a1 - d}{a2 - d}", t_l21(sh, a2 - d, bool(a1 % 2), 2, axis1=a1 - d), FORK))
    if tier == "thorough":
        hs += [("T-l1-4", t_l1((2, 2), True), FORK), ("T-l21-4", t_l21((1, 4), None, True), FORK),
               ("T-l21-groups", t_l21((3, 2), None, True), FORK), ("T-neg_logdet-3-batch", t_logdet(3, (2,), True), {})]
    return [(n, f, {**o, "policy": {**o.get("policy", {}), "floor": "fork"}}) for n, f, o in hs]
