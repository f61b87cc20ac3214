"""C14: permutation solvers."""

import itertools

import numpy as np

from ssspy.algorithm.permutation_alignment import correlation_based_permutation_solver, score_based_permutation_solver

from .models import make

FUNCTIONS = [
    "ssspy.algorithm.permutation_alignment.correlation_based_permutation_solver",
    "ssspy.algorithm.permutation_alignment.score_based_permutation_solver",
    "FDICABase.solve_permutation / solve_permutation_by_correlation", "CACGMMBase.solve_permutation_by_score / _by_correlation",
]
BOUNDS = (
    "2-3 sources, 2-4 bins, 1-4 frames, 0-3 companion arrays; every ordering of the data-dependent comparisons (all branches) for arbitrary data at 2-6 "
    "symbolic entries; alignment: every common spectrogram / every affine family of normalised sequences, every source permutation per bin. Exact arithmetic."
)
ASSUMPTIONS = ["flooring inactive (no silent time-frequency point, no constant sequence)", "local_iter, global_iter >= 1"]
FORK = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic"}, "max_paths": 400, "timeout": 8}
# comparisons of generic data: sums are named, every combination of outcomes is explored
GEN = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic", "dag": 2, "opaque": ("inv", "eigh")}, "max_paths": 600, "timeout": 8}
FOLLOW = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic", "dag": 2, "follow": True}, "max_paths": 50, "timeout": 8}
SOLVERS = {"corr": correlation_based_permutation_solver, "score": score_based_permutation_solver}


def tags(ctx, nb, n):
    """companion array that records which source went where"""
    return ctx.const(np.tile(np.arange(n, dtype=float)[None, :, None], (nb, 1, 1)))


def read(t):
    return [[int(round(float(np.real(complex(x))))) for x in row] for row in np.asarray(t)[..., 0].tolist()]


def consistent(solver, n, nb, T, sym, ncomp, overwrite, cplx=True, **kw):
    def run(ctx):
        Y = (ctx.cplx if cplx else ctx.real)("Y", (nb, n, T), sym=sym)
        comps = [ctx.real(f"c{k}", (nb, n) + (2,) * k, sym=2) for k in range(ncomp)]
        tag = tags(ctx, nb, n)
        args = comps + [tag]
        Y0, args0 = Y.copy(), [a.copy() for a in args]
        k = dict(kw)
        if overwrite is not None:
            k["overwrite"] = overwrite
        out, rest = SOLVERS[solver](Y, *args, **k)
        if len(args) == 1:
            rest = (rest,)
        ctx.check(len(rest) == len(args), "one result per companion")
        perm = read(rest[-1])
        for i in range(nb):
            ctx.check(sorted(perm[i]) == list(range(n)), "a permutation of the sources in every bin")
            ctx.same(out[i], Y0[i, perm[i]], "sequence permuted")
            for a, b in zip(rest, args0):
                ctx.same(a[i], b[i, perm[i]], "companions permuted identically")
        if overwrite is False:
            ctx.same(Y, Y0, "sequence not modified without overwrite")
            for a, b in zip(args, args0):
                ctx.same(a, b, "companions not modified without overwrite")
        else:
            ctx.same(Y, out, "sequence receives the result with overwrite")
            for a, b in zip(args, rest):
                ctx.same(a, b, "companions receive the result with overwrite")

    return run


def score_local(case, nb, overwrite, ncomp=1, **kw):
    """data for which the local stage applies a cyclic (not self-inverse) reordering; one entry symbolic"""
    base = np.round(np.random.RandomState(case).uniform(-2, 2, (nb, 3, 3)) * 8) / 8

    def run(ctx):
        e = np.zeros((nb, 3, 3))
        e[0, 0, 0] = 0.125
        Y = ctx.const(base) + ctx.const(e) * ctx.real("y", (1, 1, 1), lo=0.125, hi=0.25)
        comps = [ctx.real(f"c{k}", (nb, 3) + (2,) * (k % 3), sym=4) for k in range(1, ncomp + 1)]
        tag = tags(ctx, nb, 3)
        Y0, c0 = Y.copy(), [c.copy() for c in comps]
        out, (*rest, tag) = score_based_permutation_solver(Y, *comps, tag, overwrite=overwrite, **kw)
        perm = read(tag)
        for i in range(nb):
            ctx.check(sorted(perm[i]) == [0, 1, 2], "a permutation of the sources in every bin")
            ctx.same(out[i], Y0[i, perm[i]], "sequence permuted")
            for c, c_ in zip(rest, c0):
                ctx.same(c[i], c_[i, perm[i]], "companion permuted identically")

    return run


def plain(solver, n, nb, T, sym, ncomp):
    """number of returned arrays, rejection of wrong shapes"""
    def run(ctx):
        Y = ctx.real("Y", (nb, n, T), sym=sym)
        comps = [ctx.real(f"c{k}", (nb, n), sym=1) for k in range(ncomp)]
        out = SOLVERS[solver](Y, *comps)
        if ncomp == 0:
            ctx.check(out.shape == (nb, n, T), "a single array without companions")
        elif ncomp == 1:
            ctx.check(len(out) == 2 and out[1].shape == (nb, n), "two arrays with one companion")
        else:
            ctx.check(len(out) == 2 and len(out[1]) == ncomp, "tuple of companions")
        try:
            SOLVERS[solver](Y, ctx.real("bad", (nb, n + 1), sym=1))
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, "companion of the wrong shape is rejected")

    return run


def mag(Y):
    P = np.abs(Y)
    return P / np.sqrt(np.sum(P * P, axis=1, keepdims=True))


def distinct(ctx, P):
    for i in range(len(P)):
        for j in range(i):
            ctx.assume_pos(np.sum((P[i] - P[j]) ** 2), "sources differ")


def corr_aligned(n, nb, T, perms, sym, gains=True, kw=None):
    """bins that agree up to source order (and a gain per frame) end in one common order"""
    def run(ctx):
        B = ctx.pos("B", (n, T), sym=sym)
        Y = []
        for i in range(nb):
            g = ctx.pos(f"g{i}", (T,), sym=1 if gains else 0)
            Y.append(B[list(perms[i])] * g)
        Y = np.stack(Y, axis=0)
        distinct(ctx, mag(B[None])[0])
        tag = ctx.const(np.array(perms, dtype=float)[..., None])
        _, tag = correlation_based_permutation_solver(Y, tag, **(kw or {}))
        r = read(tag)
        ctx.check(all(x == r[0] for x in r), "one common source order")

    return run


def corr_greedy(n, nb, T, sym):
    """each bin, in order of increasing self-correlation, gets the best order against the bins aligned before"""
    def run(ctx):
        Y = ctx.pos("Y", (nb, n, T), sym=sym)
        tag = tags(ctx, nb, n)
        P = mag(Y.copy())
        out, tag = correlation_based_permutation_solver(Y, tag, overwrite=False)
        perm = read(tag)
        crit = [np.sum(P[i].sum(axis=0) ** 2) for i in range(nb)]
        order = list(np.argsort(np.stack(crit)))
        order = [int(k) for k in order]
        ctx.check(perm[order[0]] == list(range(n)), "first bin keeps its order")
        acc = P[order[0]]
        for k in order[1:]:
            Q = P[k]
            got = np.sum(acc * Q[perm[k]])
            for p in itertools.permutations(range(n)):
                ctx.ge(got, np.sum(acc * Q[list(p)]), "order with the largest correlation to the aligned bins")
            acc = acc + Q[perm[k]]

    return run


def pair_optimal(n, T, sym):
    """two bins: the final relative order maximises the correlation, whatever bin is the reference"""
    def run(ctx):
        Y = ctx.pos("Y", (2, n, T), sym=sym)
        out = correlation_based_permutation_solver(Y, overwrite=False)
        P = mag(out)
        got = np.sum(P[0] * P[1])
        for p in itertools.permutations(range(n)):
            ctx.ge(got, np.sum(P[0] * P[1][list(p)]), "relative order maximises the correlation")

    return run


E1, E2 = np.array([1.0, -1, 1, -1]), np.array([1.0, 1, -1, -1])


def score_aligned(n, nb, perms, sym_affine=1, **kw):
    """sequences that agree up to mean, scale and source order: a majority order is adopted by all bins"""
    def run(ctx):
        u = ctx.unim("u", (n,))
        base = np.real(u)[:, None] * E1 + np.imag(u)[:, None] * E2  # zero mean, unit variance
        Y = []
        for i in range(nb):
            a = ctx.real(f"a{i}", (n, 1), sym=sym_affine)
            s = ctx.pos(f"s{i}", (n, 1), sym=sym_affine)
            Y.append(a + s * base[list(perms[i])])
        Y = np.stack(Y, axis=0)
        distinct(ctx, np.stack([np.real(u), np.imag(u)], axis=-1))
        tag = ctx.const(np.array(perms, dtype=float)[..., None])
        _, tag = score_based_permutation_solver(Y, tag, **kw)
        r = read(tag)
        ctx.check(all(x == list(perms[0]) for x in r), "majority order adopted, aligned bins unchanged")

    return run


def fdica(name, nb, T, sym):
    def run(ctx):
        X = ctx.cplx("X", (2, nb, T), sym=sym)
        W = ctx.cplx("W", (nb, 2, 2), sym=2)
        m = make(name, ctx, permutation_alignment=True, scale_restoration=False)
        out = m(X.copy(), n_iter=0, demix_filter=W.copy())
        V = m.demix_filter
        ctx.eq((V @ X.transpose(1, 0, 2)).transpose(1, 0, 2), out, "output is the permuted filter applied to the input")
        for i in range(nb):
            same = np.sum((V[i] - W[i]) * (V[i] - W[i]).conj())
            swap = np.sum((V[i] - W[i][::-1]) * (V[i] - W[i][::-1]).conj())
            ctx.zero(same * swap, "rows are only reordered")
        P = mag(out.transpose(1, 0, 2))
        if nb == 2:
            ctx.ge(np.sum(P[0] * P[1]), np.sum(P[0] * P[1][::-1]), "relative order maximises the correlation")

    return run


def cacgmm(mode, nb, T, **kw):
    def run(ctx):
        X = ctx.cplx("X", (2, nb, T), sym=2)
        m = make("CACGMM:", ctx, permutation_alignment=mode, **kw)
        m.input = X
        m._reset(flooring_fn=m.flooring_fn)
        g = ctx.pos("gam", (nb, T), sym=3, lo=0.1, hi=0.9)
        gam = np.stack([g, 1 - g], axis=0)
        ctx.assume_pos(1 - g)
        m.posterior = gam.copy()
        a0, B0, g0 = m.mixing.copy(), m.covariance.copy(), gam
        m.solve_permutation(flooring_fn=m.flooring_fn)
        for i in range(nb):
            sq = lambda z: np.sum(np.real(z * z.conj()))  # noqa: E731
            d = [
                sq(m.mixing[p, i] - a0[:, i]) + sq(m.covariance[p, i] - B0[:, i]) + sq(m.posterior[p, i] - g0[:, i])
                for p in ([0, 1], [1, 0])
            ]
            ctx.zero(d[0] * d[1], "mixing weights, covariances and responsibilities permuted identically")
        ctx.eq(m.output, m.posterior * X[0], "output follows the permuted responsibilities")

    return run


def harnesses(tier):
    hs = []
    for s in ("corr", "score"):
        T = 2 if s == "corr" else 3
        nb3 = 2 if s == "corr" else 1
        loc = {} if s == "corr" else {"local_iter": 0}
        for nc in (0, 1, 2):
            hs.append((f"{s}-returns-{nc}", plain(s, 2, 2, T, 1, nc), GEN))
        for ov in (True, False, None):
            hs.append((f"{s}-consistent-n2-{ov}", consistent(s, 2, 2, T, 2, 2, ov, s == "corr"), GEN))
        hs += [
            (f"{s}-consistent-1comp", consistent(s, 2, 3, T, 2, 0, False, s == "corr"), GEN),
            (f"{s}-consistent-3comp", consistent(s, 2, 2, T, 2, 3, True, s == "corr"), GEN),
            (f"{s}-consistent-5comp", consistent(s, 2, 2, T, 2, 5, False, s == "corr"), GEN),
            (f"{s}-consistent-n3", consistent(s, 3, nb3, T, 1, 1, True, s == "corr", **loc), GEN),
            (f"{s}-consistent-n3-copy", consistent(s, 3, nb3, T, 1, 1, False, s == "corr", **loc), GEN),
        ]
    hs += [
        ("score-consistent-iters", consistent("score", 2, 2, 3, 2, 1, True, False, global_iter=2, local_iter=2), GEN),
        ("score-consistent-noloc", consistent("score", 2, 3, 3, 2, 1, False, False, local_iter=0), GEN),
    ]
    for k, (nb, case) in enumerate(((4, 6), (4, 16), (4, 20), (5, 7), (5, 20), (5, 32))):
        hs.append((f"score-cyclic-{nb}-{case}", score_local(case, nb, case % 2 == 0, 1 + k % 4, local_iter=1 + case % 3 // 2), FOLLOW))
    s2 = [(0, 1), (1, 0)]
    for k, p in enumerate(itertools.product(s2, repeat=2)):
        hs.append((f"corr-aligned-2-{k}", corr_aligned(2, 2, 2, p, 4), FORK))
    for k, p in enumerate(itertools.product(s2, repeat=2)):
        hs.append((f"corr-aligned-3-{k}", corr_aligned(2, 3, 2, (s2[0],) + p, 3), FORK))
    s3 = list(itertools.permutations(range(3)))
    for k in range(6):
        hs.append((f"corr-aligned-n3-{k}", corr_aligned(3, 2, 1, (s3[0], s3[k]), 3, False), FORK))
    hs.append(("corr-aligned-n3-noflooring", corr_aligned(3, 2, 2, (s3[0], s3[3]), 2, False, {"flooring_fn": None}), FORK))
    hs += [
        ("corr-pair-optimal", pair_optimal(2, 2, 3), GEN), ("corr-pair-optimal-n3", pair_optimal(3, 1, 2), GEN),
        ("corr-greedy-3bins", corr_greedy(2, 3, 1, 2), FORK),
        ("corr-greedy-n3", corr_greedy(3, 2, 1, 2), FORK),
    ]
    for k, p in enumerate([(0, 0, 0), (0, 1, 0), (0, 0, 1)]):
        hs.append((f"score-aligned-{k}", score_aligned(2, 3, [s2[i] for i in p]), FORK))
    hs += [
        ("score-aligned-5bins", score_aligned(2, 5, [s2[i] for i in (0, 0, 1, 0, 0)]), FORK),
        ("score-aligned-iter2", score_aligned(2, 3, [s2[i] for i in (1, 0, 1)], global_iter=2, local_iter=2), FORK),
        ("fdica-2bins", fdica("GradFDICA:", 2, 1, 2), GEN), ("fdica-aux", fdica("AuxFDICA:IP1", 2, 1, 1), GEN),
        ("fdica-3bins", fdica("NaturalGradFDICA:", 3, 1, 1), GEN),
        ("cacgmm-posterior", cacgmm(True, 2, 3), GEN), ("cacgmm-amplitude-score", cacgmm("amplitude_score", 2, 3), GEN),
        ("cacgmm-amplitude-corr", cacgmm("amplitude_correlation", 2, 1), GEN),
    ]
    return hs
