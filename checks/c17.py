"""C17: pair selectors and the pairwise algorithms that use them."""

import itertools
import warnings

import numpy as np

from ssspy.bss import _select_pair as deprecated
from ssspy.bss._update_spatial_model import update_by_ip2, update_by_iss2
from ssspy.utils import select_pair

from .common import hpd
from .models import make

FUNCTIONS = [
    "ssspy.utils.select_pair.sequential_pair_selector", "ssspy.utils.select_pair.combination_pair_selector", "ssspy.bss._select_pair.*",
    "update_by_ip2 / update_by_iss2 through user-supplied selectors", "update_once of AuxFDICA, AuxIVA, GaussILRMA, TILRMA, GGDILRMA, FastGaussMNMF (pairwise algorithms)",
]
BOUNDS = (
    "selectors: 2-8 sources, every stop in [0, 12] or step in [1, 6] (both together: 2-5 sources, stop up to 7, step up to 3), sorted and unsorted, all as symbolic integers with loops unrolled; "
    "pairwise updates: 3 sources, one or two pairs, filters and covariances on slices"
)
ASSUMPTIONS = ["at least two sources"]
INT = {"engine": "int", "max_paths": 3000, "timeout": 20}
OPT = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic", "opaque": ("inv",)}, "warm": True}
DAG = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic", "dag": 2, "follow": True, "opaque": ("inv", "eigh")}, "max_paths": 20, "timeout": 8}


def pairs_of(gen, limit):
    out = []
    for p in gen:
        out.append(p)
        if len(out) > limit:
            break
    return out


def sequential(mod, sort, stop=None, step=None):
    def run(c):
        both = stop and step
        n = c.int("n", 2, 5 if both else 8)
        kw = {}
        s, d = n, 1
        if stop:
            s = kw["stop"] = c.int("stop", 0, 7 if both else 12)
        if step:
            d = kw["step"] = c.int("step", 1, 3 if both else 6)
        if sort is not None:
            kw["sort"] = sort
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = pairs_of(mod.sequential_pair_selector(n, **kw), 14)
        count = 0
        for k, (a, b) in enumerate(out):
            c.require(k * d < s, "no pair beyond the stop")
            c.require((0 <= a) and (a < n) and (0 <= b) and (b < n), "valid source indices")
            c.require(a != b, "two distinct sources")
            i, j = (k * d) % n, (k * d + 1) % n
            if sort:
                c.require(a < b, "increasing order")
                i, j = (j, i) if i > j else (i, j)
            c.eq(a, i, "k-th pair starts at k * step, cyclically")
            c.eq(b, j, "neighbour of the first source, cyclically")
            count += 1
        c.require(count * d >= s, "no pair missing before the stop")
        if not stop and not step:
            t = c.int("t", 0, 7)
            c.assume(t < n)
            seen = False
            for a, b in out:
                seen = (a == t) | (b == t) | seen if seen is not False else (a == t) | (b == t)
            c.require(seen, "every source is covered")

    return run


def combination(mod, sort):
    def run(c):
        n = c.int("n", 2, 8)
        kw = {} if sort is None else {"sort": sort}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = pairs_of(mod.combination_pair_selector(n, **kw), 40)
        for a, b in out:
            c.require((0 <= a) and (a < n) and (0 <= b) and (b < n), "valid source indices")
            c.require(a != b, "two distinct sources")
            if sort:
                c.require(a < b, "increasing order")
        c.eq(2 * len(out), n * (n - 1), "number of unordered pairs")
        for p, q in itertools.combinations(out, 2):
            c.require(not (p[0] == q[0] and p[1] == q[1]) and not (p[0] == q[1] and p[1] == q[0]), "each unordered pair once")

    return run


def sel(pairs, log=None):
    def selector(n_sources):
        if log is not None:
            log.append(n_sources)
        yield from pairs

    return selector


def ip2_rows(pairs):
    """rows outside the pairs stay, a sequence of pairs is the composition of the single steps"""
    def run(ctx):
        W = ctx.cplx("W", (1, 3, 3), sym=1)
        U = hpd(ctx, "U", 3, True, 1, (1, 3))
        log = []
        out = update_by_ip2(W, U, flooring_fn=lambda x: x, pair_selector=sel(pairs, log), overwrite=False)
        ctx.check(log and set(log) == {3}, "selector is asked for the number of sources")
        ref = W
        for p in pairs:
            ref = update_by_ip2(ref, U, flooring_fn=lambda x: x, pair_selector=sel([p]), overwrite=False)
        ctx.eq(out, ref, "one step per yielded pair, in order")
        for k in range(3):
            if all(k not in p for p in pairs):
                ctx.same(out[:, k], W[:, k], "other rows untouched")

    return run


def iss2_pairs(pairs):
    def run(ctx):
        Y = ctx.cplx("Y", (3, 1, 4), sym=1)
        r = ctx.pos("r", (3, 1, 4), sym=0)
        log = []
        out = update_by_iss2(Y, r, flooring_fn=lambda x: x, pair_selector=sel(pairs, log))
        ctx.check(log and set(log) == {3}, "selector is asked for the number of sources")
        ref = Y
        for p in pairs:
            ref = update_by_iss2(ref, r, flooring_fn=lambda x: x, pair_selector=sel([p]))
        ctx.eq(out, ref, "one step per yielded pair, in order")

    return run


CLASSES = ["AuxFDICA:IP2", "AuxIVA:IP2", "GaussILRMA:IP2", "TILRMA:IP2", "GGDILRMA:IP2", "FastGaussMNMF:IP2"]
CLASSES_ISS = ["AuxIVA:ISS2", "GaussILRMA:ISS2", "TILRMA:ISS2", "GGDILRMA:ISS2"]
SPATIAL = ["update_spatial_model", "update_spatial_model_ip2", "update_diagonalizer", "update_once_ip2"]


def by_class(name, pairs):
    """the class hands the user's selector to the pairwise update: the untouched row stays parallel to itself"""
    def run(ctx):
        n, nb, T = 3, 1, 4
        X = ctx.cplx("X", (n, nb, T), sym=1)
        log = []
        kw = {"pair_selector": sel(pairs, log)}
        if "FDICA" in name:
            kw["permutation_alignment"] = False
        m = make(name, ctx, scale_restoration=False, **kw) if "MNMF" not in name else make(name, ctx, **kw)
        if "MNMF" in name:
            m.input = X
            m._reset(flooring_fn=m.flooring_fn)
            W = m.diagonalizer.copy()
            m.update_spatial_model(flooring_fn=m.flooring_fn) if hasattr(m, "update_spatial_model") else None
            m.update_diagonalizer(flooring_fn=m.flooring_fn) if not log else None
            V = m.diagonalizer
        else:
            W = ctx.cplx("W", (nb, n, n), sym=1)
            m(X.copy(), n_iter=1, demix_filter=W.copy())
            V = m.demix_filter
        ctx.check(log and set(log) == {n}, "selector is asked for the number of sources")
        for k in range(n):
            if all(k not in p for p in pairs):
                for i in range(n):
                    for j in range(i):
                        ctx.eq(V[:, k, i] * W[:, k, j], V[:, k, j] * W[:, k, i], "row outside the pairs keeps its direction")

    return run


def by_class_iss(name, pairs):
    """pairwise steering leaves the sources outside the pair decorrelated steps only: selector is honoured exactly"""
    def run(ctx):
        n, nb, T = 3, 1, 4
        X = ctx.cplx("X", (n, nb, T), sym=0)
        W = ctx.cplx("W", (nb, n, n), sym=1)
        res = []
        for ps in (pairs, pairs[:1]):
            log = []
            m = make(name, ctx, scale_restoration=False, pair_selector=sel(ps, log))
            m(X.copy(), n_iter=1, demix_filter=W.copy())
            ctx.check(log and set(log) == {n}, "selector is asked for the number of sources")
            res.append(m)
        # no pair: the separated signals do not change direction
        m = make(name, ctx, scale_restoration=False, pair_selector=sel([]))
        out = m(X.copy(), n_iter=1, demix_filter=W.copy())
        Y = (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)
        for k in range(n):
            for t in range(1, T):
                ctx.eq(out[k, :, t] * Y[k, :, 0], out[k, :, 0] * Y[k, :, t], "no pair, no steering")

    return run


def harnesses(tier):
    hs = []
    for nm, mod in (("utils", select_pair), ("deprecated", deprecated)):
        for sort in (None, True, False):
            for stop, step in ((0, 0), (1, 0), (0, 1), (1, 1)):
                hs.append((f"{nm}-sequential-{sort}{'-stop' if stop else ''}{'-step' if step else ''}", sequential(mod, sort, stop, step), INT))
            hs.append((f"{nm}-combination-{sort}", combination(mod, sort), INT))
    for k, p in enumerate(([(0, 1)], [(0, 2)], [(2, 1)], [(1, 2), (0, 1)])):
        hs.append((f"ip2-rows-{k}", ip2_rows(p), DAG))
        hs.append((f"iss2-pairs-{k}", iss2_pairs(p), DAG))
    for nm in CLASSES:
        hs.append((f"class-{nm}", by_class(nm, [(0, 2)]), DAG))
    for nm in CLASSES_ISS:
        hs.append((f"class-{nm}", by_class_iss(nm, [(0, 2), (1, 2)]), DAG))
    return hs
