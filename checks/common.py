"""Shared generators for the check modules (work in symbolic and numeric contexts)."""

import inspect

import numpy as np


def chol(ctx, name, n=2, cplx=True, sym=None, batch=()):
    """lower-triangular factor(s) with positive diagonal, shape batch + (n, n)."""
    shape = tuple(batch) + (n, n)
    nb = int(np.prod(batch)) if batch else 1
    if sym is None:
        so = sd = None
    else:
        so, sd = sym, 0
    tri = np.tril(np.ones((n, n)), -1)
    o = ctx.cplx(name + "o", shape, sym=so) if cplx else ctx.real(name + "o", shape, sym=so)
    d = ctx.pos(name + "d", tuple(batch) + (n,), sym=sd, lo=0.5, hi=2)
    return o * tri + d[..., None] * np.eye(n)


def hpd(ctx, name, n=2, cplx=True, sym=None, batch=()):
    L = chol(ctx, name, n, cplx, sym, batch)
    return L @ ctx.H(L)


def herm2(ctx, name, batch=(), cplx=True):
    """2x2 Hermitian positive definite matrices with free entries (assumed det > 0)."""
    d = ctx.pos(name + "d", tuple(batch) + (2,), lo=2, hi=4)
    o = ctx.cplx(name + "o", tuple(batch)) if cplx else ctx.real(name + "o", tuple(batch))
    det = d[..., 0] * d[..., 1] - np.real(o * o.conj())
    ctx.assume_pos(det, "positive definite")
    r0 = np.stack([d[..., 0] + 0 * o, o], axis=-1)
    r1 = np.stack([o.conj(), d[..., 1] + 0 * o], axis=-1)
    return np.stack([r0, r1], axis=-2)


class Patch:
    """replace a function of a module while a harness runs"""

    def __init__(self, mod, name, f):
        self.mod, self.name, self.f = mod, name, f

    def __enter__(self):
        self.old = getattr(self.mod, self.name, None)  # a refactored module may lack it: then nothing to replace
        if self.old is not None:
            setattr(self.mod, self.name, self.f)

    def __exit__(self, *a):
        if self.old is not None:
            setattr(self.mod, self.name, self.old)


class Many:
    def __init__(self, ps):
        self.ps = ps

    def __enter__(self):
        for p in self.ps:
            p.__enter__()

    def __exit__(self, *a):
        for p in self.ps:
            p.__exit__()


def opaque_lqpqm(ctx):
    """sym mode: the (log-)quadratically penalised quadratic minimiser of the IPA update (verified in C06) as an
    uninterpreted function of its exact operands."""
    from ssspy.bss import _update_spatial_model as usm

    if ctx.mode == "num":
        return Many([])
    from symx import nparr

    real = getattr(usm, "lqpqm2", None)

    def stub(H, v, z, *a, **kw):
        try:  # the number of Newton steps is part of the function
            bound = inspect.signature(real).bind(H, v, z, *a, **kw)
            bound.apply_defaults()
            steps = bound.arguments.get("max_iter")
        except (TypeError, ValueError):
            steps = None
        H, v, z = nparr.arr(H), nparr.arr(v), nparr.arr(z)
        out = np.zeros(v.shape, dtype=object)
        flat = nparr.arr(v * 0).copy()
        o = flat.view(np.ndarray)
        for idx in np.ndindex(*v.shape[:-1]):
            def impl(h, w, y):
                return [0.5 * w + 0.25]  # any sample value: nothing about the minimiser is used

            zz = np.array([z.view(np.ndarray)[idx]], dtype=object)
            o[idx] = nparr._opaque(f"lqpqm2/{steps}", [H.view(np.ndarray)[idx], v.view(np.ndarray)[idx], zz],
                                   [((v.shape[-1],), "cplx")], impl)[0]
        return flat

    return Patch(usm, "lqpqm2", stub)
