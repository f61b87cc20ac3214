"""C01: iteration driver, loss history, callbacks, resumability."""

import numpy as np

from .common import opaque_lqpqm
from .models import RESUMABLE, initial, make, mixture, state

FUNCTIONS = ["ssspy.bss.base.IterativeMethodBase.__call__", "__call__/_reset/update_once/compute_loss of every separator class"]
BOUNDS = "2 channels, 2 bins (1 for ICA), 2 frames; 1-2 entries of the mixture and of each randomly initialised parameter symbolic"
ASSUMPTIONS = [
    "eigenvalue / singular value / inverse computations on the symbolic data are uninterpreted functions of their arguments "
    "(equal arguments give equal results); intermediate polynomials above the cut limit are named, likewise",
    "contrast and penalty functions are uninterpreted",
]
POLICY = {"opaque": ("eigh", "inv", "cholesky", "svd"), "dag": 2, "eq": "generic", "floor": "inactive"}


def cp(st):
    return {k: v.copy() for k, v in st.items()}


def eqstate(ctx, a, b, what):
    ctx.check(set(a) == set(b), f"{what}: same attributes")
    for k in a:
        if k in b:
            ctx.eq(a[k], b[k], f"{what}: {k}")


def resume(name, nb=2):
    def run(ctx):
        X = mixture(ctx, name, nb)
        kw = {} if name.split(":")[0] in NOSCALE else {"scale_restoration": False}
        log = []

        def cb(tag):
            def f(m):
                log.append((tag, len(m.loss), m.loss[-1], m.compute_loss(), cp(state(m))))
            return f

        if "FDICA" in name:
            kw["permutation_alignment"] = False
        init = initial(ctx, name, nb)
        m1 = make(name, ctx, callbacks=[cb("a"), cb("b")], **kw)
        o1 = m1(X.copy(), n_iter=2, **cp(init))
        s1 = cp(state(m1))
        ctx.check([(t, n) for t, n, *_ in log] == [("a", 1), ("b", 1), ("a", 2), ("b", 2), ("a", 3), ("b", 3)],
                  "callbacks in order, once before the first and once after every iteration")
        ctx.check(len(m1.loss) == 3, "n_iter + 1 recorded losses")
        for t, n, last, now, st in log:
            ctx.eq(last, now, "recorded loss is the loss of the visible state")
        ctx.eq(o1, m1.output, "returned array is the output attribute")
        losses = list(m1.loss)

        log2, log = log, []
        m2 = make(name, ctx, callbacks=cb("c"), **kw)
        m2(X.copy(), n_iter=1, **cp(init))
        ctx.check(len(m2.loss) == 2, "n_iter + 1 recorded losses (first call)")
        s_mid = cp(state(m2))
        eqs = {k: v for k, v in log2[2][4].items()}
        if "demix_filter" in s_mid:
            ctx.eq(s_mid["demix_filter"], eqs["demix_filter"], "state after a 1-iteration call is the state after iteration 1")
        o2 = m2(X.copy(), n_iter=1, initial_call=False)
        ctx.check(len(m2.loss) == 3, "n_iter more losses when the call is not the initial one")
        ctx.check([t for t, *_ in log] == ["c"] * 3, "no initial callback when the call is not the initial one")
        ctx.eq(o2, o1, "resumed run gives the same output")
        eqstate(ctx, cp(state(m2)), s1, "resumed run")
        for k in range(3):
            ctx.eq(m2.loss[k], losses[k], "resumed run records the same losses")

        m3 = make(name, ctx, record_loss=False, **kw)
        ctx.eq(m3(X.copy(), n_iter=2, **cp(init)), o1, "recording losses and callbacks do not change the result")
        ctx.check(m3.loss is None, "no loss history without record_loss")

        log3, log = log, []
        m4 = make(name, ctx, callbacks=[cb("d")], **kw)
        m4(X.copy(), n_iter=0, **cp(init))
        ctx.check(len(m4.loss) == 1 and [t for t, *_ in log] == ["d"], "initial loss and callback with n_iter=0")
        ctx.eq(m4.loss[0], losses[0], "initial loss")

    return run


def again(name, nb=2):
    """a callback registered twice, tuples of callbacks, and a second initial call on the same object"""

    def run(ctx):
        X = mixture(ctx, name, nb)
        kw = {} if name.split(":")[0] in NOSCALE else {"scale_restoration": False}
        if "FDICA" in name:
            kw["permutation_alignment"] = False
        init = initial(ctx, name, nb)
        log = []

        def a(m):
            log.append(("a", len(m.loss)))

        def b(m):
            log.append(("b", len(m.loss)))

        m = make(name, ctx, callbacks=[a, b, a], **kw)
        o = m(X.copy(), n_iter=1, **cp(init)) + 0
        ctx.check(log == [("a", 1), ("b", 1), ("a", 1), ("a", 2), ("b", 2), ("a", 2)], "every registered callback is called, in order, as often as it is registered")
        s, first = cp(state(m)), list(m.loss)
        ctx.check(len(first) == 2, "n_iter + 1 recorded losses")
        del log[:]
        o2 = m(X.copy(), n_iter=1, initial_call=False) + 0
        ctx.check(log == [("a", 3), ("b", 3), ("a", 3)], "resumed call: callbacks after the iteration only")
        ctx.check(len(m.loss) == 3, "one more loss")
        del log[:]
        # a fresh initial call from the state of a second object that stopped at the same place
        w = make(name, ctx, callbacks=[a], **kw)
        w(X.copy(), n_iter=1, **cp(init))
        ctx.eq(w.output, o, "same run")
        eqstate(ctx, cp(state(w)), s, "same run")
        del log[:]
        w(X.copy(), n_iter=1)
        ctx.check(len(w.loss) == 4, "a second initial call records n_iter + 1 further losses")
        ctx.check(log == [("a", 3), ("a", 4)], "a second initial call runs the callbacks before the first iteration as well")
        if len(w.loss) != 4 or len(first) != 2 or len(m.loss) != 3:
            return
        ctx.eq(w.loss[2], first[1], "its first loss is the loss of the state it starts from")
        for k in (0, 1):
            ctx.eq(w.loss[k], first[k], "earlier history kept")
        ctx.eq(w.loss[3], m.loss[2], "and continues like the resumed run")
        ctx.eq(w.output, o2, "and continues like the resumed run (output)")

    return run


def stubbed(name, what=resume):
    def run(ctx):
        with opaque_lqpqm(ctx):
            what(name)(ctx)

    return run


NOSCALE = {"GradICA", "NaturalGradICA", "FastICA", "GradLaplaceICA", "NaturalGradLaplaceICA", "GaussMNMF", "FastGaussMNMF", "CACGMM"}


def harnesses(tier):
    hs = []
    for n in RESUMABLE:
        hs.append((n + "-again", again(n) if "IPA" not in n else stubbed(n, again), {"policy": dict(POLICY, follow="IPA" in n), "max_paths": 300, "warm": "IPA" in n, "noval": "2" in n or "IPA" in n}))
        hs.append((n, resume(n) if "IPA" not in n else stubbed(n), {"policy": dict(POLICY, follow="IPA" in n), "max_paths": 300, "warm": "IPA" in n, "noval": "2" in n or "IPA" in n}))
    return hs
