"""Path-forking symbolic context and solver interface."""

import math
import os
import random
import time
from fractions import Fraction

import mpmath
import z3

from .poly import BITS, FIELD, Budget, Ring, S, Unsupported, frac_of_float, of


class Infeasible(Exception):
    """The current path is infeasible (pruned)."""


class PathLimit(Exception):
    pass


def _isqrt_frac(c):
    """(a, b) with c = a**2 * b, b squarefree positive integer."""
    c = Fraction(c)
    n, d = c.numerator, c.denominator
    m = n * d
    a = Fraction(1, d)
    r = math.isqrt(m)
    if r * r == m:
        return a * r, 1
    b = 1
    if m < 10 ** 18:
        p = 2
        while p * p <= m and p < 2000:
            while m % (p * p) == 0:
                m //= p * p
                a *= p
            p += 1
        r = math.isqrt(m)
        if r * r == m:
            return a * r, 1
    return a, m


_mp = mpmath.mp.clone()
_mp.dps = 60


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.pruned = 0
        self.obligations = 0
        self.discharged = 0
        self.branches = 0
        self.feasibility = 0
        self.crosscheck = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


class Engine:
    """One symbolic run (one path)."""

    def __init__(self, prefix=(), policy=None, stats=None, seed=1):
        self.R = Ring()
        self.prefix = list(prefix)
        self.trail = []  # list of (decision, other_feasible)
        self.policy = {
            "floor": "inactive",  # comparisons against tiny constants assume the large side
            "floor_max": Fraction(1, 10 ** 6),
            "eq": "generic",  # symbolic equalities assumed false
            "feas_timeout": 3000,
            "max_decisions": 60,
        }
        if policy:
            self.policy.update(policy)
        self.R.cutlim = self.policy.get("cut")
        self.R.dag = self.policy.get("dag", 0)
        self.constraints = []  # (S real, rel)  rel in '>','>=','==','!='
        self.learned = []
        self.assumed = []  # textual
        self.denoms = set()
        self.stats = stats or Stats()
        self.memo_cmp = {}
        self.base = []  # base symbol descriptors: (name, kind, S)
        self.obls = []
        self.rng = random.Random(seed)
        self.seed = seed
        self.contracts = []  # eigen registry
        self._real_cache = {}
        self._realvars = {}
        self.zdefs_done = {}
        self.point = {}

    # ------------------------------------------------------------------ symbols
    def sym_real(self, name, positive=False, nonneg=False):
        s = self.R.real(name, positive, nonneg)
        self.base.append((name, "pos" if positive else "nonneg" if nonneg else "real", s))
        return s

    def sym_cplx(self, name):
        s = self.R.cplx(name)
        self.base.append((name, "cplx", s))
        return s

    def sym_unim(self, name):
        s = self.R.unimodular(name)
        self.base.append((name, "unim", s))
        return s

    def c(self, x):
        return of(self.R, x)

    def const_from_float(self, x):
        if x in (float("inf"), float("-inf")):
            return Infinity(self.R, 1 if x > 0 else -1)
        f = frac_of_float(x)
        if f.denominator > 5000 and abs(x) < 1e4:
            # irrational constant: square root of a simple rational?
            q = Fraction(x * x).limit_denominator(500)
            if q > 0 and q.denominator <= 500 and abs(math.sqrt(q) - abs(x)) <= 2e-16 * abs(x):
                r = self.sqrt(S(self.R, q, {}))
                return r if x > 0 else -r
        return S(self.R, f, {})

    # ------------------------------------------------------------------ assumptions
    def assume(self, s, rel, why=None):
        """Add a constraint  s rel 0  on the current path (s real scalar)."""
        s = self.c(s)
        h = s.sign_hint()
        if rel == ">" and h in ("neg", "zero", "nonpos"):
            raise Infeasible()
        if rel == ">=" and h == "neg":
            raise Infeasible()
        if rel == "==" and h in ("pos", "neg"):
            raise Infeasible()
        if rel == "!=" and h == "zero":
            raise Infeasible()
        if rel == ">" and h == "pos" or rel == ">=" and h in ("pos", "nonneg", "zero"):
            return
        self.constraints.append((s, rel))
        if why:
            self.assumed.append(why)
        self._learn(s, rel)

    def _learn(self, s, rel):
        """Propagate sign facts to factors."""
        R = self.R
        if rel not in (">", ">="):
            return
        unk = []
        vanish = False
        sg = 1 if s.coef > 0 else -1
        seen = set()
        for f, e in s.fac.items():
            if f in seen:
                continue
            cs, cf = R.conj_factor(f)
            if cf != f:
                if s.fac.get(cf, 0) == e:
                    seen.add(cf)
                    if cs < 0 and e % 2:
                        sg = -sg
                    continue
                return
            if cs < 0:
                return
            k = R.factor_sign(f)
            if k == "pos":
                continue
            if e % 2 == 0:
                vanish = vanish or e > 0
                continue
            if k == "nonneg":
                if rel == ">":
                    R.fpos[f] = "pos"
                    self.learned.append((f, ">"))
                    self._learn_var(f)
                vanish = True
                continue
            unk.append(f)
        if len(unk) == 1 and sg > 0 and not (vanish and rel == ">="):
            st = rel == ">" or s.fac[unk[0]] < 0
            R.fpos[unk[0]] = "pos" if st else "nonneg"
            self.learned.append((unk[0], ">" if st else ">="))
            self._learn_var(unk[0])

    def _learn_var(self, f):
        p = self.R.factors[f]
        if len(p) == 1:
            (m,) = p
            mv = self.R.monovars(m)
            if len(mv) == 1 and mv[0][1] == 1 and mv[0][0] != 0:
                v = self.R.vars[mv[0][0]]
                if v.conj == v.idx:
                    k = self.R.fpos[f]
                    if k == "pos":
                        v.positive = True
                    v.nonneg = True
                    for g, pg in enumerate(self.R.factors):
                        if self.R.fpos[g] == "unk":
                            self.R.fpos[g] = None

    def note_denominator(self, s):
        for f, e in s.fac.items():
            if e > 0 and self.R.factor_sign(f) != "pos":
                self.denoms.add(f)

    # ------------------------------------------------------------------ comparisons
    def const_float(self, s):
        """Float value of a scalar that only involves constant atoms, else None."""
        try:
            return self.eval_real_const(s)
        except KeyError:
            return None

    def eval_real_const(self, s):
        env = {}
        for f in s.fac:
            for i in self.R.pvars(self.R.factors[f]):
                v = self.R.vars[i]
                if i == 0:
                    continue
                if v.kind in ("real", "cplx", "unim") and v.defn is None:
                    raise KeyError(v.name)
        val = self.evalf(s, env)
        if abs(val.imag) > 1e-9 * (1 + abs(val)):
            raise KeyError("complex")
        return val.real

    def flat_diff(self, a, b):
        """a - b without naming the difference (named sums stay symbols of a polynomial)."""
        R = self.R
        dag, R.dag = R.dag, 0
        try:
            if isinstance(a, S) or isinstance(b, S):
                return a - b
            return self.c(a) - self.c(b)
        finally:
            R.dag = dag

    def compare(self, a, b, rel):
        if isinstance(a, Infinity) or isinstance(b, Infinity):
            sa = a.sign if isinstance(a, Infinity) else 0
            sb = b.sign if isinstance(b, Infinity) else 0
            return {"<": sa < sb, "<=": sa <= sb, "==": sa == sb, "!=": sa != sb}[rel]
        if rel in ("==", "!="):
            d = self.flat_diff(b, a)
            if d.coef == 0:
                return rel == "=="
            if d.const_complex() is not None:
                return rel == "!="
            if d.sign_hint() in ("pos", "neg"):
                return rel == "!="
            if self.policy["eq"] == "generic":
                key = ("eq", d.key())
                if key not in self.memo_cmp:
                    self.memo_cmp[key] = True
                    for f in d.fac:
                        self.denoms.add(f)
                return rel == "!="
            if not d.is_real():
                # fork on |d|^2 == 0
                d = d * d.conjugate()
            r = self.decide(d, "==")
            return r if rel == "==" else not r
        d = self.flat_diff(b, a)
        h = d.sign_hint()
        if rel == "<":
            if h == "pos":
                return True
            if h in ("neg", "zero", "nonpos"):
                return False
        else:
            if h in ("pos", "nonneg", "zero"):
                return True
            if h == "neg":
                return False
        cf = self.const_float(d)
        if cf is not None:
            if abs(cf) < 1e-13:
                raise Unsupported("constant comparison too close to call")
            return cf > 0
        if not d.is_real():
            raise Unsupported("order comparison of complex values")
        if self.policy["floor"] == "inactive":
            fm = self.policy["floor_max"]
            ca, cb = a.const_complex(), b.const_complex()
            if cb is not None and cb[1] == 0 and 0 < cb[0] <= fm:
                # a < tiny  -> assume a > tiny
                self.assume(a - b, ">", None)
                self.assumed_floor = True
                return False
            if ca is not None and ca[1] == 0 and 0 < ca[0] <= fm:
                self.assume(b - a, ">", None)
                self.assumed_floor = True
                return True
        if self.policy.get("clamp", True):
            za = a.coef == 0
            zb = b.coef == 0
            if za or zb:
                # sign test against exactly 0 (clamping): follow the sample point
                x = b if za else a
                v = self.point_value(x)
                if v is not None and abs(v) > 1e-9:
                    key = ("clamp", x.key())
                    if key not in self.memo_cmp:
                        self.memo_cmp[key] = True
                        self.assume(x if v > 0 else -x, ">", None)
                        note = "sign tests against 0 (clamps such as maximum(q, 0)) follow the sample point"
                        if note not in self.assumed:
                            self.assumed.append(note)
                    return (v > 0) if za else (v < 0)
        return self.decide(d, ">" if rel == "<" else ">=")

    def point_value(self, s):
        try:
            v = self.evalf(s, self.point)
        except (KeyError, ValueError, ZeroDivisionError, OverflowError):
            return None
        return v.real

    def decide(self, d, rel):
        """Fork on  d rel 0."""
        key = (rel, d.key())
        if key in self.memo_cmp:
            return self.memo_cmp[key]
        nkey = {">": (">=", (-d).key()), ">=": (">", (-d).key())}.get(rel)
        if nkey in self.memo_cmp:
            return not self.memo_cmp[nkey]
        if self.policy.get("follow"):
            v = self.point_value(d)
            if v is not None and abs(v) > 1e-9:
                r = v > 0
                self.memo_cmp[key] = r
                if rel in (">", ">="):
                    self.assume(d if r else -d, ">", None)
                else:
                    r = self.memo_cmp[key] = False
                note = "data-dependent comparisons follow the sample point (one branch of the code per harness)"
                if note not in self.assumed:
                    self.assumed.append(note)
                return r
        pos = (d, rel)
        if rel == ">":
            neg = (-d, ">=")
        elif rel == ">=":
            neg = (-d, ">")
        elif rel == "==":
            neg = (d, "!=")
        k = len(self.trail)
        if k < len(self.prefix):
            val = self.prefix[k]
            self.trail.append((val, False))
            self.assume(*(pos if val else neg))
            self.memo_cmp[key] = val
            return val
        if k >= self.policy["max_decisions"]:
            raise PathLimit(f"more than {k} decisions on one path")
        fp = self.feasible(*pos)
        fn = self.feasible(*neg)
        if not fp and not fn:
            raise Infeasible()
        self.stats.branches += 1
        if fp and fn:
            val = True
            self.trail.append((True, True))
        else:
            val = fp
            self.trail.append((val, False))
        self.assume(*(pos if val else neg))
        self.memo_cmp[key] = val
        return val

    def feasible(self, d, rel):
        self.stats.feasibility += 1
        try:
            cs = self.path_z3(extra=[(d, rel)], near=True)
        except Budget:
            return True
        r = self.check(cs, self.policy["feas_timeout"])
        return r[0] != "unsat"

    # ------------------------------------------------------------------ functions
    def absolute(self, x):
        h = x.sign_hint()
        if h in ("pos", "nonneg", "zero"):
            return x
        if h in ("neg", "nonpos"):
            return -x
        return self.sqrt(x * x.conjugate())

    def sqrt_atom(self, p):
        """sqrt of a real polynomial (dict), assumed >= 0."""
        R = self.R
        key = frozenset(p.items())
        if key in R.sqrt_memo:
            return R.sqrt_memo[key]
        v = R._newvar(f"sqrt{len(R.sqrt_memo)}", "sqrt")
        v.nonneg = True
        sg = R.is_positive_poly(p)
        if sg == "pos":
            v.positive = True
        elif len(p) == 1 or key in R.fkey and R.fpos[R.fkey[key]] == "pos":
            f = R.fkey.get(key)
            if f is not None and R.fpos[f] == "pos":
                v.positive = True
        v.defn = ("sqrt", p)
        R.rules[v.idx] = (2, p)
        R.rule2mask |= (FIELD & ~1) << v.shift
        s = S(R, 1, {R.intern_var(v): 1})
        R.sqrt_memo[key] = s
        return s

    def sqrt(self, x):
        R = self.R
        if isinstance(x, Infinity):
            return x
        if x.coef == 0:
            return x
        if not x.is_real():
            return self.csqrt(x)
        cc = x.const_complex()
        if cc is not None and cc[0] < 0:
            raise Unsupported("sqrt of a negative constant")
        if self._unpaired(x):
            nn, dd = x.numden()
            dc = R.pconj(dd)
            top = R.from_poly(R.pmul(nn, dc), x.coef)
            bot = R.from_poly(R.pmul(dd, dc))
            x = top * bot.inverse()
            if self._unpaired(x):
                raise Unsupported("sqrt of an unpaired complex expression")
        coef = x.coef
        out = {}
        unk = {0: 1}
        unkfac = []
        atoms = []
        seen = set()
        absn = []
        rsign = 1
        for f, e in x.fac.items():
            if f in seen:
                continue
            cs, cf = R.conj_factor(f)
            if cf != f:
                eg = x.fac.get(cf, 0)
                if eg == e:
                    seen.add(cf)
                    if cs < 0 and e % 2:
                        coef = -coef
                    p = R.pmul(R.factors[f], R.factors[cf])
                    if cs < 0:
                        p = {m: -c for m, c in p.items()}
                    # (p pbar)^e
                    if e % 2 == 0:
                        out[f] = out.get(f, 0) + e // 2
                        out[cf] = out.get(cf, 0) + e // 2
                        if cs < 0 and (e // 2) % 2:
                            rsign = -rsign
                    else:
                        atoms.append((p, e))
                    continue
                unkfac.append((f, e))
                continue
            if cs < 0:
                unkfac.append((f, e))
                continue
            k = R.factor_sign(f)
            if k in ("pos", "nonneg"):
                if e % 2 == 0:
                    out[f] = out.get(f, 0) + e // 2
                else:
                    atoms.append((R.factors[f], e))
                continue
            if e % 4 == 0:
                out[f] = out.get(f, 0) + e // 2
            elif e % 2 == 0:
                absn.append((f, e // 2))
            else:
                unkfac.append((f, e))
        res = S(R, rsign, {f: e for f, e in out.items() if e})
        for f, k in absn:
            p = R.factors[f]
            pp = R.pmul(p, p)
            res = res * self.sqrt_atom(pp) ** k
        for p, e in atoms:
            res = res * self.sqrt_atom(p) ** e
        if unkfac:
            # product of unknown-sign odd factors: sqrt(P) / |D|
            num = {0: 1}
            den_abs = []
            for f, e in unkfac:
                num = R.pmul(num, R.factors[f])
                # f^e = f * f^(e-1) ; e-1 even
                if e != 1:
                    den_abs.append((f, (e - 1) // 2))
            if coef < 0:
                num = {m: -c for m, c in num.items()}
                coef = -coef
            base = R.from_poly(num)
            if base.coef < 0 and base.fac and len(unkfac) == 1:
                pass
            if base.is_real():
                # domain assumption: argument is >= 0
                key = ("sqrtdom", base.key())
                if key not in self.memo_cmp:
                    self.memo_cmp[key] = True
                    if base.sign_hint() in ("neg",):
                        raise Unsupported("sqrt of a negative quantity")
                    if self.policy.get("sqrt_domain") == "check":
                        if self.feasible(-base, ">"):
                            self.assumed.append("sqrt argument assumed nonnegative")
                    self.assume(base, ">=", None)
            a, b = _isqrt_frac(abs(base.coef))
            prim = {m: c for m, c in num.items()}
            g = 0
            for c in prim.values():
                g = math.gcd(g, c)
            if g > 1:
                prim = {m: c // g for m, c in prim.items()}
                coef = coef * g
            res = res * self.sqrt_atom(prim)
            for f, k in den_abs:
                fs = S(R, 1, {f: 1})
                if fs.is_real():
                    ab = self.absolute(fs)
                else:
                    ab = fs
                    raise Unsupported("sqrt with complex denominator")
                res = res * ab ** k
        if coef < 0:
            raise Unsupported(f"sqrt of negative: {x}")
        a, b = _isqrt_frac(coef)
        res = res * a
        if b != 1:
            res = res * self.sqrt_atom({0: b})
        return res

    def _unpaired(self, x):
        R = self.R
        for f, e in x.fac.items():
            cs, cf = R.conj_factor(f)
            if cf != f and x.fac.get(cf, 0) != e or cf == f and cs < 0:
                return True
        return False

    def sqrt_complex(self, x):
        """Principal square root of a number of complex dtype."""
        if isinstance(x, Infinity) or x.coef == 0 or not x.is_real():
            return self.sqrt(x)
        h = x.sign_hint()
        if h in ("neg", "nonpos") or h is None and not self.compare(self.c(0), x, "<="):
            return self.sqrt(-x) * self.R.I()
        return self.sqrt(x)

    def csqrt(self, x):
        """Principal square root of a non-real scalar."""
        R = self.R
        return self.croot(x, 2)

    def croot(self, x, q):
        R = self.R
        # x = N / D ; make denominator positive
        num = {0: 1}
        den = S(R, 1, {})
        n = S(R, x.coef, {})
        for f, e in x.fac.items():
            fs = S(R, 1, {f: abs(e)})
            if e > 0:
                n = n * fs
            else:
                cs, cf = R.conj_factor(f)
                k = R.factor_sign(f) if cf == f else None
                if k == "pos":
                    # f^-e = f^(r) / f^(q*m)
                    m = -(-(-e) // q)
                    m = (-e + q - 1) // q
                    n = n * S(R, 1, {f: 1}) ** (q * m + e)
                    den = den * S(R, 1, {f: 1}) ** m
                else:
                    cj = fs.conjugate()
                    n = n * cj * (fs * cj) ** (q - 1)
                    den = den * (fs * cj)
        c = n.coef
        d = c.denominator
        n = n * d ** q
        den = den * d
        nn, dd = n.numden()
        p = R.pscale(nn, int(n.coef))
        key = ("c", q, frozenset(p.items()))
        if key in R.sqrt_memo:
            w = R.sqrt_memo[key]
        else:
            v = R._newvar(f"croot{q}_{len(R.sqrt_memo)}", "croot")
            vb = R._newvar(v.name + "~", "croot")
            v.conj, vb.conj = vb.idx, v.idx
            v.defn = ("croot", q, p)
            vb.defn = ("conj", v.idx)
            R.rules[v.idx] = (q, p)
            R.rules[vb.idx] = (q, R.pconj(p))
            for u in (v, vb):
                R.rule2mask |= (FIELD & ~1) << u.shift
            w = S(R, 1, {R.intern_var(v): 1})
            R.sqrt_memo[key] = w
        return w / den

    def root(self, x, q):
        """Real q-th root of a nonnegative scalar."""
        R = self.R
        if q == 1 or x.coef == 0:
            return x
        if q == 2:
            return self.sqrt(x)
        if q % 2 == 0:
            return self.root(self.sqrt(x), q // 2)
        res = S(R, 1, {})
        c = x.coef
        if c < 0:
            return -self.root(-x, q)
        rest = dict(x.fac)
        # only factor-wise if all factors are nonnegative reals
        for f, e in x.fac.items():
            if R.factor_sign(f) not in ("pos", "nonneg"):
                nn, dd = x.numden()
                # N/D = N*D^(q-1)/D^q
                num = R.pmul(nn, R.ppow(dd, q - 1))
                base = R.from_poly(num, x.coef)
                dn = R.from_poly(dd)
                return self._root_atom(base, q) / dn
        for f, e in x.fac.items():
            k, r = divmod(e, q)
            if k:
                res = res * S(R, 1, {f: 1}) ** k
            if r:
                res = res * self._root_atom(S(R, 1, {f: 1}), q) ** r
        n, d = c.numerator, c.denominator
        cc = n * d ** (q - 1)
        r = round(cc ** (1.0 / q)) if cc < 10 ** 15 else 0
        if r and r ** q == cc:
            return res * Fraction(r, d)
        return res * self._root_atom(S(R, cc, {}), q) / d

    def _root_atom(self, s, q):
        R = self.R
        nn, dd = s.numden()
        c = s.coef
        p = R.pscale(nn, c.numerator * c.denominator ** (q - 1))
        key = ("r", q, frozenset(p.items()))
        if key in R.sqrt_memo:
            w = R.sqrt_memo[key]
        else:
            v = R._newvar(f"root{q}_{len(R.sqrt_memo)}", "root")
            v.defn = ("root", q, p)
            sg = R.is_positive_poly(p)
            if len(p) == 1 and sg is None:
                pass
            f = R.fkey.get(frozenset(p.items()))
            if f is not None and R.factor_sign(f):
                sg = R.factor_sign(f)
            v.positive = sg == "pos"
            v.nonneg = sg in ("pos", "nonneg")
            R.rules[v.idx] = (q, p)
            R.rule2mask |= (FIELD & ~1) << v.shift
            w = S(R, 1, {R.intern_var(v): 1})
            R.sqrt_memo[key] = w
        return w / c.denominator

    def cbrt(self, x):
        h = x.sign_hint()
        if x.is_real():
            return self.root(x, 3)
        raise Unsupported("np.cbrt of complex")

    def _atom(self, memo, key, name, defn, positive=False):
        R = self.R
        if key in memo:
            return memo[key]
        v = R._newvar(f"{name}{len(memo)}", name)
        v.defn = defn
        v.positive = v.nonneg = positive
        s = S(R, 1, {R.intern_var(v): 1})
        memo[key] = s
        return s

    def angle(self, x):
        h = x.sign_hint()
        if h in ("pos", "nonneg", "zero"):
            return S(self.R, 0, {})
        s = self._atom(self.R.ufun_memo, ("angle", x.key()), "angle", ("angle", x))
        return s

    def exp(self, x):
        R = self.R
        if isinstance(x, Infinity):
            if x.sign < 0:
                return S(R, 0, {})
            raise Unsupported("exp(inf)")
        if x.coef == 0:
            return S(R, 1, {})
        num, den = x.numden()
        dterms = [(m, c) for m, c in num.items()]
        dkey = frozenset(den.items())
        res = S(R, 1, {})
        trivial = len(den) == 1 and 0 in den
        dc = den.get(0, 1) if trivial else 1
        for m, c in dterms:
            co = x.coef * c / dc
            mv = R.monovars(m)
            # i * angle/q
            if trivial and len(mv) == 2 and mv[0] == (0, 1) and mv[1][1] == 1:
                v = R.vars[mv[1][0]]
                if v.kind == "angle":
                    arg = v.defn[1]
                    q = co.denominator
                    k = co.numerator
                    w = self.croot(arg, q) if q > 1 else arg
                    r = self.root(self.absolute(arg), q) if q > 1 else self.absolute(arg)
                    u = w / r
                    res = res * (u ** k if k > 0 else u.conjugate() ** (-k))
                    continue
            if m & FIELD:
                raise Unsupported("exp of a complex quantity")
            if trivial and len(mv) == 1 and mv[0][1] == 1 and R.vars[mv[0][0]].kind == "log":
                base = R.vars[mv[0][0]].defn[1]
                k, q = co.numerator, co.denominator
                b = base if q == 1 else self.root(base, q)
                res = res * b ** k
                continue
            q = co.denominator if co.denominator <= 64 else 1
            k = co * q
            if k.denominator != 1:
                q, k = 1, None
            if m == 0 and trivial:
                at = self._atom(R.exp_memo, (0, q, dkey), "exp", ("exp", S(R, Fraction(1, q), {})), True)
            else:
                mono = R.from_poly({m: 1}) * (R.from_poly(den).inverse() if not trivial else 1)
                if k is None:
                    at = self._atom(
                        R.exp_memo, (m, co, dkey), "exp", ("exp", mono * co), True
                    )
                    k = 1
                else:
                    at = self._atom(
                        R.exp_memo, (m, q, dkey), "exp", ("exp", mono * Fraction(1, q)), True
                    )
            res = res * at ** int(k)
        return res

    def log(self, x):
        R = self.R
        if isinstance(x, Infinity):
            return x
        if x.coef == 0:
            raise Unsupported("log(0)")
        if not x.is_real():
            raise Unsupported("log of complex")
        res = []
        coef = x.coef
        unk = {0: 1}
        has_unk = False
        seen = set()
        for f, e in x.fac.items():
            if f in seen:
                continue
            p = R.factors[f]
            if len(p) == 1:
                (m,) = p
                mv = R.monovars(m)
                if len(mv) == 1 and mv[0][1] == 1:
                    v = R.vars[mv[0][0]]
                    if v.kind == "sqrt" or v.kind == "root":
                        q = 2 if v.kind == "sqrt" else v.defn[1]
                        F = R.from_poly(v.defn[-1])
                        if F.sign_hint() is None:
                            self.assume(F, ">=")
                        res.append(self.log(F) * Fraction(e, q))
                        continue
                    if v.kind == "exp":
                        res.append(v.defn[1] * e)
                        continue
            cs, cf = R.conj_factor(f)
            if cf != f:
                if x.fac.get(cf, 0) == e:
                    seen.add(cf)
                    if cs < 0 and e % 2:
                        coef = -coef
                    a = min(f, cf)
                    base = S(R, 1, {a: 1})
                    base = base * base.conjugate()
                    at = self._atom(R.log_memo, ("p", a), "log", ("log", base))
                    res.append(at * e)
                    continue
                raise Unsupported("log of non-paired complex factors")
            if cs < 0:
                raise Unsupported("log imaginary factor")
            k = R.factor_sign(f)
            if k in ("pos", "nonneg"):
                at = self._atom(R.log_memo, ("p", f), "log", ("log", S(R, 1, {f: 1})))
                res.append(at * e)
            elif e % 2 == 0:
                base = S(R, 1, {f: 2})
                at = self._atom(R.log_memo, ("2", f), "log", ("log", base))
                res.append(at * (e // 2))
            else:
                # unknown sign odd factor: treat log f as 1/2 log f^2 (f assumed positive)
                base = S(R, 1, {f: 2})
                at = self._atom(R.log_memo, ("2", f), "log", ("log", base))
                res.append(at * Fraction(e, 2))
        n, d = abs(coef.numerator), coef.denominator
        for val, sg in ((n, 1), (d, -1)):
            if val == 1:
                continue
            p = 2
            while p * p <= val and p < 1000:
                k = 0
                while val % p == 0:
                    val //= p
                    k += 1
                if k:
                    at = self._atom(R.log_memo, ("n", p), "log", ("log", S(R, p, {})))
                    res.append(at * (k * sg))
                p += 1
            if val > 1:
                at = self._atom(R.log_memo, ("n", val), "log", ("log", S(R, val, {})))
                res.append(at * sg)
        return R.ssum(res)

    def power(self, x, k):
        if isinstance(k, Fraction):
            if k.denominator == 1:
                return x ** int(k)
            if k.denominator <= 64:
                b = self.root(x, k.denominator)
                return b ** k.numerator
            k = S(self.R, k, {})
        if isinstance(k, S):
            c = k.const_complex()
            if c is not None and c[1] == 0 and c[0].denominator <= 64:
                return self.power(x, c[0]) if c[0].denominator > 1 else x ** int(c[0])
            return self.exp(k * self.log(x))
        raise Unsupported(f"power {k!r}")

    def sign(self, x):
        h = x.sign_hint()
        if h == "pos":
            return self.c(1)
        if h == "neg":
            return self.c(-1)
        if h == "zero":
            return self.c(0)
        return x / self.absolute(x)

    def ufun(self, name, x, positive=False):
        """Uninterpreted function of one scalar."""
        return self._atom(
            self.R.ufun_memo, (name, x.key()), "u_" + name + "_", ("ufun", name, x), positive
        )

    # ------------------------------------------------------------------ numeric evaluation
    def evalf(self, s, env, cache=None):
        """Value under env: var idx -> complex.  Defined atoms are computed (60 digits)."""
        if isinstance(s, Infinity):
            return complex(s.sign * float("inf"))
        if cache is None:
            cache = {}
        return complex(self._evals(s, env, cache))

    def _evals(self, s, env, cache):
        if s.coef == 0:
            return _mp.mpc(0)
        val = _mp.mpf(s.coef.numerator) / s.coef.denominator
        for f, e in s.fac.items():
            key = ("f", f)
            v = cache.get(key)
            if v is None:
                v = cache[key] = self._evalp(self.R.factors[f], env, cache)
            val = val * v ** e
        return _mp.mpc(val)

    def _evalv(self, idx, env, cache):
        if idx in cache:
            return cache[idx]
        if idx == 0:
            return _mp.mpc(0, 1)
        v = self.R.vars[idx]
        if idx in env:
            r = _mp.mpmathify(env[idx])
        elif v.defn is None:
            w = self.R.vars[v.conj]
            if w.idx in env:
                r = _mp.conj(_mp.mpmathify(env[w.idx]))
            else:
                raise KeyError(v.name)
        else:
            d = v.defn
            if d[0] == "sqrt":
                x = self._evalp(d[1], env, cache)
                r = _mp.sqrt(max(_mp.re(x), _mp.mpf(0)))
            elif d[0] == "root":
                x = _mp.re(self._evalp(d[2], env, cache))
                r = _mp.root(abs(x), d[1]) * (1 if x >= 0 else -1)
            elif d[0] == "croot":
                x = self._evalp(d[2], env, cache)
                r = _mp.exp(_mp.log(x) / d[1]) if x != 0 else _mp.mpf(0)
            elif d[0] == "cut":
                r = self._evalp(d[1], env, cache)
            elif d[0] == "sum":
                r = _mp.mpc(0)
                for t in d[1]:
                    r = r + self._evals(t, env, cache)
            elif d[0] == "conj":
                r = _mp.conj(self._evalv(d[1], env, cache))
            elif d[0] == "exp":
                r = _mp.exp(_mp.re(self._evals(d[1], env, cache)))
            elif d[0] == "log":
                x = _mp.re(self._evals(d[1], env, cache))
                if not x > 0:
                    raise ValueError("log of a non-positive value")
                r = _mp.log(x)
            elif d[0] == "angle":
                r = _mp.arg(self._evals(d[1], env, cache))
            elif d[0] == "ufun":
                z = complex(self._evals(d[2], env, cache))
                r = _mp.mpmathify(complex(self.ufun_float(d[1])(z)))
            else:
                raise KeyError(v.name)
        cache[idx] = r
        return r

    ufun_impl = {}

    def ufun_float(self, name):
        return self.ufun_impl[name]

    def _evalp(self, p, env, cache):
        t = _mp.mpc(0)
        pw = cache.setdefault("pw", {})
        for m, c in p.items():
            x = c
            for i, e in self.R.monovars(m):
                k = (i, e)
                y = pw.get(k)
                if y is None:
                    y = self._evalv(i, env, cache)
                    if e != 1:
                        y = y ** e
                    pw[k] = y
                x = x * y
            t = t + x
        return t

    # ------------------------------------------------------------------ z3
    def realparts(self, idx):
        """(x, y) generator dicts for var idx in real coordinates (poly dicts)."""
        R = self.R
        r = self._realvars.get(idx)
        if r is None:
            v = R.vars[idx]
            if v.conj == idx:
                r = ({1 << v.shift: 1}, {})
                self._realvars[idx] = r
            else:
                w = R.vars[v.conj]
                a, b = (v, w) if v.idx < w.idx else (w, v)
                x = R._newvar(a.name + ".re", "rp")
                y = R._newvar(a.name + ".im", "rp")
                x.defn = ("re", a.idx)
                y.defn = ("im", a.idx)
                self._realvars[a.idx] = ({1 << x.shift: 1}, {1 << y.shift: 1})
                self._realvars[b.idx] = ({1 << x.shift: 1}, {1 << y.shift: -1})
                r = self._realvars[idx]
        return r

    def realify(self, p):
        """poly in (z, zbar, i) -> (re poly, im poly) in real generators."""
        R = self.R
        key = id(p)
        powc = {}

        def vpow(i, e):
            k = (i, e)
            if k not in powc:
                x, y = self.realparts(i)
                base = dict(x)
                for m, c in y.items():
                    base[m + 1] = c
                powc[k] = R.ppow(base, e)
            return powc[k]

        tot = {}
        for m, c in p.items():
            t = {m & FIELD: c}
            for i, e in R.monovars(m):
                if i:
                    t = R.pmul(t, vpow(i, e))
            tot = R.padd(tot, t)
        re, im = {}, {}
        for m, c in tot.items():
            if m & FIELD:
                im[m - 1] = c
            else:
                re[m] = c
        return re, im

    def zvar(self, idx):
        return z3.Real(f"v{idx}_{self.R.vars[idx].name}")

    def zpoly(self, p, used):
        """z3 term of a realified polynomial."""
        terms = []
        for m, c in p.items():
            t = None
            for i, e in self.R.monovars(m):
                used.add(i)
                x = self.zvar(i)
                for _ in range(e):
                    t = x if t is None else t * x
            if t is None:
                t = z3.RealVal(c)
            elif c != 1:
                t = z3.RealVal(c) * t
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def odd_part(self, s):
        """real polynomial with the same sign as s (up to nonzero assumptions)"""
        R = self.R
        if s.coef == 0:
            return {}, []
        sg = 1 if s.coef > 0 else -1
        p = {0: sg}
        evens = []
        seen = set()
        for f, e in s.fac.items():
            if f in seen:
                continue
            cs, cf = R.conj_factor(f)
            if cf != f and s.fac.get(cf, 0) == e:
                seen.add(cf)
                if cs < 0 and e % 2:
                    p = R.pscale(p, -1)
                if e > 0:
                    evens.append(f)
                continue
            if cf == f and cs > 0:
                if R.factor_sign(f) == "pos":
                    continue
                if e % 2 == 0:
                    if e > 0:
                        evens.append(f)
                    continue
                p = R.pmul(p, R.factors[f])
            else:
                p = R.pmul(p, R.factor_pow(f, e) if e > 0 else R.factors[R.conj_factor(f)[1]])
                if e < 0:
                    raise Unsupported("sign of mixed complex fraction")
        return p, evens

    def zrel(self, s, rel, used):
        R = self.R
        if rel in ("==", "!="):
            p = {0: 1} if s.coef else {}
            for f, e in s.fac.items():
                if e > 0 and R.factor_sign(f) != "pos":
                    p = R.pmul(p, R.factors[f])
            if not s.is_real():
                re, im = self.realify(p)
                a, b = self.zpoly(re, used), self.zpoly(im, used)
                eq = z3.And(a == 0, b == 0)
                return eq if rel == "==" else z3.Not(eq)
            re, im = self.realify(p)
            t = self.zpoly(re, used)
            # a real scalar may still have complex factors: both parts vanish together
            if im:
                t2 = self.zpoly(im, used)
                eq = z3.And(t == 0, t2 == 0)
            else:
                eq = t == 0
            return eq if rel == "==" else z3.Not(eq)
        p, evens = self.odd_part(s)
        re, im = self.realify(p)
        t = self.zpoly(re, used)
        if rel == ">":
            parts = [t > 0]
            for f in evens:
                a, b = self.realify(R.factors[f])
                parts.append(z3.Or(self.zpoly(a, used) != 0, self.zpoly(b, used) != 0))
            return z3.And(parts) if len(parts) > 1 else parts[0]
        if evens:
            alts = [t >= 0]
            for f in evens:
                a, b = self.realify(R.factors[f])
                alts.append(z3.And(self.zpoly(a, used) == 0, self.zpoly(b, used) == 0))
            return z3.Or(alts)
        return t >= 0

    def zdefs(self, used):
        """Definitional constraints of all atoms reachable from used (transitively)."""
        out = []
        done = set()
        todo = list(used)
        R = self.R
        while todo:
            i = todo.pop()
            if i in done:
                continue
            done.add(i)
            v = R.vars[i]
            loc = set()
            if v.positive:
                out.append(self.zvar(i) > 0)
            elif v.nonneg:
                out.append(self.zvar(i) >= 0)
            d = v.defn
            if d is None:
                continue
            if d[0] in ("re", "im"):
                base = R.vars[d[1]]
                x, y = self.realparts(base.idx)
                (mx,) = x
                (my,) = y
                ix, iy = R.monovars(mx)[0][0], R.monovars(my)[0][0]
                X, Y = self.zvar(ix), self.zvar(iy)
                if base.kind == "unim":
                    out.append(X * X + Y * Y == 1)
                    done.update((ix, iy))
                elif base.kind == "croot":
                    q = base.defn[1]
                    re, im = self.realify(base.defn[2])
                    rx = {mx: 1}
                    for m in y:
                        rx[m + 1] = 1
                    # disable rules: real generators carry none
                    pw = R.ppow(rx, q)
                    pre = {m: c for m, c in pw.items() if not m & FIELD}
                    pim = {m - 1: c for m, c in pw.items() if m & FIELD}
                    out.append(self.zpoly(pre, loc) == self.zpoly(re, loc))
                    out.append(self.zpoly(pim, loc) == self.zpoly(im, loc))
                    out.append(X >= 0)
                    done.update((ix, iy))
            elif d[0] == "sqrt":
                re, im = self.realify(d[1])
                x = self.zvar(i)
                out.append(x * x == self.zpoly(re, loc))
            elif d[0] == "root":
                re, im = self.realify(d[2])
                x = self.zvar(i)
                t = x
                for _ in range(d[1] - 1):
                    t = t * x
                out.append(t == self.zpoly(re, loc))
            for j in loc:
                if j not in done:
                    todo.append(j)
        return out, done

    def path_z3(self, extra=(), near=False):
        used = set()
        cs = []
        for s, rel in extra:
            cs.append(self.zrel(s, rel, used))
        if near:
            pend = list(self.constraints)
            changed = True
            vs = set(used)
            # include all constraints (they are few)
            for s, rel in pend:
                cs.append(self.zrel(s, rel, used))
        else:
            for s, rel in self.constraints:
                cs.append(self.zrel(s, rel, used))
        for f, rel in self.learned:
            re, _ = self.realify(self.R.factors[f])
            t = self.zpoly(re, used)
            cs.append(t > 0 if rel == ">" else t >= 0)
        defs, done = self.zdefs(used)
        return cs + defs

    def check(self, cs, timeout=20000, want_model=False, tactic=None, shift=0):
        t0 = time.time()
        s = z3.Tactic(tactic).solver() if tactic else z3.SolverFor("QF_NRA")
        s.set("timeout", int(timeout))
        if not tactic:
            s.set("random_seed", (self.seed + shift) % 1000)
        s.add(*cs)
        try:
            r = str(s.check())
        except z3.Z3Exception as ex:  # pragma: no cover
            r = "unknown"
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r, (s.model() if want_model and r == "sat" else None)


class Infinity(S):
    __slots__ = ("sign",)

    def __init__(self, R, sign):
        S.__init__(self, R, 1, {R.intern({(1 << 15 * 1) * 0 + 0: 1}): 0} if False else {})
        self.sign = sign

    def _inf(self, *a):
        raise Unsupported("arithmetic on infinity")

    def __add__(self, o):
        return self

    __radd__ = __add__

    def __sub__(self, o):
        return self

    def __rsub__(self, o):
        return Infinity(self.R, -self.sign)

    def __mul__(self, o):
        return self._inf()

    __rmul__ = __mul__

    def __neg__(self):
        return Infinity(self.R, -self.sign)

    def __truediv__(self, o):
        return self._inf()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S(self.R, 0, {})

    def is_real(self):
        return True

    def __repr__(self):
        return "inf" if self.sign > 0 else "-inf"
