"""Exact symbolic complex scalars.

A scalar is   coef * prod_i f_i ** e_i   with a rational coefficient and interned
integer polynomials f_i.  Polynomials live in Z[v_0, v_1, ...] modulo rewrite rules
(v_0 = i with i**2 -> -1, square-root atoms s**2 -> f, unimodular pairs u*ubar -> 1).
Complex symbols are represented by the pair (z, conj z) of independent generators, so
a polynomial identity in (z, conj z) is exactly an identity over all complex values.
"""

import math
from fractions import Fraction
from math import gcd

BITS = 16
FIELD = (1 << BITS) - 1


class Unsupported(Exception):
    """The engine cannot encode this operation (never reported as a verdict)."""


class Budget(Exception):
    """Polynomial grew past the configured budget."""


class Var:
    __slots__ = ("idx", "name", "kind", "conj", "shift", "defn", "positive", "nonneg")

    def __init__(self, idx, name, kind):
        self.idx = idx
        self.name = name
        self.kind = kind  # 'i','real','cplx','sqrt','exp','log','ufun','unim','root'
        self.conj = idx
        self.shift = idx * BITS
        self.defn = None
        self.positive = False
        self.nonneg = False


class Ring:
    def __init__(self, max_terms=200000):
        self.vars = []
        self.by_name = {}
        self.rule2mask = 0  # fields with exponent >= 2 must be rewritten
        self.rules = {}  # var idx -> (degree, poly dict)
        self.rule_pow = {}
        self.pairs = []  # unimodular pairs
        self.pairmask = 0
        self.factors = []  # fid -> dict poly
        self.fkey = {}
        self.gauss = set()  # constant complex factors
        self.fsingle = {}
        self.fconj = []
        self.fpos = []  # None / True
        self.fpow = {}
        self.factor_notes = []
        self.max_terms = max_terms
        v = self._newvar("i", "i")
        v.conj = v.idx
        self.rules[0] = (2, {0: -1})
        self.rule2mask |= (FIELD & ~1) << 0
        self.sqrt_memo = {}
        self.im_of = {}  # imaginary part -> the value (re**2 + im**2 is kept as z * conj z)
        self.exp_memo = {}
        self.log_memo = {}
        self.ufun_memo = {}
        self.has_conj_var = False
        self.nterms = 0

    # -- variables -------------------------------------------------------------
    def _newvar(self, name, kind):
        idx = len(self.vars)
        v = Var(idx, name, kind)
        self.vars.append(v)
        base, k = name, 1
        while name in self.by_name:
            k += 1
            name = f"{base}#{k}"
        v.name = name
        self.by_name[name] = v
        return v

    def real(self, name, positive=False, nonneg=False):
        v = self._newvar(name, "real")
        v.positive = positive
        v.nonneg = nonneg or positive
        return S(self, 1, {self.intern_var(v): 1})

    def cplx(self, name):
        v = self._newvar(name, "cplx")
        w = self._newvar(name + "~", "cplx")
        v.conj, w.conj = w.idx, v.idx
        return S(self, 1, {self.intern_var(v): 1})

    def unimodular(self, name):
        v = self._newvar(name, "unim")
        w = self._newvar(name + "~", "unim")
        v.conj, w.conj = w.idx, v.idx
        self.pairs.append((v.shift, w.shift))
        self.pairmask |= FIELD << v.shift
        return S(self, 1, {self.intern_var(v): 1})

    # -- polynomial arithmetic -------------------------------------------------
    def padd(self, a, b, cb=1):
        if len(a) < len(b) and cb == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c * cb
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return r

    def pscale(self, a, c):
        return {m: x * c for m, x in a.items()} if c != 1 else a

    def _rulepow(self, idx, k):
        key = (idx, k)
        p = self.rule_pow.get(key)
        if p is None:
            if k == 1:
                p = self.rules[idx][1]
            else:
                p = self.pmul(self._rulepow(idx, k - 1), self.rules[idx][1])
            self.rule_pow[key] = p
        return p

    def reduce(self, acc):
        mask = self.rule2mask
        pm = self.pairmask
        hit = [m for m in acc if m & mask] if mask else []
        if pm:
            fixed = {}
            for m in list(acc):
                if m & pm:
                    n = m
                    for sa, sb in self.pairs:
                        ea = (n >> sa) & FIELD
                        if ea:
                            eb = (n >> sb) & FIELD
                            if eb:
                                k = ea if ea < eb else eb
                                n -= (k << sa) + (k << sb)
                    if n != m:
                        c = acc.pop(m)
                        fixed[n] = fixed.get(n, 0) + c
            if fixed:
                for n, c in fixed.items():
                    s = acc.get(n, 0) + c
                    if s:
                        acc[n] = s
                    else:
                        acc.pop(n, None)
                hit = [m for m in acc if m & mask] if mask else []
        out_extra = None
        for m in hit:
            rest = m
            subs = []
            for idx, (deg, _p) in self.rules.items():
                e = (rest >> (idx * BITS)) & FIELD
                if e >= deg:
                    k = e // deg
                    rest -= (k * deg) << (idx * BITS)
                    subs.append((idx, k))
            if not subs:
                continue
            c = acc.pop(m)
            p = {rest: c}
            for idx, k in subs:
                p = self.pmul(p, self._rulepow(idx, k))
            if out_extra is None:
                out_extra = p if p is not acc else dict(p)
                out_extra = dict(out_extra)
            else:
                for mm, cc in p.items():
                    s = out_extra.get(mm, 0) + cc
                    if s:
                        out_extra[mm] = s
                    else:
                        out_extra.pop(mm, None)
        if out_extra:
            for mm, cc in out_extra.items():
                s = acc.get(mm, 0) + cc
                if s:
                    acc[mm] = s
                else:
                    acc.pop(mm, None)
        return acc

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if not a:
            return {}
        la, lb = len(a), len(b)
        if la * lb > 40 * self.max_terms:
            raise Budget(f"product of {la} x {lb} terms")
        acc = {}
        if la == 1:
            ((m1, c1),) = a.items()
            if m1 == 0:
                return self.pscale(b, c1) if c1 != 1 else dict(b)
            acc = {m1 + m2: c1 * c2 for m2, c2 in b.items()}
        else:
            get = acc.get
            bi = list(b.items())
            for m1, c1 in a.items():
                for m2, c2 in bi:
                    m = m1 + m2
                    acc[m] = get(m, 0) + c1 * c2
            acc = {m: c for m, c in acc.items() if c}
        self.nterms += la * lb
        if len(acc) > self.max_terms:
            raise Budget(f"{len(acc)} terms")
        return self.reduce(acc)

    def ppow(self, a, k):
        r = {0: 1}
        base = a
        while k:
            if k & 1:
                r = self.pmul(r, base)
            k >>= 1
            if k:
                base = self.pmul(base, base)
        return r

    def pconj(self, a):
        r = {}
        for m, c in a.items():
            if not m:
                r[0] = r.get(0, 0) + c
                continue
            n = 0
            for idx, e in self.monovars(m):
                if idx == 0:
                    if e & 1:
                        c = -c
                    n += e
                else:
                    n += e << (self.vars[idx].conj * BITS)
            r[n] = r.get(n, 0) + c
        return {m: c for m, c in r.items() if c}

    def monovars(self, m):
        out = []
        if m.bit_length() <= 1024:
            idx = 0
            while m:
                e = m & FIELD
                if e:
                    out.append((idx, e))
                m >>= BITS
                idx += 1
            return out
        off = 0
        while m:
            k = ((m & -m).bit_length() - 1) // BITS
            m >>= k * BITS
            off += k
            e = m & FIELD
            out.append((off, e))
            m ^= e
        return out

    def single(self, f):
        """index of the variable a factor consists of, or -1."""
        r = self.fsingle.get(f)
        if r is None:
            r = -1
            p = self.factors[f]
            if len(p) == 1:
                (m,) = p
                mv = self.monovars(m)
                if len(mv) == 1:
                    r = mv[0][0]
            self.fsingle[f] = r
        return r

    def pvars(self, a):
        u = 0
        for m in a:
            u |= m
        return [i for i, _ in self.monovars(u)]

    def pdiv_exact(self, a, b, limit=20000):
        """Quotient a/b if b divides a exactly (no use of rewrite rules), else None."""
        if len(b) == 1:
            ((mb, cb),) = b.items()
            q = {}
            for m, c in a.items():
                if c % cb:
                    return None
                x = mb
                idx = 0
                while x:
                    e = x & FIELD
                    if ((m >> (idx * BITS)) & FIELD) < e:
                        return None
                    x >>= BITS
                    idx += 1
                q[m - mb] = c // cb
            return q
        if len(a) < len(b):
            return None
        # variables of b must occur in a
        ua = 0
        for m in a:
            ua |= m
        ub = 0
        for m in b:
            ub |= m
        x, y = ua, ub
        while y:
            if (y & FIELD) and not (x & FIELD):
                return None
            x >>= BITS
            y >>= BITS
        lmb = max(b)
        lcb = b[lmb]
        mvb = self.monovars(lmb)
        import heapq

        rem = dict(a)
        heap = [-m for m in rem]
        heapq.heapify(heap)
        q = {}
        bi = [(m, c) for m, c in b.items() if m != lmb]
        steps = 0
        while heap:
            m = -heapq.heappop(heap)
            c = rem.get(m, 0)
            if not c:
                rem.pop(m, None)
                continue
            if c % lcb:
                return None
            for idx, e in mvb:
                if ((m >> (idx * BITS)) & FIELD) < e:
                    return None
            qm = m - lmb
            qc = c // lcb
            q[qm] = q.get(qm, 0) + qc
            del rem[m]
            for mb, cb in bi:
                n = qm + mb
                if n in rem:
                    s = rem[n] - qc * cb
                    if s:
                        rem[n] = s
                    else:
                        rem[n] = 0
                else:
                    rem[n] = -qc * cb
                    heapq.heappush(heap, -n)
            steps += len(b)
            if steps > limit * 20:
                return None
        return q

    # -- factors -----------------------------------------------------------------
    def intern_var(self, v):
        return self.intern({1 << v.shift: 1})

    def intern(self, p):
        """p: primitive polynomial (content 1, positive leading coeff, no monomial content)."""
        key = frozenset(p.items())
        fid = self.fkey.get(key)
        if fid is None:
            fid = len(self.factors)
            self.factors.append(p)
            self.fkey[key] = fid
            self.fconj.append(None)
            self.fpos.append(None)
            if all(m <= 1 for m in p) and 1 in p:
                self.gauss.add(fid)
        return fid

    def conj_factor(self, fid):
        """conj(f) as (sign, fid')"""
        r = self.fconj[fid]
        if r is None:
            p = self.pconj(self.factors[fid])
            sgn = 1
            if p[max(p)] < 0:
                sgn = -1
                p = {m: -c for m, c in p.items()}
            g = self.intern(p)
            r = (sgn, g)
            self.fconj[fid] = r
            self.fconj[g] = (sgn, fid)
        return r

    def factor_pow(self, fid, k):
        key = (fid, k)
        r = self.fpow.get(key)
        if r is None:
            if k == 1:
                r = self.factors[fid]
            else:
                r = self.pmul(self.factor_pow(fid, k - 1), self.factors[fid])
            self.fpow[key] = r
        return r

    def is_positive_poly(self, p):
        """Syntactic: sum of products of positive quantities. Returns 'pos','nonneg' or None."""
        strict = False
        for m, c in p.items():
            if c < 0:
                return None
            st = True
            for idx, e in self.monovars(m):
                v = self.vars[idx]
                if idx == 0:
                    return None
                if v.conj != idx:
                    ec = (m >> (v.conj * BITS)) & FIELD
                    if ec != e:
                        return None
                    if v.kind != "unim":
                        st = False
                elif v.positive:
                    pass
                elif v.nonneg:
                    st = False
                elif e % 2 == 0:
                    st = False
                else:
                    return None
            strict = strict or st
        return "pos" if strict else "nonneg"

    def factor_sign(self, fid):
        """'pos' | 'nonneg' | None  (positivity known for a real factor)."""
        s = self.fpos[fid]
        if s is None:
            s = self.is_positive_poly(self.factors[fid]) or "unk"
            self.fpos[fid] = s
        return None if s == "unk" else s

    # -- normalising construction --------------------------------------------------
    def from_poly(self, p, coef=1, fac=None, try_div=()):
        """coef * prod fac * p   ->  S"""
        if not p:
            return S(self, 0, {})
        fac = dict(fac) if fac else {}
        coef = Fraction(coef)
        g = 0
        for c in p.values():
            g = gcd(g, c)
            if g == 1:
                break
        # monomial content
        it = iter(p)
        first = next(it)
        mc = None
        if first == 0:
            mc = []
        else:
            mc = [[i, e] for i, e in self.monovars(first)]
            for m in it:
                if not mc:
                    break
                nm = []
                for ie in mc:
                    e = (m >> (ie[0] * BITS)) & FIELD
                    if e:
                        nm.append([ie[0], min(e, ie[1])])
                mc = nm
        shift = 0
        for i, e in mc:
            shift += e << (i * BITS)
        if shift or g != 1:
            p = {m - shift: c // g for m, c in p.items()}
            coef *= g
            for i, e in mc:
                f = self.intern_var(self.vars[i])
                fac[f] = fac.get(f, 0) + e
        for f in try_div:
            fp = self.factors[f]
            while len(p) >= len(fp) and fac.get(f, 0) < 0:
                q = self.pdiv_exact(p, fp)
                if q is None:
                    break
                p = q
                fac[f] += 1
        lead = max(p)
        if p[lead] < 0:
            p = {m: -c for m, c in p.items()}
            coef = -coef
        if len(p) == 1 and 0 in p:
            coef *= p[0]
        else:
            if len(p) > 1 and self._maybe_imag(p):
                # p = i * q with q real
                q = self.pmul(p, {1: -1})
                if q[max(q)] < 0:
                    q = {m: -c for m, c in q.items()}
                    coef = -coef
                p = q
                fi = self.intern({1: 1})
                fac[fi] = fac.get(fi, 0) + 1
            if self.cutlim and len(p) > self.cutlim:
                sg, f = self.cut(p)
                fac[f] = fac.get(f, 0) + 1
                return S(self, coef * sg, self.clean(fac))
            f = self.intern(p)
            fac[f] = fac.get(f, 0) + 1
            return S(self, coef, self.clean(fac))._norm()
        return S(self, coef, self.clean(fac))

    cutlim = None

    def cut(self, p):
        """Name a large polynomial by a fresh symbol (equal polynomials share the symbol)."""
        memo = self.__dict__.setdefault("cut_memo", {})
        key = frozenset(p.items())
        r = memo.get(key)
        if r is not None:
            return r
        pc = self.pconj(p)
        sgn = 1
        if pc[max(pc)] < 0:
            sgn = -1
            pc = {m: -c for m, c in pc.items()}
        v = self._newvar(f"cut{len(memo)}", "cut")
        v.defn = ("cut", p)
        if pc == p:
            sg = self.is_positive_poly(p)
            v.positive = sg == "pos"
            v.nonneg = sg in ("pos", "nonneg")
            r = memo[key] = (1, self.intern_var(v))
        else:
            w = self._newvar(v.name + "~", "cut")
            v.conj, w.conj = w.idx, v.idx
            w.defn = ("conj", v.idx)
            r = memo[key] = (1, self.intern_var(v))
            memo[frozenset(pc.items())] = (sgn, self.intern_var(w))
        return r

    def _conj_mono(self, m):
        n = 0
        sg = 1
        for idx, e in self.monovars(m):
            if idx == 0:
                if e & 1:
                    sg = -sg
                n += e
            else:
                n += e << (self.vars[idx].conj * BITS)
        return n, sg

    def _maybe_imag(self, p):
        for m, c in p.items():
            n, sg = self._conj_mono(m)
            if p.get(n) != -c * sg:
                return False
        return True

    def clean(self, fac):
        return {f: e for f, e in fac.items() if e}

    def ssum(self, terms):
        """n-ary sum of scalars."""
        terms = [t for t in terms if t.coef]
        if not terms:
            return S(self, 0, {})
        if len(terms) == 1:
            return terms[0]
        # combine syntactically equal terms first
        byk = {}
        for t in terms:
            k = frozenset(t.fac.items())
            if k in byk:
                byk[k][1] += t.coef
            else:
                byk[k] = [t.fac, t.coef]
        items = [(f, c) for f, c in byk.values() if c]
        if not items:
            return S(self, 0, {})
        if len(items) == 1:
            return S(self, items[0][1], items[0][0])
        if self.dag and len(items) >= self.dag:
            r = self.dagsum(items)
            if r is not None:
                return r
        allf = set()
        for f, _ in items:
            allf.update(f)
        g = {}
        for fid in allf:
            e = min(f.get(fid, 0) for f, _ in items)
            if e:
                g[fid] = e
        den = 1
        for _, c in items:
            d = Fraction(c).denominator
            den = den * d // gcd(den, d)
        total = {}
        for f, c in items:
            p = {0: int(c * den)}
            exps = []
            for fid in allf:
                e = f.get(fid, 0) - g.get(fid, 0)
                if e:
                    exps.append((fid, e))
            exps.sort(key=lambda fe: len(self.factors[fe[0]]))
            for fid, e in exps:
                p = self.pmul(p, self.factor_pow(fid, e))
            total = self.padd(total, p)
        if not total:
            return S(self, 0, {})
        negs = [f for f, e in g.items() if e < 0 and len(self.factors[f]) > 1]
        r = self.from_poly(total, Fraction(1, den), g, try_div=negs)
        return r

    dag = 0

    def _constfac(self, f):
        return all(m <= FIELD for m in self.factors[f])

    def dagsum(self, items):
        """Name a sum by a fresh symbol; sums of the same terms (up to a common factor) share the symbol.

        This is congruence closure over the additions of the executed code: it proves equality of
        expressions that are computed the same way, without expanding them."""
        if all(self._constfac(f) for fac, _ in items for f in fac):
            return None
        first = items[0][0]
        g = {}
        for f, e in first.items():
            lo = hi = e
            for fac, _ in items[1:]:
                x = fac.get(f, 0)
                lo, hi = min(lo, x), max(hi, x)
            if lo > 0:
                g[f] = lo
            elif hi < 0:
                g[f] = hi
        rest = []
        for fac, c in items:
            rest.append((frozenset((f, e - g.get(f, 0)) for f, e in fac.items() if e != g.get(f, 0)), c))
        rest.sort(key=lambda t: sorted(t[0]))
        lead = rest[0][1]
        rest = [(k, c / lead) for k, c in rest]
        key = frozenset(rest)
        memo = self.__dict__.setdefault("dag_memo", {})
        r = memo.get(key)
        if r is None:
            ts = [S(self, c, dict(k)) for k, c in rest]
            ctr = [t.conjugate() for t in ts]
            cj = {}
            for t in ctr:
                k = frozenset(t.fac.items())
                cj[k] = cj.get(k, 0) + t.coef
            cj = {k: c for k, c in cj.items() if c}
            own = dict(rest)
            v = self._newvar(f"sum{len(memo)}", "dag")
            v.defn = ("sum", ts)
            if cj == own:
                signs = [t.sign_hint() for t in ts]
                if all(s in ("pos", "nonneg") for s in signs):
                    v.nonneg = True
                    v.positive = "pos" in signs
                fi = self.intern_var(v)
                r = memo[key] = (Fraction(1), fi, None)
            elif cj == {k: -c for k, c in own.items()}:
                # purely imaginary: i times a real symbol
                i = self.I()
                v.defn = ("sum", [t * i * -1 for t in ts])
                fi = self.intern_var(v)
                r = memo[key] = (Fraction(1), fi, next(iter(i.fac)))
            else:
                w = self._newvar(v.name + "~", "dag")
                v.conj, w.conj = w.idx, v.idx
                w.defn = ("conj", v.idx)
                r = memo[key] = (Fraction(1), self.intern_var(v), None)
                crest = sorted(cj.items(), key=lambda t: sorted(t[0]))
                cl = crest[0][1]
                ck = frozenset((k, c / cl) for k, c in crest)
                if ck not in memo:
                    memo[ck] = (1 / cl, self.intern_var(w), None)
        c, fi, im = r
        g[fi] = g.get(fi, 0) + 1
        out = S(self, lead * c, self.clean(g))
        if im is not None:
            out = out * self.I()
        return out._norm()

    def const(self, x):
        return S(self, Fraction(x), {})

    def I(self):
        return S(self, 1, {self.intern({1: 1}): 1})


class S:
    """Scalar; immutable."""

    __slots__ = ("R", "coef", "fac")
    __array_priority__ = 1000

    def __init__(self, R, coef, fac):
        self.R = R
        self.coef = coef if isinstance(coef, Fraction) else Fraction(coef)
        self.fac = fac

    # engine is set by nparr (context dependent decisions)
    ENG = None

    # ---- basic predicates
    def is_zero(self):
        return self.coef == 0

    def is_const(self):
        if not self.fac:
            return True
        return False

    def const_complex(self):
        """Gaussian-rational constant value as (re, im) or None."""
        if self.coef == 0:
            return (Fraction(0), Fraction(0))
        re, im = self.coef, Fraction(0)
        for f, e in self.fac.items():
            p = self.R.factors[f]
            if any(m > 1 for m in p):
                return None
            a, b = Fraction(p.get(0, 0)), Fraction(p.get(1, 0))
            if e < 0:
                n = a * a + b * b
                a, b = a / n, -b / n
                e = -e
            for _ in range(e):
                re, im = re * a - im * b, re * b + im * a
        return (re, im)

    def is_real(self):
        c = self.conjugate()
        if c.coef == self.coef and c.fac == self.fac:
            return True
        return (self - c).coef == 0

    def sign_hint(self):
        """'pos','neg','zero','nonneg','nonpos' or None, from syntactic facts only."""
        if self.coef == 0:
            return "zero"
        strict = True
        fac = dict(self.fac)
        seen = set()
        sg = 1 if self.coef > 0 else -1
        for f, e in list(fac.items()):
            if f in seen:
                continue
            cs, cf = self.R.conj_factor(f)
            if cf != f:
                if fac.get(cf, 0) != e:
                    return None
                seen.add(cf)
                if cs < 0 and e % 2:
                    sg = -sg
                if e > 0:
                    strict = False
                continue
            if cs < 0:  # purely imaginary factor
                return None
            s = self.R.factor_sign(f)
            if s == "pos":
                continue
            if s == "nonneg":
                if e > 0:
                    strict = False
                continue
            if e % 2 == 0:
                if e > 0:
                    strict = False
                continue
            return None
        if strict:
            return "pos" if sg > 0 else "neg"
        return "nonneg" if sg > 0 else "nonpos"

    # ---- arithmetic
    def _co(self, o):
        if isinstance(o, S):
            return o
        return of(self.R, o)

    def __add__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        if self.R.im_of and self.fac and o.fac:
            z = self._norm_of_parts(o) or o._norm_of_parts(self)
            if z is not None:
                return z
        return self.R.ssum([self, o])

    __radd__ = __add__

    def _norm_of_parts_root(self, a):
        """self = Im z, a = Re z  ->  z"""
        q = self * self
        z = self.R.im_of.get((q.coef, frozenset(q.fac.items())))
        r = z and z.real
        if not z or abs(r.coef) != abs(a.coef) or r.fac != a.fac:
            return None
        return z

    def _norm_of_parts(self, o):
        """self = (Im z)**2, o = (Re z)**2  ->  z * conj z"""
        z = self.R.im_of.get((self.coef, frozenset(self.fac.items())))
        if not z:
            return None
        r = z.real
        r = r * r
        return z * z.conjugate() if r.coef == o.coef and r.fac == o.fac else None

    def __neg__(self):
        return S(self.R, -self.coef, self.fac)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self.R.ssum([self, -o])

    def __rsub__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self.R.ssum([o, -self])

    def __mul__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        if self.coef == 0 or o.coef == 0:
            return S(self.R, 0, {})
        if not o.fac:
            return S(self.R, self.coef * o.coef, self.fac)
        if not self.fac:
            return S(self.R, self.coef * o.coef, o.fac)
        fac = dict(self.fac)
        for f, e in o.fac.items():
            n = fac.get(f, 0) + e
            if n:
                fac[f] = n
            else:
                fac.pop(f, None)
        return S(self.R, self.coef * o.coef, fac)._norm()

    __rmul__ = __mul__

    def _norm(self):
        """Collapse powers of i, sqrt atoms and unimodular pairs kept as factors."""
        R = self.R
        todo = None
        if len(self.fac) > 1:
            gauss = R.gauss
            if sum(1 for f in self.fac if f in gauss) > 1:
                merged = self._merge_constants()
                if merged is not None:
                    return merged
        for f, e in self.fac.items():
            idx = R.single(f)
            if idx >= 0:
                v = R.vars[idx]
                rule = R.rules.get(idx)
                if rule is not None and (e >= rule[0] or e <= -rule[0] or (idx == 0 and e < 0)):
                    todo = (todo or []) + [(f, e, idx, rule)]
                elif v.kind == "unim":
                    todo = (todo or []) + [(f, e, idx, None)]
        if not todo:
            return self
        coef = self.coef
        fac = dict(self.fac)
        extra = []
        for f, e, idx, rule in todo:
            if f not in fac:
                continue
            if rule is None:
                g = R.intern_var(R.vars[R.vars[idx].conj])
                e = fac.get(f, 0)
                eg = fac.get(g, 0)
                # u^e ubar^eg = u^(e-eg)
                n = e - eg
                fac.pop(f, None)
                fac.pop(g, None)
                if n > 0:
                    fac[f] = n
                elif n < 0:
                    fac[g] = -n
                continue
            if idx == 0:
                k = e % 4
                fac.pop(f)
                if k in (2, 3):
                    coef = -coef
                if k in (1, 3):
                    fac[f] = 1
                continue
            deg, F = rule
            k = int(e / deg)  # toward zero
            r = e - k * deg
            if r:
                fac[f] = r
            else:
                fac.pop(f)
            extra.append((F, k))
        res = S(R, coef, fac)
        for F, k in extra:
            b = R.from_poly(F)
            res = res * b ** k
        return res

    def _merge_constants(self):
        """(a + bi)(a - bi): a number"""
        R = self.R
        fac, coef = dict(self.fac), Fraction(self.coef)
        done = False
        for f, e in self.fac.items():
            if f not in R.gauss or f not in fac:
                continue
            sg, g = R.conj_factor(f)
            e, h = fac[f], fac.get(g, 0)
            if g == f or e * h <= 0 or e != int(e) or h != int(h):
                continue
            k = int(min(abs(e), abs(h))) * (1 if e > 0 else -1)
            p = R.factors[f]
            coef *= Fraction((p.get(0, 0) ** 2 + p[1] ** 2) * sg) ** k
            for q in (f, g):
                if fac[q] == k:
                    del fac[q]
                else:
                    fac[q] -= k
            done = True
        return S(R, coef, fac)._norm() if done else None

    def inverse(self):
        if self.coef == 0:
            raise ZeroDivisionError("symbolic division by zero")
        # a constant complex or i factor in the denominator is rationalised
        fac = {}
        mult = None
        for f, e in self.fac.items():
            p = self.R.factors[f]
            if e > 0 and all(m <= 1 for m in p):
                a, b = p.get(0, 0), p.get(1, 0)
                n = a * a + b * b
                q = self.R.from_poly({k: v for k, v in ((0, a), (1, -b)) if v}, Fraction(1, n))
                q = q ** e
                mult = q if mult is None else mult * q
            else:
                fac[f] = -e
        r = S(self.R, 1 / self.coef, fac)
        r = r._norm()
        if mult is not None:
            r = r * mult
        return r

    def __truediv__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        if self.ENG is not None:
            self.ENG.note_denominator(o)
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        if self.ENG is not None:
            self.ENG.note_denominator(self)
        return o * self.inverse()

    def __pow__(self, k):
        if isinstance(k, S):
            c = k.const_complex()
            if c is None or c[1] != 0:
                if self.ENG is not None:
                    return self.ENG.power(self, k)
                raise Unsupported("symbolic exponent")
            k = c[0]
        try:
            import numpy as _np

            if isinstance(k, _np.generic):
                k = k.item()
        except ImportError:
            pass
        if isinstance(k, float):
            k = frac_of_float(k)
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(k, int):
            if k == 0:
                return S(self.R, 1, {})
            if k < 0:
                if self.ENG is not None:
                    self.ENG.note_denominator(self)
                return self.inverse() ** (-k)
            if self.coef == 0:
                return self
            return S(self.R, self.coef ** k, {f: e * k for f, e in self.fac.items()})._norm()
        return self.ENG.power(self, k)

    def __rpow__(self, o):
        return self.ENG.power(of(self.R, o), self)

    def conjugate(self):
        R = self.R
        coef = self.coef
        fac = {}
        for f, e in self.fac.items():
            sg, g = R.conj_factor(f)
            if sg < 0 and e % 2:
                coef = -coef
            fac[g] = fac.get(g, 0) + e
        return S(R, coef, R.clean(fac))

    conj = conjugate

    @property
    def real(self):
        c = self.conjugate()
        if c.coef == self.coef and c.fac == self.fac:
            return self
        return self.R.ssum([self * Fraction(1, 2), c * Fraction(1, 2)])

    @property
    def imag(self):
        c = self.conjugate()
        if c.coef == self.coef and c.fac == self.fac:
            return S(self.R, 0, {})
        d = self.R.ssum([self * Fraction(1, 2), -(c * Fraction(1, 2))])
        r = d * (self.R.I() * -1)
        if len(self.R.im_of) < 20000:
            q = r * r
            self.R.im_of[q.coef, frozenset(q.fac.items())] = self
        return r

    def __abs__(self):
        return self.ENG.absolute(self)

    def sqrt(self):
        return self.ENG.sqrt(self)

    def exp(self):
        return self.ENG.exp(self)

    def log(self):
        return self.ENG.log(self)

    # ---- comparisons
    def __eq__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self.ENG.compare(self, o, "==")

    def __ne__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self.ENG.compare(self, o, "!=")

    def __lt__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self.ENG.compare(self, o, "<")

    def __le__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self.ENG.compare(self, o, "<=")

    def __gt__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self.ENG.compare(o, self, "<")

    def __ge__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self.ENG.compare(o, self, "<=")

    __hash__ = object.__hash__

    def key(self):
        return (self.coef, frozenset(self.fac.items()))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.const_complex()
        if c is None or c[1]:
            if self.ENG is not None and c is None:
                v = self.ENG.const_float(self)
                if v is not None:
                    return v
            raise Unsupported("float() of a symbolic value")
        return float(c[0])

    def __int__(self):
        c = self.const_complex()
        if c is None or c[1]:
            raise Unsupported("int() of a symbolic value")
        return int(c[0])

    def __index__(self):
        c = self.const_complex()
        if c is None or c[1] or c[0].denominator != 1:
            raise TypeError("symbolic value used as an index")
        return int(c[0])

    def __complex__(self):
        c = self.const_complex()
        if c is None:
            raise Unsupported("complex() of a symbolic value")
        return complex(float(c[0]), float(c[1]))

    # ---- numerators
    def numden(self):
        """(num poly, den poly, coef): value = coef * num/den with den product of factors"""
        R = self.R
        num = {0: 1}
        den = {0: 1}
        for f, e in sorted(self.fac.items(), key=lambda fe: len(R.factors[fe[0]])):
            if e > 0:
                num = R.pmul(num, R.factor_pow(f, e))
            else:
                den = R.pmul(den, R.factor_pow(f, -e))
        return num, den

    def __repr__(self):
        R = self.R

        def ps(p):
            out = []
            for m, c in list(p.items())[:6]:
                t = "*".join(
                    (R.vars[i].name + (f"^{e}" if e > 1 else "")) for i, e in R.monovars(m)
                )
                out.append(f"{c}" + ("*" + t if t else ""))
            return " + ".join(out) + (" + ..." if len(p) > 6 else "")

        if not self.fac:
            return str(self.coef)
        return f"{self.coef}" + "".join(
            f"*({ps(R.factors[f])})" + (f"^{e}" if e != 1 else "") for f, e in self.fac.items()
        )


def frac_of_float(x):
    """Float literal read as the simple rational it rounds (1/3, 0.1, 1e-10, ...)."""
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported(f"non-finite constant {x}")
    f = Fraction(x)
    if f.denominator <= 4096:
        return f
    g = f.limit_denominator(5000)
    if float(g) == x:
        return g
    k = f.limit_denominator(200)
    if 1e-3 < abs(x) < 1e4 and abs(float(k) - x) <= 8 * math.ulp(x):
        return k  # 3 * (1 / 5): the same constant up to rounding
    h = Fraction(repr(float(x)))
    if h.denominator <= 10 ** 14 and len(repr(float(x))) <= 10:
        return h
    return f


def of(R, x):
    if isinstance(x, S):
        return x
    import numpy as np

    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return of(R, x.item())
        return NotImplemented
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, bool):
        return S(R, int(x), {})
    if isinstance(x, (int, Fraction)):
        return S(R, x, {})
    if isinstance(x, float):
        if S.ENG is not None:
            return S.ENG.const_from_float(x)
        return S(R, frac_of_float(x), {})
    if isinstance(x, complex):
        a = of(R, x.real)
        if x.imag == 0:
            return a
        return a + of(R, x.imag) * R.I()
    return NotImplemented
