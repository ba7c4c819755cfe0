"""P16 m-thly insurances and annuities"""
import math
from actuarialmath import Mthly
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip
from vmon.products import Val

RULE = ('A case draws a mortality basis of any kind, an interest rate, a payment frequency (1 to 365, or continuous), an age, select duration, term, deferral, benefit and endowment, and compares m-thly discount '
        'factors, probabilities, present-value tables, insurances (both moments and variance), twins and annuities with explicit sums over m-thly periods of the reference survival function (quadrature when continuous); '
        'distinct by model, rate, frequency and policy.')
ASSUMPTIONS = ['a benefit function is evaluated at the beginning of the m-thly period, as Z_m documents', 'annuities need positive interest (they are obtained from insurances)',
               'user-specified survival functions are interpolated between integer ages, as fractional-age queries do; whole-life values only where survival vanishes by the last age']
VAR = -2


class Frac:
    """reference survival at fractional durations of [x]+s, and sums over m-thly periods"""

    def __init__(self, m, x, s, i, udd=True):
        self.v = Val(m, x, s, i)
        self.m, self.x, self.s, self.i = m, x, s, i
        self.exact = not m.kind.startswith('generic')
        self.udd = udd
        self.whole = (m.natural or m.law.omega is None) and self.v.E(self.v.N) < 1e-10
        self.memo = {}

    def at(self, r, x=None, s=None):
        """survival r years from [x]+s, to a fractional duration"""
        m = self.m
        S = m.S(self.x, self.s) if s is None else m.S(self.x, s)
        k = math.floor(r); g = r - k
        if not g or self.exact: return S(r)
        a, b = S(k), S(k + 1)
        if self.udd: return a + g * (b - a)
        return a * (b / a)**g if a > 0 and b > 0 else 0.

    def S(self, j, f):
        """survival j/f years"""
        k = (j, f)
        if k not in self.memo:
            self.memo[k] = self.at(j / f if j % f else j // f)
        return self.memo[k]

    def n(self, t, u=0): return self.v.cap(t, u)

    def ins(self, f, t=-1, u=0, b=1., mom=1):
        n = self.n(t, u)
        bf = b if callable(b) else lambda _: b
        if f == 0: return self.v.ins(t, u=u, b=b, mom=mom, disc=False)
        return math.fsum((bf(j / f) * (1 + self.i)**(-(j + 1) / f))**mom * (self.S(j, f) - self.S(j + 1, f)) for j in range(u * f, (u + n) * f))

    def ann(self, f, t=-1, u=0, b=1.):
        if f == 0: return self.v.ann(t, u=u, b=b, disc=False)
        n = self.n(t, u)
        return b * math.fsum((1 + self.i)**(-j / f) * self.S(j, f) for j in range(u * f, (u + n) * f)) / f

    def ann_var(self, f, t=-1, b=1.):
        if f == 0: return self.v.ann_var(t, b=b, disc=False)
        n = self.n(t) * f
        m1 = m2 = y = 0.
        for j in range(n):
            y += b * (1 + self.i)**(-j / f) / f
            p = self.S(j, f) - (self.S(j + 1, f) if j + 1 < n else 0)
            m1 += p * y; m2 += p * y * y
        return m2 - m1 * m1

    def E(self, t, b=1., mom=1): return 0. if t < 0 else self.v.E(t, b, mom)


def frequency(rng, cont=True):
    return rng.choice([1, 2, 2, 3, 4, 4, 6, 12, 12, 12, 24, 52, rng.randint(2, 40)] + ([0] * 2 if cont else []) + ([365] if rng.random() < .1 else []))


def populated(rng, m):
    """tables keep seven decimals of the number of lives: use ages at which at least one life remains"""
    while m.kind.startswith(('LifeTable-q', 'LifeTable-p')) and m.law.S(m.minage, 0, m.maxage - m.minage - 1) < 1e-5:
        m = gens.table_model(rng, short=rng.random() < .5)
    return m


def scene(c, rng, cont=True, zero=True, weights=None):
    f = frequency(rng, cont)
    w = weights or dict(generic=3, law=4, table=5, sult=1)
    m = gens.any_model(rng, w)
    if f == 0 and m.kind.startswith('generic'): m = gens.law_model(rng, ('CF', 'Uniform', 'Gompertz', 'Makeham'))
    if f > 60 and m.kind.startswith('generic'): m = gens.table_model(rng)
    if m.kind == 'Beta' and f == 0: m = gens.law_model(rng, ('CF', 'Uniform', 'Makeham'))
    m = populated(rng, m)
    x, s = m.pick_age(rng)
    i = gens.rate(rng, zero=zero)
    c.call('set_interest', m.obj.set_interest, **gens.interest_kw(rng, i))
    udd = getattr(m.obj, 'udd_', True)
    F = Frac(m, x, s, i, udd)
    if f and F.v.N * f > 4000 and rng.random() < .8: f = 2
    c.note(model=m, x=x, s=s, i=i, m=f)
    c.dim(kind=m.kind, m=f, s=min(s, 2), zero_interest=i == 0)
    o = c.call('Mthly', Mthly, m=f, life=m.obj)
    rel = (2e-6 if m.kind.startswith('LifeTable') else 1e-7) if f else (1e-5 if m.kind.startswith(('LifeTable', 'SULT')) else 2e-5)
    return m, x, s, i, f, F, o, rel


def amount(rng): return rng.choice([1, 2, 12 * 250, rng.uniform(.1, 5), rng.randint(1000, 100000)])


def terms(rng, F):
    hi = max(1, min(F.v.N, 60))
    t = rng.choice([1, rng.randint(1, hi), rng.randint(1, hi), hi])
    if F.v.N <= 60 and rng.random() < .1: t = F.v.N
    u = rng.choice([0, 1, rng.randint(0, max(0, hi - 1))])
    n = rng.randint(0, max(0, min(F.v.N - u, 40)))
    return t, u, n


def insurances(c, rng):
    m, x, s, i, f, F, o, rel = scene(c, rng)
    t, u, n = terms(rng, F)
    b, e = amount(rng), amount(rng)
    c.note(t=t, u=u, n=n, b=b, e=e)
    A = lambda key, fn, ref_, scale, *a, **k: three(c, key, fn, ref_, scale, rel, *a, **k)
    which = rng.sample(['whole', 'term', 'deferred', 'endow', 'pure', 'raw'], 3)
    if 'whole' in which and F.whole:
        A('mthly.whole_life_insurance', o.whole_life_insurance, lambda q: F.ins(f, b=b, mom=q), b, x, s=s, b=b)
    if 'term' in which:
        A('mthly.term_insurance', o.term_insurance, lambda q: F.ins(f, t, b=b, mom=q), b, x, s=s, t=t, b=b)
    if 'deferred' in which and (F.whole or n < F.v.N - u):
        if rng.random() < .5 and F.whole: n = -1
        A('mthly.deferred_insurance', o.deferred_insurance, lambda q: F.ins(f, n, u=u, b=b, mom=q), b, x, s, u, b, n if n >= 0 else Mthly.WHOLE)
    if 'endow' in which:
        how = rng.choice(['default', 'equal', 'other', 'zero'])
        ee = dict(default=b, equal=b, other=e, zero=0)[how]
        kw = {} if how == 'default' else dict(endowment=ee)
        A('mthly.endowment_insurance', o.endowment_insurance, lambda q: F.ins(f, t, b=b, mom=q) + F.E(t, ee, q), max(b, ee), x, s=s, t=t, b=b, **kw)
    if 'pure' in which:
        for q in (1, 2):
            c.value('mthly.E_x', F.E(t, e, q), o.E_x, x, s=s, t=t, endowment=e, moment=q, rel=rel, abs=1e-9 * e**q)
    if 'raw' in which:
        kind = rng.choice(['level', 'linear', 'exp', 'step'])
        bf = dict(level=lambda z, r: b, linear=lambda z, r: b * (1 + r), exp=lambda z, r: b * math.exp(.03 * r), step=lambda z, r: b * (1 + (r >= 2)))[kind]
        if n < 0 and kind == 'exp': bf = lambda z, r: b         # growth may outrun mortality: the last age would matter
        if f == 0 and kind == 'step': bf = lambda z, r: b
        age = x + s
        bad = []
        def g(z, r):
            if z != age: bad.append(z)
            return bf(z, r)
        q = rng.choice([1, 2])
        tt = n
        c.value('mthly.A_x', F.ins(f, tt, u=u, b=lambda r: bf(age, r), mom=q), o.A_x, x, s=s, t=tt, u=u, benefit=g, moment=q, rel=rel, abs=1e-7 * (b * (1 + u + n) * 20)**q)
        c.true('mthly.benefit-age', not bad, lambda: f'benefit called with ages {bad[:3]} instead of {age}')


def three(c, key, fn, ref_, scale, rel, *a, **k):
    m1, m2 = ref_(1), ref_(2)
    c.value(key, m1, fn, *a, **k, rel=rel, abs=1e-7 * scale)
    c.value(key + '.m2', m2, fn, *a, **k, moment=2, rel=rel, abs=1e-7 * scale**2)
    c.value(key + '.var', max(0, m2 - m1 * m1), fn, *a, **k, moment=VAR, rel=rel * 10, abs=(1e-7 + 3 * rel * m2 / scale**2) * scale**2)


def annuities(c, rng):
    m, x, s, i, f, F, o, rel = scene(c, rng, zero=False)
    t, u, n = terms(rng, F)
    b = amount(rng)
    c.note(t=t, u=u, n=n, b=b)
    ab = (1e-7 if f else 2e-5) / i * b           # twins divide insurance by the rate of interest
    if F.whole:
        c.value('mthly.whole_life_annuity', F.ann(f, b=b), o.whole_life_annuity, x, s=s, b=b, rel=rel, abs=ab)
        c.value('mthly.whole_life_annuity.var', F.ann_var(f, b=b), o.whole_life_annuity, x, s=s, b=b, variance=True, rel=1e-5, abs=ab * b / i * 3)
        c.value('mthly.immediate_annuity', b * F.ann(f) - (b / f if f else 0), o.immediate_annuity, x, s=s, b=b, rel=rel, abs=ab)
    c.value('mthly.temporary_annuity', F.ann(f, t, b=b), o.temporary_annuity, x, s=s, t=t, b=b, rel=rel, abs=ab)
    c.value('mthly.temporary_annuity.var', F.ann_var(f, t, b=b), o.temporary_annuity, x, s=s, t=t, b=b, variance=True, rel=1e-5, abs=ab * b / i * 3)
    c.value('mthly.immediate_annuity.term', F.ann(f, t, b=b) - (b / f * (1 - F.E(t)) if f else 0), o.immediate_annuity, x, s=s, t=t, b=b, rel=rel, abs=ab)
    if F.whole or n < F.v.N - u:
        c.value('mthly.deferred_annuity', F.ann(f, n, u=u, b=b), o.deferred_annuity, x, s=s, u=u, t=n, b=b, rel=rel, abs=ab)
    # twins at this rate and frequency
    dm = f * -math.expm1(-math.log1p(i) / f) if f else math.log1p(i)
    A1 = rng.uniform(.01, .95); A2 = A1**2 + rng.uniform(0, .5) * (A1 - A1**2)
    c.value('mthly.annuity_twin', (1 - A1) / dm, o.annuity_twin, A1)
    c.value('mthly.insurance_twin', A1, o.insurance_twin, (1 - A1) / dm)
    c.value('mthly.annuity_variance', b**2 * (A2 - A1**2) / dm**2, o.annuity_variance, A2=A2, A1=A1, b=b)


def pieces(c, rng):
    m, x, s, i, f, F, o, rel = scene(c, rng, cont=False)
    k = rng.randint(0, 5 * f)
    c.value('mthly.v_m', (1 + i)**(-k / f), o.v_m, k)
    hi = max(1, min(F.v.N - 1, 30)) * f
    # survival from a fractional age, in whole m-thly periods
    for _ in range(4):
        sm = rng.choice([s * f, s * f, s * f + rng.randint(0, f)])
        t, u = rng.randint(0, hi), rng.choice([0, 0, 1, rng.randint(0, hi)])
        if sm + u + t > s * f + hi + f: continue
        base = F.at(sm / f, s=0) if sm % f else F.at(sm // f, s=0)
        g = lambda j: F.at((sm + j) / f if (sm + j) % f else (sm + j) // f, s=0) / base
        if base <= 1e-4: continue
        c.value('mthly.p_m', g(t), o.p_m, x, s_m=sm, t_m=t, rel=rel, abs=1e-8)
        c.value('mthly.q_m', g(u) - g(u + t), o.q_m, x, s_m=sm, t_m=t, u_m=u, rel=rel, abs=rel / 10)
    # table of present values
    t = rng.randint(1, max(1, min(F.v.N, 6))); b = amount(rng); up = rng.choice([0, b * .1]); q = rng.choice([1, 1, 2])
    c.note(t=t, b=b, up=up, moment=q)
    seen = []
    def bz(z, r):
        if z != x + s: seen.append(z)
        return b + up * r
    Z = c.call('mthly.Z_m', o.Z_m, x, s=s, t=t, benefit=bz, moment=q)
    c.true('mthly.Z_m.benefit-age', not seen, lambda: f'benefit called with ages {seen[:3]} instead of {x + s}')
    c.same('mthly.Z_m.index', list(Z.index), list(range(1, t * f + 1)))
    tot = 0.
    for j in range(t * f):
        c.close('mthly.Z_m.Z', Z.iloc[j]['Z'], ((b + up * j / f) * (1 + i)**(-(j + 1) / f))**q, rel=1e-9)
        p = F.S(j, f) - F.S(j + 1, f)
        c.close('mthly.Z_m.q', Z.iloc[j]['q'], p, rel=1e-6, abs=1e-8)
        tot += float(Z.iloc[j]['Z']) * float(Z.iloc[j]['q'])
    c.value('mthly.Z_m.total', tot, o.A_x, x, s=s, t=t, benefit=lambda z, r: b + up * r, moment=q, rel=1e-7, abs=1e-8 * b**q)


def discount_function(c, rng):
    """interest as a discount function: m-thly factors follow it"""
    m = gens.any_model(rng, dict(law=3, table=4))
    r, h = rng.uniform(.005, .08), rng.uniform(.5, 2)
    fn = rng.choice([lambda t: (1 + r * t) ** -h, lambda t: math.exp(-r * t - .0005 * t * t)])
    f = frequency(rng, False)
    c.call('set_interest', m.obj.set_interest, v_t=fn)
    o = Mthly(m=f, life=m.obj)
    c.note(model=m, f=f, r=r, h=h)
    for k in (0, 1, f, rng.randint(0, 8 * f)): c.value('vt.v_m', fn(k / f), o.v_m, k, rel=1e-9)


def annual(c, rng):
    """frequency one reproduces annual values; continuous is the limit of frequent payment"""
    m = gens.any_model(rng, dict(law=3, table=4, sult=1))
    if m.kind == 'Beta': m = gens.law_model(rng, ('Uniform', 'Makeham'))
    m = populated(rng, m)
    x, s = m.pick_age(rng)
    i = gens.rate(rng, zero=False)
    m.obj.set_interest(i=i)
    F = Frac(m, x, s, i)
    if not F.whole: raise Skip()
    t, u, n = terms(rng, F)
    b = amount(rng)
    c.note(model=m, x=x, s=s, i=i, t=t, u=u, n=n, b=b)
    L = m.obj
    one, cont, big = Mthly(m=1, life=L), Mthly(m=0, life=L), Mthly(m=rng.choice([50, 100]), life=L)
    Q = [('whole_life_insurance', (), {}), ('term_insurance', (), dict(t=t)), ('endowment_insurance', (), dict(t=t)),
         ('whole_life_annuity', (), {}), ('temporary_annuity', (), dict(t=t)), ('deferred_annuity', (), dict(u=u, t=n))]
    for name, a, k in rng.sample(Q, 2):
        c.dim(product=name)
        kw = dict(s=s, b=b, **k)
        w = c.call('mthly.annual', getattr(L, name), x, *a, discrete=True, **kw)
        c.value('mthly.annual.' + name, w, getattr(one, name), x, *a, **kw, rel=1e-6, abs=1e-6 * b / i)
        g = c.call('mthly.limit', getattr(cont, name), x, *a, **kw)
        h = c.call('mthly.limit', getattr(big, name), x, *a, **kw)
        # benefits arrive at most a period late (or a period early)
        c.true('mthly.limit.' + name, abs(g - h) <= (abs(g) * math.log1p(i) + b) * 1.05 / big.m + 1e-4 * b / i * .01,
               lambda: f'continuous {g} but {h} at {big.m} payments a year')


GROUPS = [('discount_function', discount_function, 80, 1000), ('insurances', insurances, 400, 8000), ('annuities', annuities, 320, 6000), ('pieces', pieces, 300, 4000), ('annual', annual, 80, 1200)]
QUICK = 2      # scale of the quick tier
