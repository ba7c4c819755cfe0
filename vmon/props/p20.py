"""P20 standard ultimate life table"""
import math
from actuarialmath import SULT
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip

RULE = ('A case constructs a standard ultimate table with default or changed interest rate, Makeham parameters, radix, age range and fractional-age assumption (at construction or reset later), and compares every age of every column of the frame, '
        'every keyed column, and queries at every age with values computed from the Makeham law itself by sums over years of death; the published table at five percent anchors the reference. Distinct by configuration.')
ASSUMPTIONS = ['whole-life values are compared when (almost) none survive the last age of the table; term values always', 'the last age of the table ends it']
DIGITS = {'l_x': 1, 'q_x': 6, 'a_x': 4, 'A_x': 5, '2A_x': 5, 'a_x:10': 4, 'A_x:10': 5, 'a_x:20': 4, 'A_x:20': 5, '5_E_x': 5, '10_E_x': 5, '20_E_x': 5}
# published values of the standard ultimate table at 5%: age -> (a_x, A_x, 2A_x)
PUBLISHED = {20: (19.9664, .04922, .00580), 40: (18.4578, .12106, .02347), 50: (17.0245, .18931, .05108), 60: (14.9041, .29028, .10834), 65: (13.5498, .35477, .15420)}


class Ref:
    def __init__(self, law, lo, hi, i, radix):
        self.law, self.lo, self.hi, self.i, self.radix = law, lo, hi, i, radix
        v = 1 / (1 + i); v2 = v * v
        self.S0 = {x: law.S(lo, 0, x - lo) for x in range(lo, hi + 1)}
        self.l = {x: radix * s for x, s in self.S0.items()}
        # whole life by backward summation (nothing beyond the last age)
        A, A2, a = {hi: 0.}, {hi: 0.}, {hi: 0.}
        for x in range(hi - 1, lo - 1, -1):
            p = law.S(x, 0, 1)
            A[x] = v * (1 - p + p * A[x + 1]); A2[x] = v2 * (1 - p + p * A2[x + 1]); a[x] = 1 + v * p * a[x + 1]
        self.A, self.A2, self.a = A, A2, a
        self.closed = {x: self.S0[x] > 0 and self.S0[hi] / self.S0[x] * v**(hi - x) < 1e-9 for x in range(lo, hi)}

    def E(self, x, t):
        return 0. if x + t > self.hi else (1 + self.i)**-t * self.law.S(x, 0, t)

    def term(self, x, t, mom=1):
        B = self.A if mom == 1 else self.A2
        if x + t >= self.hi: return B[x]
        return B[x] - (1 + self.i)**(-mom * t) * self.law.S(x, 0, t) * B[x + t]

    def temp(self, x, t):
        return self.a[x] if x + t >= self.hi else self.a[x] - self.E(x, t) * self.a[x + t]

    def endow(self, x, t, mom=1):
        return self.term(x, t, mom) + (0 if x + t > self.hi else (1 + self.i)**(-mom * t) * self.law.S(x, 0, t))

    def cell(self, col, x):
        """value, or None where the column is not determined at this age"""
        ok = self.closed.get(x, False)
        past = lambda t: x + t >= self.hi and not ok
        if col == 'l_x': return self.l[x]
        if col == 'q_x': return 1 - self.law.S(x, 0, 1)
        if col == 'a_x': return self.a[x] if ok else None
        if col == 'A_x': return self.A[x] if ok else None
        if col == '2A_x': return self.A2[x] if ok else None
        t = int(col.split(':')[1] if ':' in col else col.split('_')[0])
        if past(t): return None
        return self.temp(x, t) if col[0] == 'a' else self.endow(x, t) if col[0] == 'A' else self.E(x, t)


def build(c, rng, std=False):
    kw = {}
    law = gens._sult_law
    lo, hi, i, radix = 20, 130, .05, 100000
    if rng.random() < .5: i = kw['i'] = gens.rate(rng)
    if rng.random() < .4: radix = kw['radix'] = rng.choice([1, 1000, 10**6, rng.uniform(1e4, 1e6)])
    if rng.random() < .5:
        r = rng.random()
        if r < .6: lo = kw['minage'] = rng.randint(0, 60)
        if r > .4: hi = kw['maxage'] = rng.choice([rng.randint(lo + 25, 119), rng.randint(120, 140)])
    if rng.random() < .4:
        law = ref.Makeham(A=rng.choice([0, rng.uniform(0, .003)]), B=10**rng.uniform(-6, -4), c=rng.uniform(1.08, 1.14))
        kw['S'] = lambda x, t: law.S(x, 0, t)
    udd = rng.random() < .7
    if not udd or rng.random() < .5: kw['udd'] = udd
    o = c.call('SULT', lambda: SULT(**kw))
    # reset the interest rate
    if rng.random() < .4:
        if rng.random() < .4: c.call('query', o.whole_life_annuity, lo + 5); c.call('frame', o.frame)
        i = gens.rate(rng)
        c.call('set_interest', o.set_interest, **gens.interest_kw(rng, i)); c.dim(reset=True)
    while hi - lo > 3 and radix * law.S(lo, 0, hi - lo) < 0: hi -= 1
    c.note(law=law, ages=(lo, hi), i=i, radix=radix, udd=udd)
    c.dim(**{k: (k in kw) for k in ('i', 'radix', 'minage', 'maxage', 'S')}, udd=udd)
    return o, Ref(law, lo, hi, i, radix), udd


def enough(R, x): return R.l[x] > .5       # the table keeps seven decimals of the number of lives


def frame(c, rng):
    o, R, udd = build(c, rng)
    lo, hi = R.lo, R.hi
    how = rng.choice(['default', 'all', 'part'])
    if how == 'default': F = c.call('frame', o.frame); a, b = 20, 100
    elif how == 'all': a, b = lo, hi; F = c.call('frame', o.frame, minage=a, maxage=b)
    else:
        a = rng.randint(lo, hi - 2); b = rng.randint(a, hi - 1)
        F = c.call('frame', o.frame, a, b)
    c.dim(frame=how)
    c.same('frame.ages', list(F.index), [x for x in range(max(a, lo), min(b, hi) + 1)])
    c.same('frame.columns', sorted(F.columns), sorted(DIGITS))
    for x in F.index:
        for col, dg in DIGITS.items():
            if x == hi and col != 'l_x': continue
            if not enough(R, x): continue
            w = R.cell(col, x)
            if w is None: continue
            try: g = float(F.loc[x, col])
            except Exception as e: c.decided('frame.' + col); c.violate('frame.' + col, f'{F.loc[x, col]!r}: {e}'); continue
            tol = .5 * 10**-dg
            eps = 2e-6 if col == 'q_x' and R.l[x] < 1e3 else 1e-6 * max(1, abs(w)) * (1e2 / R.l[x] if R.l[x] < 1e2 else 1) if col != 'l_x' else 1e-6 + 1e-9 * w
            c.true('frame.' + col, abs(g - w) <= tol + eps, lambda: f'age {x}: shows {F.loc[x, col]} but the law gives {w}')


def columns(c, rng):
    o, R, udd = build(c, rng)
    ages = list(range(R.lo, R.hi))
    for k in rng.sample('qpaA', 4):
        D = c.call(f'column.{k}', lambda: o[k])
        c.same(f'column.{k}.ages', sorted(D), ages)
        for x in ages:
            if not enough(R, x): break
            w = {'q': lambda: 1 - R.law.S(x, 0, 1), 'p': lambda: R.law.S(x, 0, 1), 'a': lambda: R.cell('a_x', x), 'A': lambda: R.cell('A_x', x)}[k]()
            if w is not None: c.close(f'column.{k}', D[x], w, rel=2e-6, abs=1e-6)
    for bad in ('z', 'x'): c.raises('column.unknown', lambda: o[bad])


def queries(c, rng):
    o, R, udd = build(c, rng)
    tol = dict(rel=2e-6, abs=1e-6)
    for _ in range(10):
        x = rng.randint(R.lo, R.hi - 1)
        if not enough(R, x): continue
        s = rng.choice([0, 0, rng.randint(0, x - R.lo)]); y = x - s; a = dict(s=s) if s or rng.random() < .5 else {}
        t = rng.randint(0, R.hi - x)
        u = rng.randint(0, R.hi - x - 1)
        law = R.law
        c.value('q.l_x', R.l[x], o.l_x, y, **a, rel=1e-7, abs=1e-6)
        c.value('q.d_x', R.l[x] - R.l[x + 1], o.d_x, y, **a, rel=1e-6, abs=1e-6)
        c.value('q.p_x', law.S(x, 0, t), o.p_x, y, t=t, **a, **tol)
        if u + t <= R.hi - x: c.value('q.q_x', law.S(x, 0, u) - law.S(x, 0, u + t), o.q_x, y, t=t, u=u, **a, **tol)
        c.value('q.E_x', R.E(x, t), o.E_x, y, t=t, **a, **tol)
        b = rng.choice([1, 1000])
        ok = R.closed[x]
        tl = dict(rel=2e-6, abs=1e-6 * b)
        if ok:
            c.value('q.whole_life_insurance', b * R.A[x], o.whole_life_insurance, y, b=b, **a, **tl)
            c.value('q.whole_life_insurance.m2', b * b * R.A2[x], o.whole_life_insurance, y, b=b, moment=2, **a, rel=2e-6, abs=1e-6 * b * b)
            c.value('q.whole_life_insurance.var', b * b * (R.A2[x] - R.A[x]**2), o.whole_life_insurance, y, b=b, moment=-2, **a, rel=1e-5, abs=3e-6 * b * b)
            c.value('q.whole_life_annuity', b * R.a[x], o.whole_life_annuity, y, b=b, **a, rel=2e-6, abs=2e-5 * b)
            c.value('q.deferred_annuity', b * R.E(x, u) * (R.a[x + u]), o.deferred_annuity, y, u=u, b=b, **a, rel=2e-6, abs=2e-5 * b)
            c.value('q.deferred_insurance', b * R.E(x, u) * (R.A[x + u]), o.deferred_insurance, y, u=u, b=b, **a, **tl)
            c.value('q.immediate_annuity', b * (R.a[x] - 1), o.immediate_annuity, y, b=b, **a, rel=2e-6, abs=2e-5 * b)
            if R.i > 0 and rng.random() < .3:
                k = R.i / math.log1p(R.i)
                if udd: c.value('q.continuous', b * k * R.A[x], o.whole_life_insurance, y, b=b, discrete=False, **a, rel=1e-5, abs=1e-5 * b)
            e = math.fsum(law.S(x, 0, k) for k in range(1, R.hi - x + 1))
            if law.S(x, 0, R.hi - x) < 1e-9: c.value('q.e_x', e, o.e_x, y, **a, rel=2e-6, abs=1e-5)
        if 0 < t < R.hi - x:
            c.value('q.term_insurance', b * R.term(x, t), o.term_insurance, y, t=t, b=b, **a, **tl)
            c.value('q.term_insurance.m2', b * b * R.term(x, t, 2), o.term_insurance, y, t=t, b=b, moment=2, **a, rel=2e-6, abs=1e-6 * b * b)
            c.value('q.endowment_insurance', b * R.endow(x, t), o.endowment_insurance, y, t=t, b=b, **a, **tl)
            c.value('q.temporary_annuity', b * R.temp(x, t), o.temporary_annuity, y, t=t, b=b, **a, rel=2e-6, abs=2e-5 * b)
        # fractional ages
        if x + 1 < R.hi:
            r = rng.random(); p = law.S(x, 0, 1)
            c.value('q.p_r', 1 - r * (1 - p) if udd else p**r, o.p_r, y, r=0, t=r, **a, **tol)


def published(c, rng):
    x = rng.choice(list(PUBLISHED)); a, A, A2 = PUBLISHED[x]
    o = SULT()
    R = Ref(gens._sult_law, 20, 130, .05, 100000)
    c.note(x=x)
    for w, g in ((a, R.a[x]), (A, R.A[x]), (A2, R.A2[x])):
        if abs(w - g) > 6e-5: raise RuntimeError(f'reference disagrees with the published table: {w} {g}')
    c.value('published.a', a, o.whole_life_annuity, x, rel=0, abs=5.1e-5)
    c.value('published.A', A, o.whole_life_insurance, x, rel=0, abs=5.1e-6)
    c.value('published.2A', A2, o.whole_life_insurance, x, moment=2, rel=0, abs=5.1e-6)
    f = o.frame()
    for col, w in (('a_x', a), ('A_x', A), ('2A_x', A2)): c.close('published.frame', float(f.loc[x, col]), w, rel=0, abs=1e-9)
    for bad in (dict(i=-.5),): c.raises('refused', lambda: SULT(**bad))


GROUPS = [('frame', frame, 100, 1500), ('columns', columns, 100, 1500), ('queries', queries, 300, 5000), ('published', published, 30, 100)]
