"""P17 UDD and Woolhouse approximations"""
import math
from actuarialmath import UDD, Woolhouse, Mthly, Recursion, Annuity
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip
from vmon.products import Val
from vmon.props.p16 import Frac, frequency, populated, amount, terms

RULE = ('A case draws a mortality basis of any kind, an interest rate, a payment frequency (1 to 365, or continuous), an age, select duration, term, deferral and amount, and compares every UDD-adjusted and Woolhouse value with '
        'the defining formula applied to independently summed annual values; UDD values also with explicit m-thly sums when deaths are in fact uniform within each year, both approximations with annual values at frequency one, '
        'and with facts held by a recursion solver; distinct by model, rate, frequency and policy.')
ASSUMPTIONS = ['positive interest', 'Woolhouse is an expansion about the annual values of the same life; its third term needs the force of mortality, exact, approximated from p at the two adjacent ages (which must exist), or supplied']
VAR = -2


class Factors:
    def __init__(self, i, m):
        dl = math.log1p(i)
        self.i, self.m, self.dl = i, m, dl
        self.im = m * math.expm1(dl / m) if m else dl
        self.dm = -m * math.expm1(-dl / m) if m else dl
        self.d = i / (1 + i)
        self.alpha = i * self.d / self.im / self.dm
        self.beta = (i - self.im) / self.im / self.dm

    def k(self, mom): return self.i / self.im if mom == 1 else (self.i * (self.i + 2)) / Factors(self.i * (self.i + 2), self.m).im


def scene(c, rng, weights=None, reset=True):
    f = frequency(rng)
    m = gens.any_model(rng, weights or dict(generic=2, law=3, table=5, sult=2))
    m = populated(rng, m)
    x, s = m.pick_age(rng)
    i = gens.rate(rng, zero=False)
    c.call('set_interest', m.obj.set_interest, **gens.interest_kw(rng, i))
    F = Frac(m, x, s, i, getattr(m.obj, 'udd_', True))
    c.note(model=m, x=x, s=s, i=i, m=f)
    c.dim(kind=m.kind, m=f, s=min(s, 2))
    rel = 2e-6 if m.kind.startswith('LifeTable') else 1e-7
    return m, x, s, i, f, F, rel


def three(c, key, fn, ref_, scale, rel, *a, **k):
    m1, m2 = ref_(1), ref_(2)
    c.value(key, m1, fn, *a, **k, rel=rel, abs=1e-8 * scale)
    c.value(key + '.m2', m2, fn, *a, **k, moment=2, rel=rel, abs=1e-8 * scale**2)
    c.value(key + '.var', m2 - m1 * m1, fn, *a, **k, moment=VAR, rel=rel * 10, abs=(1e-8 + 3 * rel * abs(m2) / scale**2) * scale**2)


def udd_products(c, rng):
    m, x, s, i, f, F, rel = scene(c, rng)
    v = F.v; fa = Factors(i, f)
    t, u, n = terms(rng, F)
    b, e = amount(rng), amount(rng)
    o = c.call('UDD', UDD, m=f, life=m.obj)
    if rng.random() < .2:                        # a later change of interest applies to subsequent queries
        i = gens.rate(rng, zero=False); m.obj.set_interest(i=i)
        F = Frac(m, x, s, i); v = F.v; fa = Factors(i, f)
        t, u, n = terms(rng, F); c.dim(reset=True)
    c.note(t=t, u=u, n=n, b=b, e=e, i_now=i)
    whole = F.whole; fits = F.whole or n < v.N - u
    N = n if n >= 0 else -1
    INS = lambda q, t_=-1, u_=0: fa.k(q) * v.ins(t_, u=u_, mom=q)
    which = rng.sample(['whole', 'term', 'endow', 'deferred', 'annuity', 'temporary', 'defann', 'immediate'], 4)
    ab = 1e-8 / i * b * 10
    if 'whole' in which and whole:
        three(c, 'udd.whole_life_insurance', o.whole_life_insurance, lambda q: INS(q) * b**q, b, rel, x, s=s, b=b)
    if 'term' in which:
        three(c, 'udd.term_insurance', o.term_insurance, lambda q: INS(q, t) * b**q, b, rel, x, s=s, t=t, b=b)
    if 'endow' in which:
        how = rng.choice(['default', 'other', 'zero'])
        ee = dict(default=b, other=e, zero=0)[how]
        kw = {} if how == 'default' else dict(endowment=ee)
        three(c, 'udd.endowment_insurance', o.endowment_insurance, lambda q: INS(q, t) * b**q + F.E(t, ee, q), max(b, ee), rel, x, s=s, t=t, b=b, **kw)
    if 'deferred' in which and fits:
        three(c, 'udd.deferred_insurance', o.deferred_insurance, lambda q: INS(q, n, u) * b**q, b, rel, x, s=s, u=u, t=n if n >= 0 else Annuity.WHOLE, b=b)
    A = lambda t_=-1, u_=0: fa.alpha * v.ann(t_, u=u_) - fa.beta * (F.E(u_) - F.E(u_ + v.cap(t_, u_)) if not (t_ < 0 and whole) else F.E(u_))
    def avar(t_):          # from the moments of the endowment (or whole life) insurance of (x) and the twin
        if t_ < 0: a1, a2 = INS(1), INS(2)
        else: a1, a2 = [INS(q, t_) + F.E(t_, 1, q) for q in (1, 2)]
        return (a2 - a1 * a1) / fa.dm**2
    va = b * b * (1e-8 + 5 * rel) / i**2
    if 'annuity' in which and whole:
        c.value('udd.whole_life_annuity', b * A(), o.whole_life_annuity, x, s=s, b=b, rel=rel, abs=ab)
        c.value('udd.whole_life_annuity.var', b * b * avar(-1), o.whole_life_annuity, x, s=s, b=b, variance=True, rel=10 * rel, abs=va)
        c.value('udd.temporary_annuity.whole', b * A(), o.temporary_annuity, x, s=s, b=b, rel=rel, abs=ab)
    if 'temporary' in which:
        c.value('udd.temporary_annuity', b * A(t), o.temporary_annuity, x, s=s, t=t, b=b, rel=rel, abs=ab)
        c.value('udd.temporary_annuity.var', b * b * avar(t), o.temporary_annuity, x, s=s, t=t, b=b, variance=True, rel=10 * rel, abs=va)
    if 'defann' in which and fits:
        T = n if rng.random() < .6 or not whole else -1
        kw = {} if T < 0 else dict(t=T)
        c.value('udd.deferred_annuity', b * A(T, u), o.deferred_annuity, x, s=s, u=u, b=b, **kw, rel=rel, abs=ab)
        # second moment of the deferred benefit from that of the annuity entered on survival
        G = Frac(m, x, s + u, i)
        I2 = lambda q: fa.k(q) * G.v.ins(T, mom=q) + (G.E(T, 1, q) if T >= 0 else 0)
        var1 = (I2(2) - I2(1)**2) / fa.dm**2
        a1 = A(T, u) / F.E(u) if F.E(u) > 1e-12 else 0
        c.value('udd.deferred_annuity.var', b * b * (F.E(u, 1, 2) * (var1 + a1 * a1) - A(T, u)**2), o.deferred_annuity, x, s=s, u=u, b=b, variance=True, **kw, rel=10 * rel, abs=va)
    if 'immediate' in which:
        c.value('udd.immediate_annuity', b * (A(t) - ((1 - F.E(t)) / f if f else 0)), o.immediate_annuity, x, s=s, t=t, b=b, rel=rel, abs=ab)
    c.value('udd.E_x', F.E(t), o.E_x, x, s=s, t=t, rel=rel, abs=1e-8)


def udd_exact(c, rng):
    """deaths uniform within each year: the adjustment is exact"""
    f = frequency(rng)
    m = gens.table_model(rng, udd=True) if rng.random() < .8 else gens.sult_model(rng)
    m = populated(rng, m)
    if not getattr(m.obj, 'udd_', True): raise Skip()
    x, s = m.pick_age(rng)
    i = gens.rate(rng, zero=False)
    m.obj.set_interest(i=i)
    F = Frac(m, x, s, i)
    if not F.whole: raise Skip()
    if f * F.v.N > 4000: f = 3
    t, u, n = terms(rng, F); b = amount(rng)
    c.note(model=m, x=x, s=s, i=i, m=f, t=t, u=u, n=n, b=b)
    c.dim(kind=m.kind, m=f)
    o = UDD(m=f, life=m.obj)
    g = Mthly(m=f, life=m.obj)
    rel = 2e-6; 
    if f == 0:             # continuous: integrate each year exactly
        dl = math.log1p(i); k1 = lambda q: -math.expm1(-dl * q) / (dl * q) * (1 + i)**q
        INS = lambda q, t_=-1, u_=0: k1(q) * F.v.ins(t_, u=u_, mom=q)
    else: INS = lambda q, t_=-1, u_=0: F.ins(f, t_, u=u_, mom=q)
    three(c, 'udd.exact.whole_life_insurance', o.whole_life_insurance, lambda q: INS(q) * b**q, b, rel, x, s=s, b=b)
    three(c, 'udd.exact.term_insurance', o.term_insurance, lambda q: INS(q, t) * b**q, b, rel, x, s=s, t=t, b=b)
    three(c, 'udd.exact.endowment_insurance', o.endowment_insurance, lambda q: (INS(q, t) + F.E(t, 1, q)) * b**q, b, rel, x, s=s, t=t, b=b)
    if f:
        ab = 1e-7 / i * b
        c.value('udd.exact.whole_life_annuity', F.ann(f, b=b), o.whole_life_annuity, x, s=s, b=b, rel=rel, abs=ab)
        c.value('udd.exact.temporary_annuity', F.ann(f, t, b=b), o.temporary_annuity, x, s=s, t=t, b=b, rel=rel, abs=ab)
        c.value('udd.exact.deferred_annuity', F.ann(f, n, u=u, b=b), o.deferred_annuity, x, s=s, u=u, t=n, b=b, rel=rel, abs=ab)
        c.value('udd.exact.temporary_annuity.var', F.ann_var(f, t, b=b), o.temporary_annuity, x, s=s, t=t, b=b, variance=True, rel=1e-5, abs=ab * b / i * 5)
        # the library's own m-thly sums agree
        h = c.call('mthly', g.temporary_annuity, x, s=s, t=t, b=b)
        c.value('udd.exact.mthly', h, o.temporary_annuity, x, s=s, t=t, b=b, rel=rel, abs=ab)


def factors(c, rng):
    i = gens.rate(rng, zero=False); f = frequency(rng)
    c.note(i=i, m=f)
    fa = Factors(i, f)
    c.value('udd.alpha', fa.alpha, UDD.alpha, m=f, i=i, rel=1e-7)
    c.value('udd.beta', fa.beta, UDD.beta, m=f, i=i, rel=1e-7, abs=1e-9 / i)
    D = c.call('udd.interest_frame', UDD.interest_frame, i=i)
    c.same('udd.interest_frame.index', list(D.index), [1, 2, 4, 12, 0])
    for k in (1, 2, 4, 12, 0):
        g = Factors(i, k)
        for col, w in {'i(m)': g.im, 'd(m)': g.dm, 'i/i(m)': i / g.im, 'd/d(m)': g.d / g.dm, 'alpha(m)': g.alpha, 'beta(m)': g.beta}.items():
            c.close('udd.interest_frame.' + col, float(D.loc[k, col]), w, rel=0, abs=5.1e-6 + 1e-9 / i)
    # stored on the object
    m = gens.law_model(rng, ('CF', 'Uniform')); m.obj.set_interest(i=i)
    o = UDD(m=f, life=m.obj)
    c.close('udd.alpha_m', o.alpha_m, fa.alpha, rel=1e-7)
    c.close('udd.beta_m', o.beta_m, fa.beta, rel=1e-7, abs=1e-9 / i)
    # limit
    z, y = UDD.alpha(m=0, i=i), UDD.alpha(m=5000, i=i)
    c.true('udd.limit', abs(z - y) < 1e-3, lambda: f'alpha(inf)={z} alpha(5000)={y}')


def woolhouse(c, rng):
    m, x, s, i, f, F, rel = scene(c, rng)
    v = F.v
    t, u, n = terms(rng, F)
    b, e = amount(rng), amount(rng)
    if not F.whole and t >= v.N: t = v.N - 1           # what a truncated table says of its last age is not specified
    three_term = rng.random() < .6
    law = m.law
    S0 = F.v.S
    kind = rng.choice(['approx', 'exact', 'custom', 'given'])
    if kind == 'exact' and m.kind.startswith(('LifeTable', 'SelectLife', 'SULT')): kind = 'approx'
    if kind == 'exact' and m.kind.startswith('generic') and x + s < 1: kind = 'custom'    # numerical differentiation looks just below age zero
    if kind == 'approx' and three_term and (law.select and s < 1 or x + s - 1 < m.minage): kind = 'custom'
    g0, g1 = rng.uniform(0, .01), 10**rng.uniform(-6, -4.5)
    g2 = rng.choice([0, rng.uniform(0, .002)])      # may depend on the duration since selection
    gmu = lambda z, d=0: g0 + g1 * 1.1**(z + d) + g2 * d
    def mu(k):
        """force at [x]+s+k as the third term takes it"""
        if kind == 'exact': return law.mu(x, s + k)
        if kind in ('custom', 'given'): return gmu(x, s + k)
        lo = S0(k - 1) if k >= 1 else None
        p1 = S0(k + 1) / S0(k)
        if lo is None:
            if s >= 1: p0 = m.S(x, s - 1)(1)
            else: p0 = m.S(x - 1, 0)(1)
        else: p0 = S0(k) / lo
        return -.5 * (math.log(p1) + math.log(p0))
    kw = dict(approximate_mu=dict(approx=True, exact=False, custom=gmu, given=True)[kind])
    if rng.random() < .3 and kind == 'approx': kw = {}
    c.note(t=t, u=u, n=n, b=b, e=e, three_term=three_term, mu=kind)
    c.dim(three_term=three_term, mu=kind if three_term else '-')
    o = c.call('Woolhouse', Woolhouse, m=f, life=m.obj, three_term=three_term, **kw)
    dl = math.log1p(i)
    fa = Factors(i, f)
    h1 = (f - 1) / (2 * f) if f else .5
    h2 = (f * f - 1) / (12 * f * f) if f else 1 / 12
    if three_term:
        # every age at which the third term is needed must have lives surviving the year
        need = [0, u, t, u + max(n, 0)]
        if kind == 'approx' and any(S0(k + 1) <= 1e-4 or k + 1 > v.N for k in need if k <= v.N and S0(k) > 0) or any(S0(k) <= 1e-5 for k in need): raise Skip()
        if kind == 'exact' and m.kind.startswith('Beta') and max(need) >= v.N: raise Skip()
    def W(k):                     # whole life annuity-due m-thly at duration k
        if k >= v.N: return 0.
        w = Val(m, x, s + k, i).ann() if k else v.ann()
        return w - h1 - (h2 * (dl + mu(k)) if three_term else 0)
    E = F.E
    full = F.whole
    def T(t_, u_=0):              # u|temporary
        r = E(u_) * W(u_)
        if t_ >= 0: r -= E(u_ + t_) * W(u_ + t_) if u_ + t_ < v.N else 0
        return r
    G = lambda k: dict(mu=gmu(x, s + k)) if kind == 'given' and three_term else {}
    G2 = lambda k, l: dict(G(k), mu1=gmu(x, s + l)) if kind == 'given' and three_term else {}
    ab = 1e-7 * b / i
    rel = max(rel, 1e-6) if kind == 'exact' else rel
    if full:
        c.value('woolhouse.whole_life_annuity', b * W(0), o.whole_life_annuity, x, s=s, b=b, **G(0), rel=rel, abs=ab)
        c.value('woolhouse.whole_life_insurance', b * (1 - fa.dm * W(0)), o.whole_life_insurance, x, s=s, b=b, **G(0), rel=rel, abs=ab * .1)
        if u < v.N: c.value('woolhouse.deferred_annuity.whole', b * T(-1, u), o.deferred_annuity, x, s=s, u=u, b=b, **G(u), rel=rel, abs=ab)
    c.value('woolhouse.temporary_annuity', b * T(t), o.temporary_annuity, x, s=s, t=t, b=b, **G2(0, t), rel=rel, abs=ab)
    if n >= 0 and u + n < v.N:
        c.value('woolhouse.deferred_annuity', b * T(n, u), o.deferred_annuity, x, s=s, u=u, t=n, b=b, **G2(u, u + n), rel=rel, abs=ab)
        I = lambda k: 1 - fa.dm * W(k)
        c.value('woolhouse.deferred_insurance', b * (E(u) * I(u) - E(u + n) * I(u + n)), o.deferred_insurance, x, s=s, u=u, t=n, b=b, **G2(u, u + n), rel=rel, abs=ab * .2)
    if t < v.N:
        I = lambda k: 1 - fa.dm * W(k)
        term = b * (I(0) - E(t) * I(t))
        c.value('woolhouse.term_insurance', term, o.term_insurance, x, s=s, t=t, b=b, **G2(0, t), rel=rel, abs=ab * .2)
        if kind != 'given':
            how = rng.choice(['default', 'other', 'zero'])
            ee = dict(default=b, other=e, zero=0)[how]
            c.value('woolhouse.endowment_insurance', term + E(t) * ee, o.endowment_insurance, x, s=s, t=t, b=b, **({} if how == 'default' else dict(endowment=ee)), rel=rel, abs=ab * .2)
    if kind != 'given':
        c.value('woolhouse.immediate_annuity', b * (T(t) - ((1 - E(t)) / f if f else 0)), o.immediate_annuity, x, s=s, t=t, b=b, rel=rel, abs=ab)
    if three_term:
        c.value('woolhouse.mu_x', mu(0), o.mu_x, x, s=s, rel=1e-4 if kind == 'exact' else 1e-5, abs=1e-7) if kind != 'given' else None
    # the force supplied at one end only: the other end is the object's own
    if three_term and kind != 'given' and t < v.N and u + max(n, 0) < v.N:
        def W_(k, g): return W(k) + h2 * (mu(k) - g)
        def pair(k, l):
            g0_, g1_ = (rng.choice([0, 0., rng.uniform(0, .5), rng.uniform(0, .5), rng.uniform(0, .5)]) for _ in (0, 1))
            a0, a1 = rng.choice([(1, 0), (1, 0), (0, 1), (1, 1)])
            return ({**(dict(mu=g0_) if a0 else {}), **(dict(mu1=g1_) if a1 else {})}, W_(k, g0_) if a0 else W(k), W_(l, g1_) if a1 else W(l))
        I_ = lambda w: 1 - fa.dm * w
        for q in rng.sample(['temporary', 'deferred', 'term', 'defins'], 2):
            k, l = (0, t) if q in ('temporary', 'term') else (u, u + n)
            if n < 0 and k == u and q[:3] == 'def': continue
            a_, w0, w1 = pair(k, l)
            if q == 'temporary': c.value('woolhouse.supplied.temporary_annuity', b * (w0 - E(t) * w1), o.temporary_annuity, x, s=s, t=t, b=b, **a_, rel=rel, abs=ab)
            if q == 'deferred': c.value('woolhouse.supplied.deferred_annuity', b * (E(u) * w0 - E(u + n) * w1), o.deferred_annuity, x, s=s, u=u, t=n, b=b, **a_, rel=rel, abs=ab)
            if q == 'term': c.value('woolhouse.supplied.term_insurance', b * (I_(w0) - E(t) * I_(w1)), o.term_insurance, x, s=s, t=t, b=b, **a_, rel=rel, abs=ab * .2)
            if q == 'defins': c.value('woolhouse.supplied.deferred_insurance', b * (E(u) * I_(w0) - E(u + n) * I_(w1)), o.deferred_insurance, x, s=s, u=u, t=n, b=b, **a_, rel=rel, abs=ab * .2)
        if full:
            g = rng.choice([0, 0., rng.uniform(0, .5), rng.uniform(0, .5), rng.uniform(0, .5)])
            c.value('woolhouse.supplied.whole_life_annuity', b * W_(0, g), o.whole_life_annuity, x, s=s, b=b, mu=g, rel=rel, abs=ab)
            c.value('woolhouse.supplied.whole_life_insurance', b * I_(W_(0, g)), o.whole_life_insurance, x, s=s, b=b, mu=g, rel=rel, abs=ab * .2)
    # frequency one is the annual value
    one = Woolhouse(m=1, life=m.obj, three_term=three_term, **kw)
    if kind != 'given': c.value('woolhouse.annual', b * v.ann(t), one.temporary_annuity, x, s=s, t=t, b=b, rel=rel, abs=ab)


def facts(c, rng):
    """approximations of values held by a recursion solver"""
    m = gens.law_model(rng, ('CF', 'Gompertz', 'Makeham', 'Uniform'))
    x, s = m.pick_age(rng); s = 0
    x = min(x, 80)
    i = gens.rate(rng, zero=False); f = frequency(rng)
    v = Val(m, x, 0, i)
    n = rng.randint(1, max(1, min(v.N - 1, 40, 99 - x)))
    if v.E(v.N) > 1e-11: raise Skip()
    b = amount(rng)
    c.note(law=m, x=x, i=i, m=f, n=n, b=b)
    c.dim(m=f)
    fa = Factors(i, f)
    h1 = (f - 1) / (2 * f) if f else .5
    how = rng.choice(['A', 'a'])
    r = Recursion(verbose=False).set_interest(i=i)
    if how == 'A': r.set_A(v.ins(), x=x)
    else: r.set_a(v.ann(), x=x)
    c.value('facts.udd.whole_life_insurance', b * fa.k(1) * v.ins(), UDD(m=f, life=r).whole_life_insurance, x, b=b, rel=1e-7)
    c.value('facts.udd.whole_life_annuity', b * (fa.alpha * v.ann() - fa.beta), UDD(m=f, life=r).whole_life_annuity, x, b=b, rel=1e-7)
    c.value('facts.woolhouse.whole_life_annuity', b * (v.ann() - h1), Woolhouse(m=f, life=r).whole_life_annuity, x, b=b, rel=1e-7)
    r = Recursion(verbose=False).set_interest(i=i)
    E = v.E(n)
    if rng.random() < .5: r.set_E(E, x=x, t=n)
    else: r.set_p(v.S(n), x=x, t=n)
    which = rng.choice(['temp', 'two'])
    if which == 'temp':
        r.set_a(v.ann(n), x=x, t=n)
        c.value('facts.udd.temporary_annuity', b * (fa.alpha * v.ann(n) - fa.beta * (1 - E)), UDD(m=f, life=r).temporary_annuity, x, t=n, b=b, rel=1e-7)
    else:
        w = Val(m, x + n, 0, i)
        for y, z in rng.sample([(x, v), (x + n, w)], 2): r.set_A(z.ins(), x=y)
        a = v.ann() - h1 - E * (w.ann() - h1)
        c.value('facts.woolhouse.temporary_annuity', b * a, Woolhouse(m=f, life=r).temporary_annuity, x, t=n, b=b, rel=1e-7)
        c.value('facts.woolhouse.deferred_annuity', b * E * (w.ann() - h1), Woolhouse(m=f, life=r).deferred_annuity, x, u=n, b=b, rel=1e-7)


GROUPS = [('udd', udd_products, 1200, 20000), ('exact', udd_exact, 500, 8000), ('factors', factors, 200, 3000), ('woolhouse', woolhouse, 1200, 20000), ('facts', facts, 400, 8000)]
