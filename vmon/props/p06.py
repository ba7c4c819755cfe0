"""P06 insurance values"""
import math
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip
from vmon.products import Val

RULE = ('A case draws a mortality basis of any kind, an interest rate (in a random form), an age, select duration, term, deferral, benefit and endowment, and compares every '
        'insurance product (first and second moment, variance; discrete and continuous) with year-by-year enumeration or quadrature of the reference law; '
        'distinct by model, rate and policy.')
ASSUMPTIONS = ['continuous values of user-specified S/l forms go through numerical differentiation: compared at 5e-4',
               'whole-life values of select tables are compared only where the table determines them']


def scene(c, rng, disc, weights=None):
    m = gens.any_model(rng, weights)
    if not disc and m.kind.startswith('generic'):
        # a density given only by numerical differentiation is accurate away from a limiting age
        m = gens.generic_model(rng, forms=('f', 'S', 'mu', 'l'))
        if m.law.omega is not None:
            m = Model(rng.choice([PolicyValues, Premiums, Reserves])().set_survival(**gens.supply(m.law, 'f'), maxage=m.law.omega), m.law, m.law.omega, 'generic-f')
    x, s = m.pick_age(rng)
    if not disc and m.kind in ('generic-S', 'generic-l', 'generic-S-select', 'generic-l-select') and x + s < 2: x += 2
    i = gens.rate(rng)
    c.call('set_interest', m.obj.set_interest, **gens.interest_kw(rng, i))
    v = Val(m, x, s, i)
    c.note(model=m, x=x, s=s, i=i, disc=disc)
    c.dim(kind=m.kind, disc=disc, zero_interest=i == 0, s=min(s, 2))
    k = m.kind.split('-')[0]
    table = k in ('LifeTable', 'SULT')
    if disc: tol = dict(rel=1e-6, abs=1e-6)
    elif table: tol = dict(rel=1e-5, abs=1e-6)
    elif m.kind.startswith(('generic-S', 'generic-l')): tol = dict(rel=5e-4, abs=1e-6)
    else: tol = dict(rel=2e-5, abs=1e-6)
    return m, x, s, i, v, k, tol


def terms(rng, m, v):
    hi = max(1, min(v.N, 60))
    t = rng.choice([1, rng.randint(1, hi), rng.randint(1, hi), v.N])
    if m.natural and rng.random() < .12: t = v.N + rng.randint(1, 10)
    u = rng.choice([0, 1, rng.randint(0, max(0, hi - 1))])
    top = max(0, min(v.N - u, 40))
    n = min(top, rng.choice([1, rng.randint(0, top), rng.randint(0, top)]))
    return t, u, n


def amount(rng):
    return rng.choice([1, 2, rng.uniform(.1, 5), rng.randint(1000, 100000)])


def three(c, key, fn, moments, disc, tol, scale, *a, **k):
    """first and second moment and variance of one product"""
    m1, m2 = moments
    ab = tol['abs']
    c.value(key, m1, fn, *a, discrete=disc, **k, rel=tol['rel'], abs=ab * scale)
    c.value(key + '.m2', m2, fn, *a, discrete=disc, moment=2, **k, rel=tol['rel'], abs=ab * scale ** 2)
    c.value(key + '.var', max(0, m2 - m1 * m1), fn, *a, discrete=disc, moment=-2, **k, rel=tol['rel'] * 10,
            abs=(ab + 3 * tol['rel'] * (m2 / scale ** 2)) * scale ** 2 )


def products(c, rng, disc, weights=None):
    m, x, s, i, v, k, tol = scene(c, rng, disc, weights)
    o = m.obj
    t, u, n = terms(rng, m, v)
    b = amount(rng); e = rng.choice([None, amount(rng), 0, b])
    c.note(t=t, u=u, n=n, b=b, e=e)
    nm = f"{k}.{'d' if disc else 'c'}"
    two = lambda f: (f(1), f(2))
    which = rng.sample(['whole', 'term', 'deferred', 'endow', 'inc', 'dec', 'deferred-term'], 3 if disc else 2)
    if 'whole' in which:
        three(c, f'whole.{nm}', o.whole_life_insurance, two(lambda q: v.ins(b=b, mom=q, disc=disc)), disc, tol, b, x, s=s, b=b)
        if disc: c.value(f'whole.default.{k}', v.ins(), o.whole_life_insurance, x, s, **tol)
    if 'term' in which:
        three(c, f'term.{nm}', o.term_insurance, two(lambda q: v.ins(t, b=b, mom=q, disc=disc)), disc, tol, b, x, s=s, t=t, b=b)
    if 'deferred' in which:
        three(c, f'deferred.{nm}', o.deferred_insurance, two(lambda q: v.ins(u=u, b=b, mom=q, disc=disc)), disc, tol, b, x, s=s, u=u, b=b)
        if m.natural and rng.random() < .2:
            c.value(f'deferred.never.{k}', 0., o.deferred_insurance, x, s=s, u=v.m.maxage - x - s + rng.randint(1, 5), b=b, discrete=disc)
    if 'deferred-term' in which:
        three(c, f'deferred-term.{nm}', o.deferred_insurance, two(lambda q: v.ins(n, u=u, b=b, mom=q, disc=disc)), disc, tol, b, x, s=s, u=u, t=n, b=b)
    if 'endow' in which:
        kw = {} if e is None else dict(endowment=e)
        sc = max(b, e or 0)
        three(c, f'endowment.{nm}', o.endowment_insurance, two(lambda q: v.endow(t, b, e, q, disc)), disc, tol, sc, x, s=s, t=t, b=b, **kw)
    if 'inc' in which:
        N = v.cap(t)
        c.value(f'increasing.{nm}', v.ins(t, b=lambda y: b * y, disc=disc), o.increasing_insurance, x, s=s, t=t, b=b, discrete=disc, rel=tol['rel'], abs=tol['abs'] * b * (N + 1))
        c.value(f'increasing.whole.{nm}', v.ins(b=lambda y: b * y, disc=disc), o.increasing_insurance, x, s=s, b=b, discrete=disc, rel=tol['rel'], abs=tol['abs'] * b * (v.N + 1))
    if 'dec' in which:
        want = v.ins(t, b=lambda y: b * (t + disc - y), disc=disc)
        c.value(f'decreasing.{nm}', want, o.decreasing_insurance, x, s=s, t=t, b=b, discrete=disc, rel=tol['rel'] * 3, abs=tol['abs'] * b * (t + 1))


def discrete(c, rng): products(c, rng, True)
def continuous(c, rng): products(c, rng, False, dict(generic=3, law=5, table=2, sult=1))


def endowments(c, rng):
    m, x, s, i, v, k, tol = scene(c, rng, True)
    o = m.obj
    t = rng.choice([0, 1, rng.randint(0, min(v.N, 80)), v.N])
    if m.natural and rng.random() < .1: t = v.N + 3
    b = amount(rng)
    c.note(t=t, b=b)
    p = 1. if t == 0 else v.E(t) / v.v(t)
    e1 = b * v.v(t) * p
    c.value(f'E_x.{k}', v.v(t) * p, o.E_x, x, s=s, t=t, **tol)
    c.value(f'E_x.b.{k}', e1, o.E_x, x, s=s, t=t, endowment=b, rel=1e-6, abs=1e-6 * b)
    c.value(f'E_x.m2.{k}', (b * v.v(t)) ** 2 * p, o.E_x, x, s=s, t=t, endowment=b, moment=2, rel=1e-6, abs=1e-6 * b * b)
    c.value(f'E_x.var.{k}', (b * v.v(t)) ** 2 * p * (1 - p), o.E_x, x, s=s, t=t, endowment=b, moment=-2, rel=1e-5, abs=1e-6 * b * b)
    c.value(f'E_x.infinite.{k}', 0., o.E_x, x, s=s, t=-999)
    if k not in ('CF', 'Uniform'):
        c.value(f'E_x.default.{k}', v.E(1), o.E_x, x, s, **tol)


def benefit_function(c, rng):
    """arbitrary benefit functions of age and time, deferral, term and endowment"""
    disc = rng.random() < .65
    m, x, s, i, v, k, tol = scene(c, rng, disc)
    o = m.obj
    t, u, n = terms(rng, m, v)
    whole = rng.random() < .4
    T = -999 if whole else n
    kind = rng.choice(['linear', 'exp', 'step', 'age', 'const'])
    a0, g = rng.uniform(.5, 3), rng.uniform(-.03, .03)
    cut = rng.randint(1, 10)
    if kind == 'step' and not disc: kind = 'exp'
    age = x + s
    fn = {'linear': lambda y, t: a0 + .1 * t, 'exp': lambda y, t: a0 * math.exp(g * t), 'step': lambda y, t: a0 if t <= cut else 2. * a0,
          'age': lambda y, t: a0 * (1 + y / 100.), 'const': lambda y, t: a0}[kind]
    mom = rng.choice([1, 1, 2])
    e = rng.choice([0, 0, amount(rng)])
    if not m.natural and u + n > v.N: raise Skip
    c.note(T=T, u=u, kind=kind, mom=mom, e=e); c.dim(benefit=kind)
    want = v.ins(T, u=u, b=lambda t: fn(age, t), mom=mom, disc=disc)
    sc = max(1., abs(want))
    kw = {}
    if not whole and e:
        kw = dict(endowment=e)
        want += v.E(u + n, e, mom); sc = max(sc, e ** mom)
    c.value(f"A_x.{k}.{'d' if disc else 'c'}", want, o.A_x, x, s=s, t=T, u=u, benefit=fn, moment=mom, discrete=disc, rel=tol['rel'] * 2, abs=tol['abs'] * sc * 10, **kw)


def discount_function(c, rng):
    """interest given as a discount function rather than a rate"""
    m = gens.any_model(rng, dict(generic=3, law=2, table=3))
    x, s = m.pick_age(rng)
    r, h = rng.uniform(.005, .05), rng.uniform(.5, 2)
    fn = rng.choice([lambda t: (1 + r * t) ** -h, lambda t: math.exp(-r * t - .0005 * t * t), lambda t: 1 / (1 + r * t)])
    c.call('set_interest', m.obj.set_interest, v_t=fn)
    v = Val(m, x, s, 0.); v.v = fn
    t, u, n = terms(rng, m, v)
    t = min(t, v.N)
    b = amount(rng); mom = rng.choice([1, 2]); e = rng.choice([0, amount(rng)])
    c.note(model=m, x=x, s=s, r=r, t=t, u=u); k = m.kind.split('-')[0]
    c.dim(kind=m.kind)
    c.value(f'vt.whole.{k}', v.ins(b=b, mom=mom), m.obj.whole_life_insurance, x, s=s, b=b, moment=mom, rel=1e-6, abs=1e-6 * b ** mom)
    c.value(f'vt.A_x.{k}', v.ins(n, u=u, b=lambda y: 2. + y, mom=mom), m.obj.A_x, x, s=s, t=n, u=u, benefit=lambda a, y: 2. + y, moment=mom, rel=1e-6, abs=1e-3)
    if k not in ('CF', 'Uniform') and t: 
        c.value(f'vt.E_x.{k}', v.E(t, b, mom), m.obj.E_x, x, s=s, t=t, endowment=b, moment=mom, rel=1e-6, abs=1e-6 * b ** mom)
        c.value(f'vt.E_x.var.{k}', b * b * fn(t) ** 2 * v.S(t) * (1 - v.S(t)), m.obj.E_x, x, s=s, t=t, endowment=b, moment=-2, rel=1e-5, abs=1e-6 * b ** 2)
        E2 = v.ins(n, u=u, b=b, mom=mom) + (v.E(u + n, e, mom) if e and u + n <= v.N else 0.)
        if not e or u + n <= v.N:
            c.value(f'vt.A_x.endowment.{k}', E2, m.obj.A_x, x, s=s, t=n, u=u, benefit=lambda a, y: b, endowment=e, moment=mom, rel=1e-6, abs=1e-6 * max(b, e) ** mom)
    var = v.ins(b=b, mom=2) - v.ins(b=b) ** 2
    c.value(f'vt.whole.var.{k}', var, m.obj.whole_life_insurance, x, s=s, b=b, moment=-2, rel=1e-5, abs=3e-6 * b ** 2)
    if k not in ('LifeTable', 'SULT') and not m.kind.startswith(('generic-S', 'generic-l')):
        c.value(f'vt.A_x.c.{k}', v.ins(n, u=u, b=lambda y: 2. + y, mom=mom, disc=False), m.obj.A_x, x, s=s, t=n, u=u, benefit=lambda a, y: 2. + y, moment=mom, discrete=False, rel=1e-4, abs=1e-3)
    c.value(f'vt.increasing.{k}', v.ins(t, b=lambda y: b * y), m.obj.increasing_insurance, x, s=s, t=t, b=b, rel=1e-6, abs=1e-4 * b)


def part_years(c, rng):
    """first-principles continuous insurance over terms and deferrals that are not whole years"""
    m, x, s, i, v, k, tol = scene(c, rng, False, dict(generic=4, law=3))
    if v.N < 3: raise Skip
    u = rng.choice([0, rng.uniform(0, .9), rng.uniform(0, min(20, v.N - 2)), rng.randint(0, min(20, v.N - 2))])
    t = rng.uniform(.1, min(30, v.N - u - .5))
    a0, g = rng.uniform(.5, 3), rng.uniform(-.03, .03)
    fn = rng.choice([lambda y, t: a0 + .1 * t, lambda y, t: a0 * math.exp(g * t), lambda y, t: a0 * (1 + y / 100. + t * t / 50.)])
    mom = rng.choice([1, 2]); e = rng.choice([0, rng.uniform(.5, 4)])
    c.note(u=u, t=t, mom=mom, e=e); c.dim(part=u != int(u), mom=mom)
    want = v.ins(t, u=u, b=lambda r: fn(x + s, r), mom=mom, disc=False) + (v.E(u + t, e, mom) if e else 0)
    sc = max(1., abs(want))
    if k != 'SULT':
        b = rng.choice([1, rng.uniform(.1, 20)])
        f = rng.uniform(.05, 1.5)
        for q in (1, 2): c.value(f'part.E_x.short.m{q}.{k}', v.E(f, b, q), m.obj.E_x, x, s=s, t=f, endowment=b, moment=q, rel=1e-6, abs=1e-9 * b ** q)
        c.value(f'part.E_x.short.var.{k}', b * b * (v.E(f, 1, 2) - v.E(f) ** 2), m.obj.E_x, x, s=s, t=f, endowment=b, moment=-2, rel=1e-5, abs=1e-9 * b * b)
        for q in (1, 2): c.value(f'part.E_x.m{q}.{k}', v.E(t, b, q), m.obj.E_x, x, s=s, t=t, endowment=b, moment=q, rel=1e-6, abs=1e-9 * b ** q)
        c.value(f'part.E_x.var.{k}', b * b * (v.E(t, 1, 2) - v.E(t) ** 2), m.obj.E_x, x, s=s, t=t, endowment=b, moment=-2, rel=1e-5, abs=1e-9 * b * b)
    c.value(f'part.A_x.{k}', want, m.obj.A_x, x, s=s, u=u, t=t, benefit=fn, endowment=e, moment=mom, discrete=False, rel=tol['rel'] * 3, abs=tol['abs'] * sc * 10)


def select(c, rng):
    q, n, lo, hi = gens.select_q(rng)
    i = gens.rate(rng)
    o = SelectLife(periods=n).set_interest(**gens.interest_kw(rng, i))
    c.call('select.build', o.set_table, q={y: [q[y][r] for r in range(n + 1)] for y in q})
    law = ref.SelectTable(q, n, lo, hi)
    x = rng.randint(lo, hi); s = rng.randint(0, n + (rng.randint(0, hi - x)))
    left = hi + n + 1 - x - s
    t = rng.randint(1, left); u = rng.randint(0, left); w = rng.randint(0, left - u)
    b = amount(rng); e = rng.choice([None, amount(rng)])
    m = Model(o, law, hi + n + 1, 'SelectLife', minage=lo, natural=False)
    v = Val(m, x, s, i)
    c.note(periods=n, ages=(lo, hi), x=x, s=s, i=i, t=t, u=u, w=w, b=b, e=e); c.dim(kind='select', periods=n)
    tol = dict(rel=1e-7, abs=1e-7 * b)
    c.value('select.term', v.ins(t, b=b), o.term_insurance, x, s=s, t=t, b=b, **tol)
    c.value('select.deferred', v.ins(w, u=u, b=b), o.deferred_insurance, x, s=s, u=u, t=w, b=b, **tol)
    c.value('select.endowment', v.endow(t, b, e), o.endowment_insurance, x, s=s, t=t, b=b, **({} if e is None else dict(endowment=e)), rel=1e-7, abs=1e-7 * max(b, e or 0))
    c.value('select.increasing', v.ins(t, b=lambda y: b * y), o.increasing_insurance, x, s=s, t=t, b=b, rel=1e-7, abs=1e-6 * b)
    c.value('select.decreasing', v.ins(t, b=lambda y: b * (t + 1 - y)), o.decreasing_insurance, x, s=s, t=t, b=b, rel=1e-7, abs=1e-6 * b)
    c.value('select.E_x', v.E(t, b), o.E_x, x, s=s, t=t, endowment=b, **tol)
    c.value('select.E_x.m2', v.E(t, b, 2), o.E_x, x, s=s, t=t, endowment=b, moment=2, rel=1e-7, abs=1e-7 * b * b)
    c.value('select.A_x', v.ins(t, b=lambda y: 1. + y), o.A_x, x, s=s, t=t, benefit=lambda a, y: 1. + y, rel=1e-7, abs=1e-6)


THOROUGH = 5      # scale of the thorough tier
GROUPS = [('discrete', discrete, 900, 12000), ('continuous', continuous, 250, 3000), ('endowments', endowments, 500, 6000),
          ('benefit_function', benefit_function, 500, 6000), ('discount_function', discount_function, 200, 2500), ('select', select, 250, 4000), ('part_years', part_years, 60, 1500)]
