"""P26 degenerate, whole and consecutive periods; scaling and bounds: laws that every product of every class obeys"""
import math
from actuarialmath import LifeTable
from vmon import gens
from vmon.core import Skip
from vmon.props import p24

RULE = ('A case draws a model of one of thirteen classes, an age, select duration, term, deferral and amounts, and checks identities between the answers of the same model: empty periods and zero amounts are worth nothing, amounts scale, deferral by nothing is no deferral, '
        'consecutive periods add up, terms past the end are whole life, endowments split, increasing and decreasing products pair, and values respect their bounds and order. Distinct by model class, law and arguments.')
ASSUMPTIONS = ['the same model answers both sides of each identity, so no reference value is involved', 'tables end in certain death', 'm-thly, UDD and Woolhouse products need positive interest']
W, VAR = -999, -2
CLASSES = ['Reserves', 'Reserves', 'LifeTable', 'SULT', 'SelectLife', 'ConstantForce', 'Beta', 'Uniform', 'Makeham', 'Gompertz', 'Mthly', 'UDD', 'Woolhouse']


def scene(c, rng):
    cls = rng.choice(CLASSES)
    o, ages = p24.build(cls, rng)
    life = getattr(o, 'life', o)
    i = rng.choice([0, rng.uniform(.02, .1), rng.uniform(.02, .1), rng.uniform(.02, .1)])
    over = cls in ('Mthly', 'UDD', 'Woolhouse')
    if over and not i: i = .05                   # their annuities are obtained from insurances
    c.call('set_interest', life.set_interest, i=i)
    x = rng.randint(*ages)
    s = rng.choice([0, 0, 1, 2])
    disc = over or cls == 'SelectLife' or rng.random() < .6
    kw = {} if over else dict(discrete=disc)
    end = life.max_term(0, W)
    left = end - x - s
    t = rng.choice([1, rng.randint(1, max(1, min(left - 1, 40))), rng.randint(1, max(1, min(left - 1, 10)))])
    t2 = rng.randint(1, max(1, min(left - t, 20)))
    if cls in ('SelectLife',) and t + t2 >= left: t, t2 = 1, 1
    if cls == 'Woolhouse' and (left - t - t2 < 3 or x + s - ages[0] < 1 and ages[0] == 50):   # the expansion needs survival at the adjacent ages
        x, s, t, t2 = ages[0] + 2, 0, 1, 1; left = end - x
    c.note(cls=cls, m=getattr(o, 'm', None), i=i, x=x, s=s, t=t, t2=t2, disc=disc); c.dim(cls=cls, zero=i == 0, disc=disc)
    return cls, o, life, over, x, s, t, t2, left, disc, kw, i


def tol(disc, over, b, p=1, n=1):
    return dict(rel=1e-8, abs=1e-7 * (1 + b) ** p * n) if disc else dict(rel=3e-5, abs=2e-5 * (1 + b) ** p * n)


def empty(c, rng):
    cls, o, life, over, x, s, t, t2, left, disc, kw, i = scene(c, rng)
    b, e = rng.uniform(.5, 9), rng.uniform(.5, 9)
    u = rng.randint(0, max(0, min(left - 3, 5)))
    Z = lambda key, f, *a, **k: c.value(f'empty.{key}', 0., f, *a, **k, abs=1e-7 if 'var' not in key else 1e-5)
    moments = cls not in ('SelectLife', 'Woolhouse')
    Z('term', o.term_insurance, x, s=s, t=0, b=b, **kw)
    Z('deferred', o.deferred_insurance, x, s=s, u=u, t=0, b=b, **kw)
    Z('temporary', o.temporary_annuity, x, s=s, t=0, b=b, **kw)
    Z('deferred-annuity', o.deferred_annuity, x, s=s, u=u, t=0, b=b, **kw)
    if not (cls == 'Woolhouse'):
        c.value('empty.endowment', e, o.endowment_insurance, x, s=s, t=0, b=b, endowment=e, **kw)
        c.value('empty.pure-endowment', e, o.E_x, x, s=s, t=0, endowment=e)
        c.value('empty.pure-endowment2', e * e, o.E_x, x, s=s, t=0, endowment=e, moment=2)
    if moments:
        Z('term2', o.term_insurance, x, s=s, t=0, b=b, moment=2, **kw); Z('term-var', o.term_insurance, x, s=s, t=0, b=b, moment=VAR, **kw)
        c.value('empty.endowment2', e * e, o.endowment_insurance, x, s=s, t=0, b=b, endowment=e, moment=2, **kw)
        c.value('empty.endowment-var', 0., o.endowment_insurance, x, s=s, t=0, b=b, endowment=e, moment=VAR, **kw)
        Z('temporary-var', o.temporary_annuity, x, s=s, t=0, b=b, variance=True, **kw)
        if not over:
            Z('pure-endowment-var', o.E_x, x, s=s, t=0, endowment=e, moment=VAR)
            Z('immediate-var', o.immediate_annuity, x, s=s, t=0, b=b, variance=True)
            for cu in (True, False):
                for mom in (1, 2, VAR): Z('lifetime', o.e_x, x, s=s, t=0, curtate=cu, moment=mom)
    if not over:
        Z('certain', o.certain_life_annuity, x, s=s, u=0, t=0, b=b, **kw)
        Z('increasing', o.increasing_insurance, x, s=s, t=0, b=b, **kw); Z('increasing-annuity', o.increasing_annuity, x, s=s, t=0, b=b, **kw); Z('decreasing-annuity', o.decreasing_annuity, x, s=s, t=0, b=b, **kw)
        Z('death', o.q_x, x, s=s, t=0); Z('death-deferred', o.q_x, x, s=s, t=0, u=u); c.value('empty.survival', 1., o.p_x, x, s=s, t=0); Z('e_r', o.e_r, x, s=s, t=0)
        if cls != 'SelectLife' or i: Z('immediate', o.immediate_annuity, x, s=s, t=0, b=b)


def amounts(c, rng):
    """nothing costs nothing; twice as much costs twice as much"""
    cls, o, life, over, x, s, t, t2, left, disc, kw, i = scene(c, rng)
    b, k = rng.uniform(.5, 9), rng.choice([0, 2, 10, rng.uniform(.1, 20)])
    u = rng.randint(0, max(0, min(left - t - 3, 5)))
    c.note(b=b, k=k, u=u); c.dim(factor='0' if k == 0 else 'k')
    F = [('whole', o.whole_life_insurance, {}), ('term', o.term_insurance, dict(t=t)), ('deferred', o.deferred_insurance, dict(u=u, t=t)), ('whole-annuity', o.whole_life_annuity, {}), ('temporary', o.temporary_annuity, dict(t=t)),
         ('deferred-annuity', o.deferred_annuity, dict(u=u, t=t)), ('endowment', o.endowment_insurance, dict(t=t))]
    V = []
    if not over: F += [('certain', o.certain_life_annuity, dict(u=u, t=t)), ('increasing', o.increasing_insurance, dict(t=t)), ('decreasing', o.decreasing_insurance, dict(t=t)), ('increasing-annuity', o.increasing_annuity, dict(t=t)),
                       ('decreasing-annuity', o.decreasing_annuity, dict(t=t)), ('net_premium', o.net_premium, dict(t=t))]
    if cls not in ('SelectLife', 'Woolhouse'):
        V += [(f'{n}-{m}', f, dict(kw2, moment=m)) for n, f, kw2 in (F[0], F[1], F[2], F[6]) for m in (2, VAR) if not (cls == 'Mthly' and n in ('deferred', 'endowment') and m == VAR)]
        V += [(f'{n}-var', f, dict(kw2, variance=True)) for n, f, kw2 in (F[3], F[4])]
    for n, f, a in rng.sample(F, 4):
        one = c.call(n, f, x, s=s, b=b, **a, **kw)
        c.value(f'scale.{n}', k * one, f, x, s=s, b=k * b, **a, **kw, **tol(disc, over, k * b))
    for n, f, a in rng.sample(V, min(2, len(V))):
        one = c.call(n, f, x, s=s, b=b, **a, **kw)
        c.value(f'scale.{n}', k * k * one, f, x, s=s, b=k * b, **a, **kw, rel=1e-7 if disc else 1e-4, abs=1e-6 * (1 + k * b) ** 2)
        c.true(f'nonnegative.{n}', one >= -1e-9, lambda: f'{n} {a}: {one}')


def consecutive(c, rng):
    cls, o, life, over, x, s, t, t2, left, disc, kw, i = scene(c, rng)
    b, e = rng.uniform(.5, 9), rng.uniform(.5, 9)
    c.note(b=b, e=e)
    C = lambda n, f, *a, **k: c.call(n, f, x, s=s, *a, b=b, **k, **kw)
    T, D, a, da = o.term_insurance, o.deferred_insurance, o.temporary_annuity, o.deferred_annuity
    tl = tol(disc, over, b, n=1 if cls not in ('SelectLife', 'SULT', 'LifeTable') else 2)
    long = t + t2
    A_t, a_t = C('term', T, t=t), C('temporary', a, t=t)
    c.close('add.term', A_t + C('deferred', D, u=t, t=t2), C('term', T, t=long), **tl)
    c.close('add.temporary', a_t + C('deferred-annuity', da, u=t, t=t2), C('temporary', a, t=long), **tl)
    A, ann = C('whole', o.whole_life_insurance), C('whole-annuity', o.whole_life_annuity)
    c.close('add.whole', A_t + C('deferred', D, u=t), A, **tl)
    c.close('add.whole-annuity', a_t + C('deferred-annuity', da, u=t), ann, **tl)
    c.close('defer-nothing.term', C('deferred', D, u=0, t=t), A_t, **tl)
    c.close('defer-nothing.temporary', C('deferred-annuity', da, u=0, t=t), a_t, **tl)
    c.close('defer-nothing.whole', C('deferred', D, u=0), A, **tl); c.close('defer-nothing.whole-annuity', C('deferred-annuity', da, u=0), ann, **tl)
    c.close('whole-term.annuity', C('temporary', a, t=W), ann, **tl)
    if cls in ('Reserves', 'LifeTable', 'SULT', 'Beta', 'Uniform', 'Mthly', 'UDD') and left < 110:
        beyond = left + rng.randint(1, 9)
        c.close('beyond.term', C('term', T, t=beyond), A, **tl); c.close('beyond.temporary', C('temporary', a, t=beyond), ann, **tl)
    if not over and cls != 'ConstantForce': c.close('whole-term.term', C('term', T, t=W), A, **tl)
    E = c.call('E', (o if not over else life).E_x, x, s=s, t=t)
    if cls != 'Woolhouse':
        c.close('split.endowment', c.call('endowment', o.endowment_insurance, x, s=s, t=t, b=b, endowment=e, **kw), A_t + e * E, **tol(disc, over, b + e))
        c.close('split.endowment-default', C('endowment', o.endowment_insurance, t=t), A_t + b * E, **tl)
    c.close('shift.whole', C('deferred', D, u=t), E * c.call('whole', o.whole_life_insurance, x, s=s + t, b=b, **kw), **tl)
    c.close('shift.temporary', C('deferred-annuity', da, u=t, t=t2), E * c.call('temporary', a, x, s=s + t, t=t2, b=b, **kw), **tl)
    # order and bounds
    A_tt, a_tt = C('term', T, t=long), C('temporary', a, t=long)
    eps = tl['abs'] + 1e-9
    if cls != 'Woolhouse':
        c.true('order.insurance', -eps <= A_t <= A_tt + eps and A_tt <= A + eps, lambda: f'{A_t} {A_tt} {A}')
        if cls != 'UDD': c.true('bound.insurance', A <= b + eps, lambda: f'{A} {b}')
        c.true('order.annuity', -eps <= a_t <= a_tt + eps and a_tt <= ann + eps, lambda: f'{a_t} {a_tt} {ann}')
    c.true('bound.temporary', a_t <= b * t + eps, lambda: f'{a_t} {b} {t}')
    if not over:
        cert = c.call('certain', o.certain_life_annuity, x, s=s, u=t, b=b, **kw)
        pay = life.interest.annuity(t, m=int(disc))
        c.close('certain.whole', cert, b * pay + C('deferred-annuity', da, u=t), **tl)
        c.close('certain.term', c.call('certain', o.certain_life_annuity, x, s=s, u=t, t=t2, b=b, **kw), b * pay + C('deferred-annuity', da, u=t, t=t2), **tl)
        c.close('certain.none', c.call('certain', o.certain_life_annuity, x, s=s, u=0, b=b, **kw), ann, **tl)
        n = t + (1 if disc else 0)
        I = lambda nm, f: c.call(nm, f, x, s=s, t=t, b=b, **kw)
        c.close('pair.insurance', I('increasing', o.increasing_insurance) + I('decreasing', o.decreasing_insurance), n * A_t, **tol(disc, over, b, n=n))
        c.close('pair.annuity', I('increasing-annuity', o.increasing_annuity) + I('decreasing-annuity', o.decreasing_annuity), n * a_t, **tol(disc, over, b, n=n))
        if disc: c.close('one-year.increasing', c.call('increasing', o.increasing_insurance, x, s=s, t=1, b=b, **kw), c.call('term', T, x, s=s, t=1, b=b, **kw), **tl)
        if disc:
            q = c.call('q', o.q_x, x, s=s)
            c.value('one-year.term', b * q / (1 + i), T, x, s=s, t=1, b=b, **kw, **tl); c.value('one-year.temporary', b, a, x, s=s, t=1, b=b, **kw, **tl)


def survival(c, rng):
    """probabilities of consecutive periods multiply and add"""
    cls, o, life, over, x, s, t, t2, left, disc, kw, i = scene(c, rng)
    if over: o = life
    P = lambda s_, t_: c.call('p', o.p_x, x, s=s_, t=t_)
    Q = lambda **k: c.call('q', o.q_x, x, s=s, **k)
    L = dict(rel=1e-6, abs=1e-7)
    c.close('chain.p', P(s, t) * P(s + t, t2), P(s, t + t2), **L)
    c.close('chain.q', Q(t=t) + Q(u=t, t=t2), Q(t=t + t2), **L)
    c.close('complement', Q(t=t) + P(s, t), 1., **L)
    c.close('deferred.q', Q(u=t, t=t2), P(s, t) - P(s, t + t2), **L)
    p1, p2 = P(s, t), P(s, t + t2)
    c.true('order.p', 0 <= p2 <= p1 + 1e-9 <= 1 + 2e-9, lambda: f'{p1} {p2}')
    if cls in ('Reserves', 'LifeTable', 'SULT', 'Beta', 'Uniform'):
        c.value('beyond.p', 0., o.p_x, x, s=s, t=left + rng.randint(0, 5), abs=1e-9); c.value('beyond.q', 1., o.q_x, x, s=s, t=left + rng.randint(0, 5), abs=1e-9)
    vd = life.interest.v_t
    c.close('E.is-discounted-survival', c.call('E', o.E_x, x, s=s, t=t), vd(t) * p1, **L)
    c.close('chain.E', c.call('E', o.E_x, x, s=s, t=t) * c.call('E', o.E_x, x, s=s + t, t=t2), c.call('E', o.E_x, x, s=s, t=t + t2), **L)
    if cls != 'SelectLife':
        e = c.call('e', o.e_x, x, s=s, t=t, curtate=True); e2 = c.call('e', o.e_x, x, s=s, t=t + t2, curtate=True)
        c.close('chain.e', e + p1 * c.call('e', o.e_x, x, s=s + t, t=t2, curtate=True), e2, rel=1e-6, abs=1e-6)
        f = c.call('e', o.e_x, x, s=s, t=t, curtate=False)
        c.true('order.e', 0 <= e <= f + 1e-6 <= t + 2e-6 and e <= e2 + 1e-9, lambda: f'{e} {f} {e2} {t}')


def beyond(c, rng):
    """nothing is paid after the last age"""
    cls, o, life, over, x, s, t, t2, left, disc, kw, i = scene(c, rng)
    if cls not in ('Reserves', 'LifeTable', 'SULT', 'Beta', 'Uniform', 'Mthly', 'UDD', 'Woolhouse') or left > 110: raise Skip
    b = rng.uniform(.5, 9)
    u = left + rng.choice([0 if cls != 'Woolhouse' else 1, 1, 1, 2, rng.randint(1, 9)])     # the expansion needs survival at the adjacent ages
    c.note(b=b, u=u)
    Z = lambda key, f, **k: c.value(f'beyond.{key}', 0., f, x, s=s, **k, abs=1e-9)
    Z('deferred', o.deferred_insurance, u=u, b=b, **kw); Z('deferred-term', o.deferred_insurance, u=u, t=t, b=b, **kw)
    Z('deferred-annuity', o.deferred_annuity, u=u, b=b, **kw); Z('deferred-temporary', o.deferred_annuity, u=u, t=t, b=b, **kw)
    if cls != 'Woolhouse':
        Z('pure-endowment', o.E_x, t=u, endowment=b)
        for m in (2, VAR): Z('deferred-moment', o.deferred_insurance, u=u, t=rng.choice([W, t]), b=b, moment=m, **kw)
    if not over:
        Z('deferred-death', o.q_x, u=u, t=t)
        c.close('beyond.certain', c.call('certain', o.certain_life_annuity, x, s=s, u=u, b=b, **kw), b * life.interest.annuity(u, m=int(disc)), rel=1e-8)


GROUPS = [('beyond', beyond, 300, 6000), ('empty', empty, 300, 6000), ('amounts', amounts, 250, 5000), ('consecutive', consecutive, 250, 5000), ('survival', survival, 300, 6000)]
QUICK = 1
