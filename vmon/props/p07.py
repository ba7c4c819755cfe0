"""P07 annuity values"""
import math
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip
from vmon.products import Val
from vmon.props.p06 import scene, terms, amount

RULE = ('A case draws a mortality basis of any kind, an interest rate (including zero, in a random form), an age, select duration, term, deferral and amount, and compares every '
        'annuity product and its variance (due, continuous, immediate) with payment-by-payment enumeration or quadrature of the reference law; distinct by model, rate and policy.')
ASSUMPTIONS = ['whole-life annuity values are compared only on bases where the last age leaves no survivors',
               'continuous values of user-specified S/l forms go through numerical differentiation: compared at 5e-4']


def dtol(i, disc, tol):
    """(1-A)/d amplifies the error of A"""
    d = i / (1 + i) if disc else math.log1p(i)
    return dict(rel=tol['rel'] * 3, abs=tol['abs'] * (1 + 3 / d) if d else 1e-4)


def vtol(i, disc, tol, v):
    d = (i / (1 + i) if disc else math.log1p(i)) or .01
    return dict(rel=tol['rel'] * 20, abs=(tol['abs'] + 3 * tol['rel']) / d ** 2 * 3 if i else 1e-3 * (1 + v.N))


def products(c, rng, disc, weights=None):
    m, x, s, i, v, k, tol = scene(c, rng, disc, weights)
    o = m.obj
    if not m.natural and m.law.omega is not None and m.law.S(x, s, v.N) > 1e-9:
        whole_ok = False
    else: whole_ok = True
    t, u, n = terms(rng, m, v)
    b = amount(rng)
    c.note(t=t, u=u, n=n, b=b)
    T = dtol(i, disc, tol); T = dict(rel=T['rel'], abs=T['abs'] * b)
    V = vtol(i, disc, tol, v); V = dict(rel=V['rel'], abs=V['abs'] * b * b)
    nm = f"{k}.{'d' if disc else 'c'}{'' if i else '.i0'}"
    which = rng.sample(['whole', 'temp', 'deferred', 'certain', 'inc', 'dec', 'imm', 'a_x', 'twin'], 3 if disc else 2)
    if 'whole' in which and whole_ok:
        c.value(f'whole.{nm}', v.ann(b=b, disc=disc), o.whole_life_annuity, x, s=s, b=b, discrete=disc, **T)
        c.value(f'whole.var.{nm}', v.ann_var(b=b, disc=disc), o.whole_life_annuity, x, s=s, b=b, variance=True, discrete=disc, **V)
        if disc: c.value(f'whole.default.{k}', v.ann(), o.whole_life_annuity, x, s, rel=T['rel'], abs=T['abs'] / b)
    if 'temp' in which:
        c.value(f'temporary.{nm}', v.ann(t, b=b, disc=disc), o.temporary_annuity, x, s=s, t=t, b=b, discrete=disc, **T)
        c.value(f'temporary.var.{nm}', v.ann_var(t, b=b, disc=disc), o.temporary_annuity, x, s=s, t=t, b=b, variance=True, discrete=disc, **V)
        if whole_ok: c.value(f'temporary.whole.{nm}', v.ann(b=b, disc=disc), o.temporary_annuity, x, s=s, b=b, discrete=disc, **T)
    if 'deferred' in which:
        c.value(f'deferred-term.{nm}', v.ann(n, u=u, b=b, disc=disc), o.deferred_annuity, x, s=s, u=u, t=n, b=b, discrete=disc, **T)
        if whole_ok:
            c.value(f'deferred.{nm}', v.ann(u=u, b=b, disc=disc), o.deferred_annuity, x, s=s, u=u, b=b, discrete=disc, **T)
            c.value(f'deferred.never.{nm}', 0., o.deferred_annuity, x, s=s, u=m.maxage - x - s + rng.randint(1, 4), b=b, discrete=disc)
    if 'certain' in which:
        cert = lambda u: b * ref.ann_cert(v.v, u, disc)
        c.value(f'certain-term.{nm}', cert(u) + v.ann(n, u=u, b=b, disc=disc), o.certain_life_annuity, x, s=s, u=u, t=n, b=b, discrete=disc, **T)
        if whole_ok:
            c.value(f'certain.{nm}', cert(u) + v.ann(u=u, b=b, disc=disc), o.certain_life_annuity, x, s=s, u=u, b=b, discrete=disc, **T)
            if m.law.omega is not None:
                w = v.N + rng.randint(1, 9)
                c.value(f'certain.beyond.{nm}', cert(w), o.certain_life_annuity, x, s=s, u=w, b=b, discrete=disc, **T)
    if 'inc' in which:
        N = v.cap(t)
        c.value(f'increasing.{nm}', v.ann(t, b=lambda y: b * (y + disc), disc=disc), o.increasing_annuity, x, s=s, t=t, b=b, discrete=disc, rel=T['rel'], abs=tol['abs'] * b * (N + 1) ** 2)
        if whole_ok and v.N < 200:
            c.value(f'increasing.whole.{nm}', v.ann(b=lambda y: b * (y + disc), disc=disc), o.increasing_annuity, x, s=s, b=b, discrete=disc, rel=T['rel'], abs=tol['abs'] * b * (v.N + 1) ** 2)
    if 'dec' in which:
        c.value(f'decreasing.{nm}', v.ann(t, b=lambda y: b * (t - y), disc=disc), o.decreasing_annuity, x, s=s, t=t, b=b, discrete=disc, rel=T['rel'], abs=T['abs'] * (t + 1) * 3)
    if 'imm' in which and disc:
        # payments at the end of each year
        imm = lambda t: math.fsum(b * v.v(j) * v.S(j) for j in range(1, v.cap(t) + 1))
        if t < v.N or whole_ok:
            c.value(f'immediate.{nm}', imm(t), o.immediate_annuity, x, s=s, t=t, b=b, **T)
            if t + 1 <= v.N or whole_ok:
                c.value(f'immediate.var.{nm}', v.ann_var(t + 1, b=b), o.immediate_annuity, x, s=s, t=t, b=b, variance=True, **V)
        if whole_ok:
            c.value(f'immediate.whole.{nm}', imm(-1), o.immediate_annuity, x, s=s, b=b, **T)
            c.value(f'immediate.whole.var.{nm}', v.ann_var(b=b), o.immediate_annuity, x, s=s, b=b, variance=True, **V)
    if 'a_x' in which:
        a0, g = rng.uniform(.5, 3), rng.uniform(-.03, .03)
        fn = rng.choice([lambda y, t: a0 + .1 * t, lambda y, t: a0 * math.exp(g * t), lambda y, t: a0 * (1 + y / 100.)])
        whole = rng.random() < .3 and v.N < 200
        c.value(f'a_x.{nm}', v.ann(-1 if whole else n, u=u, b=lambda t: fn(x + s, t), disc=disc), o.a_x, x, s=s, t=-999 if whole else n, u=u, benefit=fn, discrete=disc,
                rel=tol['rel'] * 3, abs=tol['abs'] * 100)
        if disc: c.value(f'a_x.default.{k}', v.ann(), o.a_x, x, s=s, rel=1e-6, abs=1e-5)
    if 'twin' in which and i:
        d = i / (1 + i) if disc else math.log1p(i)
        A = rng.uniform(0, 1); A2 = rng.uniform(A * A, A)
        c.note(A=A, A2=A2)
        c.value(f'twin.annuity.{disc}', (1 - A) / d, o.annuity_twin, A, discrete=disc)
        c.value(f'twin.insurance.{disc}', A, o.insurance_twin, (1 - A) / d, discrete=disc)
        c.value(f'twin.variance.{disc}', b * b * (A2 - A * A) / d ** 2, o.annuity_variance, A2=A2, A1=A, b=b, discrete=disc, rel=1e-6)
        # the library's own values of one contract convert into each other
        C = lambda f, **kw: c.call('twin', getattr(o, f), x, s=s, discrete=disc, **kw)
        if whole_ok:
            c.close(f'twin.whole.{nm}', C('whole_life_insurance'), 1 - d * C('whole_life_annuity'), rel=1e-9, abs=1e-9 if disc else 1e-6)
        if t <= v.N:
            c.close(f'twin.temporary.{nm}', C('endowment_insurance', t=t), 1 - d * C('temporary_annuity', t=t), rel=1e-7 if disc else tol['rel'] * 3, abs=1e-7 if disc else tol['abs'] * 3)


def discrete(c, rng): products(c, rng, True)
def continuous(c, rng): products(c, rng, False, dict(generic=3, law=5, table=2, sult=1))


def zero_interest(c, rng):
    """annuities without interest are expected (limited) lifetimes"""
    disc = rng.random() < .6
    m, x, s, i, v, k, tol = scene(c, rng, disc)
    if not m.natural and m.law.omega is not None: raise Skip
    o = m.obj
    c.call('set_interest', o.set_interest, **rng.choice([dict(i=0), dict(delta=0), dict(v=1), dict(d=0), dict(i=0.)]))
    v = Val(m, x, s, 0.)
    t, u, n = terms(rng, m, v)
    b = amount(rng)
    c.note(t=t, u=u, n=n, b=b, zero=True)
    nm = f"zero.{k}.{'d' if disc else 'c'}"
    T = dict(rel=max(1e-5, tol['rel']), abs=1e-4 * b)
    V = dict(rel=1e-3, abs=1e-3 * b * b * (1 + v.ann_var(t) * .01 + v.N))
    c.value(f'whole.{nm}', v.ann(b=b, disc=disc), o.whole_life_annuity, x, s=s, b=b, discrete=disc, **T)
    c.value(f'whole.var.{nm}', v.ann_var(b=b, disc=disc), o.whole_life_annuity, x, s=s, b=b, discrete=disc, variance=True, **V)
    c.value(f'temporary.{nm}', v.ann(t, b=b, disc=disc), o.temporary_annuity, x, s=s, t=t, b=b, discrete=disc, **T)
    c.value(f'temporary.var.{nm}', v.ann_var(t, b=b, disc=disc), o.temporary_annuity, x, s=s, t=t, b=b, discrete=disc, variance=True, **V)
    c.value(f'deferred.{nm}', v.ann(n, u=u, b=b, disc=disc), o.deferred_annuity, x, s=s, u=u, t=n, b=b, discrete=disc, **T)
    c.value(f'certain.{nm}', b * u + v.ann(n, u=u, b=b, disc=disc), o.certain_life_annuity, x, s=s, u=u, t=n, b=b, discrete=disc, **T)
    c.value(f'certain.none.{nm}', v.ann(n, b=b, disc=disc), o.certain_life_annuity, x, s=s, u=0, t=n, b=b, discrete=disc, **T)
    c.value(f'certain.only.{nm}', b * u, o.certain_life_annuity, x, s=s, u=u, t=0, b=b, discrete=disc, **T)
    c.value(f'temporary.none.{nm}', 0., o.temporary_annuity, x, s=s, t=0, b=b, discrete=disc, abs=1e-9 * b)
    c.value(f'temporary.none.var.{nm}', 0., o.temporary_annuity, x, s=s, t=0, b=b, discrete=disc, variance=True, abs=1e-6 * b * b)


def small_interest(c, rng):
    """rates so small that little separates a value from the undiscounted one"""
    disc = rng.random() < .8
    m, x, s, i, v, k, tol = scene(c, rng, disc)
    if not m.natural and m.law.omega is not None: raise Skip
    o = m.obj
    i = 10 ** rng.uniform(-4.8, -2.7)
    c.call('set_interest', o.set_interest, **gens.interest_kw(rng, i))
    v = Val(m, x, s, i)
    if m.law.S(x, s, v.N) > 1e-5 * i: raise Skip       # survivors at the last age
    t, u, n = terms(rng, m, v)
    b = amount(rng)
    c.note(t=t, u=u, n=n, b=b, small=i)
    nm = f"small.{k}.{'d' if disc else 'c'}"
    T = dict(rel=1e-4, abs=b * (1e-3 if disc else .02 + tol['abs'] * 5 / i))
    c.value(f'whole.{nm}', v.ann(b=b, disc=disc), o.whole_life_annuity, x, s=s, b=b, discrete=disc, **T)
    c.value(f'temporary.{nm}', v.ann(t, b=b, disc=disc), o.temporary_annuity, x, s=s, t=t, b=b, discrete=disc, **T)
    c.value(f'deferred.{nm}', v.ann(n, u=u, b=b, disc=disc), o.deferred_annuity, x, s=s, u=u, t=n, b=b, discrete=disc, **T)
    c.value(f'deferred.whole.{nm}', v.ann(u=u, b=b, disc=disc), o.deferred_annuity, x, s=s, u=u, b=b, discrete=disc, **T)
    c.value(f'certain.{nm}', b * ref.ann_cert(v.v, u, disc) + v.ann(n, u=u, b=b, disc=disc), o.certain_life_annuity, x, s=s, u=u, t=n, b=b, discrete=disc, **T)
    if disc: c.value(f'immediate.{nm}', math.fsum(b * v.v(j) * v.S(j) for j in range(1, v.cap(-1) + 1)), o.immediate_annuity, x, s=s, b=b, **T)


def discount_function(c, rng):
    """interest as a discount function: first-principles annuity"""
    m = gens.any_model(rng, dict(generic=3, law=2, table=3))
    x, s = m.pick_age(rng)
    r, h = rng.uniform(.005, .05), rng.uniform(.5, 2)
    fn = rng.choice([lambda t: (1 + r * t) ** -h, lambda t: math.exp(-r * t - .0005 * t * t)])
    c.call('set_interest', m.obj.set_interest, v_t=fn)
    v = Val(m, x, s, 0.); v.v = fn
    t, u, n = terms(rng, m, v)
    b = amount(rng)
    c.note(model=m, x=x, s=s, r=r, u=u, n=n); k = m.kind.split('-')[0]
    for disc in (True, False):
        c.value(f'vt.a_x.{k}.{disc}', v.ann(n, u=u, b=lambda y: b * (1 + .1 * y), disc=disc), m.obj.a_x, x, s=s, t=n, u=u, benefit=lambda a, y: b * (1 + .1 * y), discrete=disc, rel=1e-5, abs=1e-5 * b)
        c.value(f'vt.increasing.{k}.{disc}', v.ann(n, b=lambda y: b * (y + disc), disc=disc), m.obj.increasing_annuity, x, s=s, t=n, b=b, discrete=disc, rel=1e-5, abs=1e-5 * b)


def part_years(c, rng):
    """first-principles continuous annuity over terms and deferrals that are not whole years; guaranteed for all remaining years"""
    m, x, s, i, v, k, tol = scene(c, rng, False, dict(generic=4, law=3))
    if v.N < 3: raise Skip
    u = rng.choice([0, rng.uniform(0, .9), rng.uniform(0, min(20, v.N - 2)), rng.randint(0, min(20, v.N - 2))])
    t = rng.uniform(.1, min(30, v.N - u - .5))
    a0, g = rng.uniform(.5, 3), rng.uniform(-.03, .03)
    fn = rng.choice([lambda y, t: a0 + .1 * t, lambda y, t: a0 * math.exp(g * t), lambda y, t: a0 * (1 + y / 100. + t * t / 50.)])
    c.note(u=u, t=t); c.dim(part=u != int(u))
    want = v.ann(t, u=u, b=lambda r: fn(x + s, r), disc=False)
    c.value(f'part.a_x.{k}', want, m.obj.a_x, x, s=s, u=u, t=t, benefit=fn, discrete=False, rel=tol['rel'] * 3, abs=tol['abs'] * max(1., abs(want)) * 10)


def guaranteed_for_life(c, rng):
    disc = rng.random() < .5
    m, x, s, i, v, k, tol = scene(c, rng, disc)
    b = amount(rng); u = m.obj.max_term(x + s, -1); t = rng.choice([{}, dict(t=rng.randint(1, 5))])
    c.note(b=b, t=t)
    want = c.call('certain.whole', m.obj.certain_life_annuity, x, s=s, u=u, b=b, discrete=disc, **t)
    c.value('certain.whole', want, m.obj.certain_life_annuity, x, s=s, u=rng.choice([-1, m.obj.WHOLE, -7]), b=b, discrete=disc, rel=1e-12, abs=1e-9, **t)
    if m.natural:
        dl = math.log1p(i); d = i / (1 + i)
        c.value(f'certain.whole.value.{k}', b * (u if not i else -math.expm1(-dl * u) / (d if disc else dl)), m.obj.certain_life_annuity, x, s=s, u=-1, b=b, discrete=disc, rel=1e-6, abs=1e-4 * b)


def select(c, rng):
    q, n, lo, hi = gens.select_q(rng)
    i = gens.rate(rng)
    o = SelectLife(periods=n).set_interest(**gens.interest_kw(rng, i))
    c.call('select.build', o.set_table, q={y: [q[y][r] for r in range(n + 1)] for y in q})
    law = ref.SelectTable(q, n, lo, hi)
    x = rng.randint(lo, hi); s = rng.randint(0, n + (rng.randint(0, hi - x)))
    left = hi + n + 1 - x - s
    t = rng.randint(1, left); u = rng.randint(0, left); w = rng.randint(0, left - u)
    b = amount(rng)
    m = Model(o, law, hi + n + 1, 'SelectLife', minage=lo, natural=False)
    v = Val(m, x, s, i)
    c.note(periods=n, ages=(lo, hi), x=x, s=s, i=i, t=t, u=u, w=w, b=b); c.dim(kind='select', periods=n)
    tol = dict(rel=1e-7, abs=1e-6 * b / max(i, 1e-3))
    c.value('select.temporary', v.ann(t, b=b), o.temporary_annuity, x, s=s, t=t, b=b, **tol)
    c.value('select.deferred', v.ann(w, u=u, b=b), o.deferred_annuity, x, s=s, u=u, t=w, b=b, **tol)
    c.value('select.certain', b * ref.ann_cert(v.v, u) + v.ann(w, u=u, b=b), o.certain_life_annuity, x, s=s, u=u, t=w, b=b, **tol)
    c.value('select.increasing', v.ann(t, b=lambda y: b * (y + 1)), o.increasing_annuity, x, s=s, t=t, b=b, **tol)
    c.value('select.decreasing', v.ann(t, b=lambda y: b * (t - y)), o.decreasing_annuity, x, s=s, t=t, b=b, rel=1e-7, abs=tol['abs'] * (t + 1))
    c.value('select.a_x', v.ann(w, u=u, b=lambda y: 1. + y), o.a_x, x, s=s, u=u, t=w, benefit=lambda a, y: 1. + y, rel=1e-7, abs=1e-6)
    if t < left:
        c.value('select.immediate', math.fsum(b * v.v(j) * v.S(j) for j in range(1, t + 1)), o.immediate_annuity, x, s=s, t=t, b=b, **tol)


THOROUGH = 5      # scale of the thorough tier
GROUPS = [('discrete', discrete, 900, 12000), ('continuous', continuous, 300, 3500), ('zero_interest', zero_interest, 250, 3500),
          ('small_interest', small_interest, 80, 2000),
          ('discount_function', discount_function, 150, 2000), ('select', select, 250, 4000), ('part_years', part_years, 60, 1500), ('guaranteed_for_life', guaranteed_for_life, 60, 1500)]
