"""P09 percentiles of present values"""
import math
from actuarialmath import Contract
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip
from vmon.products import Val
from vmon.props.p06 import scene, amount

RULE = ('A case draws a mortality basis of any kind, an interest rate, an age, a probability or time of death and a policy, and checks each map (lifetime to value, value to lifetime, '
        'probability to value, value to probability) of the insurance, annuity and loss variables against the quantile of the reference law, against each other, and against the '
        'direction of the variable; yearly expected benefits are summed and compared with the contract value. Distinct by model, rate, age and probability.')
ASSUMPTIONS = ['discrete percentiles are decided away from ties (exact quantile at least 1e-4 years from a whole year)',
               'value-to-lifetime and value-to-probability maps are decided for continuous benefits, as documented']


def quantile(m, x, target):
    """t with S_x(t) = target"""
    lo, hi = 0., float(m.maxage - x)
    S = m.S(x, 0)
    for _ in range(200):
        mid = (lo + hi) / 2
        if S(mid) > target: lo = mid
        else: hi = mid
    return (lo + hi) / 2


def setup(c, rng, zero=False, weights=None):
    m = gens.any_model(rng, weights)
    if m.cls == 'Premiums': m = gens.generic_model(rng, base=rng.choice([PolicyValues, Reserves]))
    x, _ = m.pick_age(rng, smax=0)
    if m.kind.startswith('generic-') and m.kind[8] in 'Sl' and x < 2 and m.maxage > 6: x += 2
    i = gens.rate(rng) if zero else rng.uniform(.005, .12)
    c.call('set_interest', m.obj.set_interest, **gens.interest_kw(rng, i))
    c.note(model=m, x=x, i=i); c.dim(kind=m.kind, zero_interest=i == 0)
    return m, x, i, m.kind.split('-')[0]


def pick(rng, m, x):
    """survival probability and its exact time, in the interior of a year"""
    end = m.S(x, 0)(m.maxage - x)
    p = rng.choice([rng.uniform(.02, .98), rng.uniform(.3, .7), rng.choice([.05, .25, .5, .75, .9, .95])])
    p = end + (1 - end) * p
    T = quantile(m, x, p)
    if abs(T - round(T)) < 1e-4 or T < 1e-3: raise Skip('tie')
    h = 1e-4
    slope = (m.S(x, 0)(T - h) - m.S(x, 0)(min(T + h, m.maxage - x))) / (2 * h)
    if slope < 1e-4: raise Skip('flat survival function')
    return p, T, slope


def z_value(i, t, disc): return (1 + i) ** -((math.floor(t) + 1) if disc else t)


def y_value(i, t, disc):
    n = math.floor(t) + 1 if disc else t
    if i == 0: return n
    return (1 - (1 + i) ** -n) / (i / (1 + i) if disc else math.log1p(i))


def contract(rng, disc, **kw):
    e = rng.random() < .6
    t = dict(premium=rng.uniform(.001, .2), benefit=rng.choice([1, 1000, rng.uniform(.5, 3)]), discrete=disc)
    if t['benefit'] == 1000: t['premium'] *= 300
    b = t['benefit']
    if e:
        t.update(initial_policy=rng.uniform(0, .05) * b, initial_premium=rng.uniform(0, .8), renewal_policy=rng.uniform(0, .1) * t['premium'], renewal_premium=rng.uniform(0, .2),
                 settlement_policy=rng.uniform(0, .05) * b)
        for k in list(t):
            if k not in ('premium', 'benefit', 'discrete') and rng.random() < .3: del t[k]
    t.update(kw)
    return t, Contract(**t)


def loss(i, t, k):
    """discounted cash flows of the whole life policy when death is at time t"""
    g = lambda n: k.get(n, 0)
    disc = k['discrete']
    first = g('initial_policy') + g('initial_premium') * k['premium'] - g('renewal_policy') - g('renewal_premium') * k['premium']
    net = k['premium'] * (1 - g('renewal_premium')) - g('renewal_policy')
    return (k['benefit'] + g('settlement_policy')) * z_value(i, t, disc) + first - net * y_value(i, t, disc)


def from_t(c, rng):
    """lifetime to value is the discounted cash flow; direction in lifetime"""
    m, x, i, k = setup(c, rng, zero=True)
    o = m.obj
    ts = sorted({rng.choice([0, rng.randint(0, 60), rng.uniform(0, 60), rng.randint(1, 40) - 1e-3]) for _ in range(4)})
    disc = rng.random() < .5
    kt, con = contract(rng, disc)
    c.note(ts=ts, contract=kt)
    Z = [c.value(f'Z_from_t.{disc}', z_value(i, t, disc), o.Z_from_t, t, discrete=disc) for t in ts]
    Y = [c.value(f'Y_from_t.{disc}', y_value(i, t, disc), o.Y_from_t, t, discrete=disc, rel=1e-7 if i > 1e-5 or i == 0 else 1e-3) for t in ts]
    L = [c.value(f'L_from_t.{disc}', loss(i, t, kt), o.L_from_t, t, contract=con, rel=1e-7, abs=1e-8 * kt['benefit'] * 10) for t in ts]
    for a in range(len(ts) - 1):
        if None in Z + Y: break
        c.true('direction.Z', Z[a] >= Z[a + 1] - 1e-12); c.true('direction.Y', Y[a] <= Y[a + 1] + 1e-12)
    c.value('Z_from_t.default', z_value(i, ts[0], True), o.Z_from_t, ts[0])
    c.value('Y_from_t.default', y_value(i, ts[0], True), o.Y_from_t, ts[0], rel=1e-7)
    # value to lifetime
    t = rng.uniform(.5, 40)
    if i > 0:
        c.value('Z_to_t', t, o.Z_to_t, z_value(i, t, False), rel=1e-6)
        c.value('Y_to_t', t, o.Y_to_t, y_value(i, t, False), rel=1e-5)
    else:
        c.value('Y_to_t.i0', t, o.Y_to_t, t, rel=1e-6)


def continuous(c, rng):
    m, x, i, k = setup(c, rng)
    o = m.obj
    p, T, slope = pick(rng, m, x)
    c.note(p=p, T=T)
    ta = dict(rel=1e-6, abs=2e-6 / slope)
    pa = dict(rel=1e-6, abs=2e-6)
    # insurance: P[Z <= z] = S(t)
    c.value(f'Z_t.c.{k}', T, o.Z_t, x, p, discrete=False, **ta)
    z = z_value(i, T, False)
    c.value(f'Z_from_prob.c.{k}', z, o.Z_from_prob, x, p, discrete=False, rel=1e-6, abs=2e-6 / slope)
    c.value(f'Z_to_prob.{k}', p, o.Z_to_prob, x, z, **pa)
    c.value(f'Z_to_t.{k}', T, o.Z_to_t, z, rel=1e-6)
    # annuity: P[Y <= y] = 1 - S(t)
    y = y_value(i, T, False)
    c.value(f'Y_t.c.{k}', T, o.Y_t, x, 1 - p, discrete=False, **ta)
    c.value(f'Y_from_prob.c.{k}', y, o.Y_from_prob, x, 1 - p, discrete=False, rel=1e-6, abs=2e-6 / slope)
    cut = 1e-15 * (1 + i)**T / math.log1p(i)**2 if i else 0.          # the value of a long annuity hardly depends on its length
    c.value(f'Y_to_prob.{k}', 1 - p, o.Y_to_prob, x, y, rel=1e-6, abs=2e-6 + cut * slope)
    c.value(f'Y_to_t.{k}', T, o.Y_to_t, y, rel=1e-6, abs=cut)
    # library's own maps compose to the identity
    zz = c.call('compose', o.Z_from_prob, x, p, discrete=False)
    c.value(f'compose.Z.{k}', p, o.Z_to_prob, x, zz, rel=1e-5, abs=1e-5)
    yy = c.call('compose', o.Y_from_prob, x, 1 - p, discrete=False)
    c.value(f'compose.Y.{k}', 1 - p, o.Y_to_prob, x, yy, rel=1e-5, abs=1e-5)
    # loss
    kt, con = contract(rng, False)
    if 1 - kt.get('renewal_premium', 0) - kt.get('renewal_policy', 0) / kt['premium'] <= 0: raise Skip
    c.note(contract=kt)
    lo = loss(i, T, kt)
    dl = (kt['benefit'] + kt.get('settlement_policy', 0)) * math.log1p(i) + kt['premium']
    c.value(f'L_from_prob.c.{k}', lo, o.L_from_prob, x, p, contract=con, rel=1e-6, abs=dl * 3e-6 / slope)
    c.value(f'L_to_t.c.{k}', T, o.L_to_t, lo, contract=con, rel=1e-4, abs=1e-3)
    c.value(f'L_to_t.worst.c', 0, o.L_to_t, loss(i, 0, kt) + rng.choice([1e-6, rng.uniform(0, 5)]), contract=con, abs=1e-6)
    c.value(f'L_to_prob.c.{k}', p, o.L_to_prob, x, lo, contract=con, rel=1e-4, abs=1e-3 * slope + 2e-5)


def discrete(c, rng):
    m, x, i, k = setup(c, rng)
    o = m.obj
    p, T, slope = pick(rng, m, x)
    c.note(p=p, T=T)
    f = math.floor(T)
    c.value(f'Z_t.d.{k}', f, o.Z_t, x, p)
    z = c.value(f'Z_from_prob.d.{k}', z_value(i, f, True), o.Z_from_prob, x, p)
    c.value(f'Z_from_prob.d.{k}', z_value(i, f, True), o.Z_from_prob, x, p, discrete=True)
    c.value(f'Y_t.d.{k}', f + 1, o.Y_t, x, 1 - p)
    # the percentile of the number of payments K+1: smallest value attained with at least this probability
    c.value(f'Y_from_prob.d.{k}', y_value(i, f, True), o.Y_from_prob, x, 1 - p)
    kt, con = contract(rng, True)
    c.note(contract=kt)
    c.value(f'L_from_prob.d.{k}', loss(i, f, kt), o.L_from_prob, x, p, contract=con, rel=1e-8, abs=1e-7 * kt['benefit'])
    # direction in probability
    p2, T2, _ = pick(rng, m, x)
    if p2 < p: p, p2 = p2, p
    c.note(p2=p2)
    for disc in (True, False):
        for nm, fn in (('Z', o.Z_from_prob), ('Y', o.Y_from_prob)):
            a, b = c.call('direction', fn, x, p, discrete=disc), c.call('direction', fn, x, p2, discrete=disc)
            c.true(f'percentile-direction.{nm}', a <= b + 1e-7, lambda: f'{a} at {p}, {b} at {p2}')


def losses(c, rng):
    """discrete loss: first whole year in which the loss is no more than the given amount"""
    m, x, i, k = setup(c, rng)
    o = m.obj
    kt, con = contract(rng, True)
    if 1 - kt.get('renewal_premium', 0) - kt.get('renewal_policy', 0) / kt['premium'] <= 0: raise Skip
    n = rng.randint(1, min(40, m.maxage - x))
    a, b = loss(i, n - 1, kt), loss(i, n, kt)
    if (a - b) < 1e-4 * kt['benefit']: raise Skip
    L = rng.choice([0, b + (a - b) * rng.uniform(.05, .95)])
    if L == 0:
        n = next((j for j in range(m.maxage - x + 1) if loss(i, j, kt) <= 0), None)
        if not n or n < 1 or not loss(i, n - 1, kt) > 1e-6: raise Skip
    c.note(contract=kt, L=L, n=n)
    c.value(f'L_to_t.d.{k}', n, o.L_to_t, L, contract=con)
    c.value(f'L_to_t.worst.d', 0, o.L_to_t, loss(i, 0, kt) + rng.choice([1e-6, rng.uniform(0, 5)]), contract=con)
    if x + n <= m.maxage:
        c.value(f'L_to_prob.d.{k}', m.S(x, 0)(n), o.L_to_prob, x, L, contract=con, rel=1e-6, abs=1e-6)


def yearly(c, rng):
    """expected benefit in each year; sum over years is the contract value"""
    m, x, s, i, v, k, tol = scene(c, rng, True)
    o = m.obj
    if not m.natural and m.law.omega is not None and m.law.S(x, s, v.N) > 1e-9: nat = False
    else: nat = True
    t = rng.choice([rng.randint(0, max(0, v.N - 1)), rng.uniform(0, max(0, v.N - 1))])
    kk = math.floor(t)
    c.note(t=t)
    nm = m.kind.split('-')[0]
    c.value(f'Z_x.{nm}', v.v(kk + 1) * (v.S(kk) - v.S(kk + 1)), o.Z_x, x, s=s, t=t, rel=1e-6, abs=1e-7)
    c.value(f'Y_x.{nm}', v.v(kk) * v.S(kk), o.Y_x, x, s=s, t=t, rel=1e-6, abs=1e-7)
    if v.N < 150:
        zs = math.fsum(c.call('Z_x', o.Z_x, x, s=s, t=j) for j in range(v.N))
        c.value(f'sum.Z.{nm}', zs, o.whole_life_insurance, x, s=s, rel=1e-6, abs=1e-6)
        n = rng.randint(1, v.N)
        ys = math.fsum(c.call('Y_x', o.Y_x, x, s=s, t=j) for j in range(n))
        c.value(f'sum.Y.{nm}', ys, o.temporary_annuity, x, s=s, t=n, rel=1e-5, abs=1e-5 * (1 + 1 / max(i, .01) if i else 1e2))
    # continuous
    if not isinstance(t, int) and t - kk > .02 and t - kk < .98:
        if m.kind.startswith('generic'):     # user-specified functions are interpolated (UDD) at fractional ages
            p = v.S(kk) + (t - kk) * (v.S(kk + 1) - v.S(kk)); f = v.S(kk) - v.S(kk + 1)
        else:
            p, f = v.S(t), m.law.f(x, s, t)
        c.value(f'Y_x.c.{nm}', v.v(t) * p, o.Y_x, x, s=s, t=t, discrete=False, rel=1e-6, abs=1e-7)
        c.value(f'Z_x.c.{nm}', v.v(t) * f, o.Z_x, x, s=s, t=t, discrete=False, rel=1e-6, abs=1e-7)


def plots(c, rng):
    """the curves drawn are the present values as a function of lifetime"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    m, x, i, k = setup(c, rng, zero=True)
    if m.cls == 'Premiums': raise Skip
    o = m.obj
    T = rng.randint(1, 6) if rng.random() < .5 else rng.uniform(.5, 6)
    stop = rng.randint(7, 12); s = 0
    if m.maxage - x < 14: raise Skip
    kt, con = contract(rng, True)
    g = rng.uniform(.01, .2)
    ben = lambda y, t: 1 + g * t + y / 100.
    c.note(T=T, stop=stop, contract=kt)
    want = dict(Z=lambda t: ben(x, t) * z_value(i, t, True), Y=lambda t: ben(x, t) * y_value(i, t, True), L=lambda t: loss(i, t, kt))
    for nm, fn in want.items():
        fig, ax = plt.subplots(1, 1)
        kw = dict(contract=con) if nm == 'L' else dict(benefit=ben)
        withT = rng.random() < .7
        got = c.call(f'{nm}_plot', getattr(o, nm + '_plot'), x, stop=stop, ax=ax, T=T if withT else None, dual=rng.random() < .5, **kw)
        c.true(f'{nm}_plot.value', (got is None) if not withT else got is not None and math.isclose(got, fn(T), rel_tol=1e-6, abs_tol=1e-8), lambda: f'{got} expected {fn(T)}')
        h = [b.get_height() for b in ax.patches]
        c.true(f'{nm}_plot.bars', len(h) == stop + 1 and all(math.isclose(a, fn(j), rel_tol=1e-6, abs_tol=1e-8) for j, a in enumerate(h)), lambda: f'{h}')
        plt.close(fig)


GROUPS = [('from_t', from_t, 1000, 20000), ('continuous', continuous, 1500, 25000), ('discrete', discrete, 1200, 20000), ('losses', losses, 800, 15000),
          ('yearly', yearly, 1200, 20000), ('plots', plots, 24, 300)]
QUICK = 10      # scale of the quick tier
THOROUGH = 10      # scale of the thorough tier
