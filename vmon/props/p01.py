"""P01 interest-rate forms, conversions, annuity-certain"""
import math
from actuarialmath import Interest, Life, Premiums
from vmon import ref

RULE = ('A case draws a random annual effective rate (including tiny, large and zero), supplies it in a randomly chosen form '
        '(i, d, v, delta, m-thly i or d, or a discount function), reads every other form and values annuities-certain of random '
        'term/frequency/timing; non-trivial when at least one value was compared with the reference; distinct by drawn scenario.')
ASSUMPTIONS = ['reference: closed-form conversions of one drawn effective rate and direct summation / Gauss-Legendre of discounted payments']
FORMS = ['i', 'd', 'v', 'delta', 'i_m', 'd_m']


def rate(rng):
    r = rng.random()
    if r < 0.06: return 0.0
    if r < 0.12: return 10 ** rng.uniform(-7, -3)
    if r < 0.2: return rng.uniform(0.3, 2.0)
    return rng.uniform(0.001, 0.25)


def all_forms(i, m):
    d = i / (1 + i)
    dl = math.log1p(i)
    return dict(i=i, d=d, v=1 / (1 + i), delta=dl, i_m=m * math.expm1(dl / m), d_m=-m * math.expm1(-dl / m))


def give(form, i, m):
    F = all_forms(i, m)
    return {form: F[form], 'm': m} if form in ('i_m', 'd_m') else {form: F[form]}


def forms(c, rng):
    i = rate(rng); m = rng.choice([1, 2, 3, 4, 6, 12, 52, 365]); form = rng.choice(FORMS)
    via = rng.choice(['ctor', 'life', 'premiums'])
    c.note(i=i, m=m, form=form, via=via); c.dim(form=form, via=via, zero=(i == 0))
    kw = give(form, i, m)
    if via == 'ctor':
        I = c.call('forms.construct', Interest, **kw)
    else:
        L = (Life if via == 'life' else Premiums)()
        c.call('forms.construct', L.set_interest, **kw)
        I = L.interest
    F = all_forms(i, m)
    # a rate given as i_m loses relative precision when tiny: compare on an absolute scale of 1
    for name in ('i', 'd', 'v', 'delta'):
        c.close(f'forms.{form}->{name}', getattr(I, name), F[name], rel=1e-9, abs=1e-11)
    for _ in range(3):
        t = rng.choice([0, 1, rng.randint(2, 60), rng.uniform(0, 60), rng.uniform(0, 1)])
        c.value('forms.v_t', (1 + i) ** -t, I.v_t, t, rel=1e-8)


def mthly(c, rng):
    i = rate(rng); m = rng.choice([0, 1, 2, 3, 4, 6, 12, 26, 52, 365])
    c.note(i=i, m=m); c.dim(m=m)
    d = i / (1 + i)
    im = m * math.expm1(math.log1p(i) / m) if m else math.log1p(i)
    dm = -m * math.expm1(-math.log1p(i) / m) if m else math.log1p(i)
    c.value('mthly.i->i_m', im, Interest.mthly, m=m, i=i, abs=1e-10)
    c.value('mthly.d->d_m', dm, Interest.mthly, m=m, d=d, abs=1e-10)
    if m:
        c.value('mthly.i_m->i', i, Interest.mthly, m=m, i_m=im, abs=1e-10)
        c.value('mthly.d_m->d', d, Interest.mthly, m=m, d_m=dm, abs=1e-10)
        g = c.call('mthly.i->i_m', Interest.mthly, m=m, i=i)
        c.value('mthly.roundtrip-i', i, Interest.mthly, m=m, i_m=g, abs=1e-10)
        g = c.call('mthly.d->d_m', Interest.mthly, m=m, d=d)
        c.value('mthly.roundtrip-d', d, Interest.mthly, m=m, d_m=g, abs=1e-10)
        # nominal rates order: d < d_m < delta < i_m < i
    if i > 1e-3 and m > 1:
        a = [d, c.call('mthly.d->d_m', Interest.mthly, m=m, d=d), math.log1p(i),
             c.call('mthly.i->i_m', Interest.mthly, m=m, i=i), i]
        c.true('mthly.order', all(p < q for p, q in zip(a, a[1:])), f'{a}')


def double(c, rng):
    i = rate(rng); form = rng.choice(['i', 'd', 'v', 'delta'])
    c.note(i=i, form=form); c.dim(form=form)
    F, G = all_forms(i, 1), all_forms((1 + i) ** 2 - 1, 1)
    x = c.value(f'double.{form}', G[form], Interest.double_force, **{form: F[form]}, rel=1e-9, abs=1e-11)
    if x is None: return
    I1 = c.call('double.construct', Interest, **{form: F[form]})
    I2 = c.call('double.construct', Interest, **{form: x})
    t = rng.uniform(0, 40)
    c.close('double.v_t-squared', I2.v_t(t), I1.v_t(t) ** 2, rel=1e-8)
    c.close('double.delta', I2.delta, 2 * I1.delta, rel=1e-8, abs=1e-10)


def annuity(c, rng):
    i = rate(rng)
    if 0 < i < 1e-4: i = 1e-4
    form = rng.choice(FORMS); m = rng.choice([0, 0, 1, 1, 1, 1, 2, 3, 4, 6, 12, 12, 52, 365]); due = rng.random() < .5
    t = rng.choice([-1, 1, rng.randint(1, 60), rng.randint(1, 60), rng.randint(1, 12), rng.randint(1, 12), rng.randint(60, 500) if m < 52 else 80])
    if rng.random() < .25 and m != 1:        # part years, in whole payment periods
        t = rng.randint(1, 30 * m) / m if m else rng.uniform(0, 40)
    fm = rng.choice([2, 4, 12])
    c.note(i=i, form=form, m=m, due=due, t=t); c.dim(m=m, due=due, form=form, part_year=t != int(t), perpetuity=t < 0, zero=i == 0)
    if i == 0 and t < 0: raise_ok = True
    I = c.call('annuity.construct', Interest, **give(form, i, fm))
    v = lambda s: (1 + i) ** -s
    if t < 0:
        if i == 0: return
        dl = math.log1p(i)
        want = 1 / dl if m == 0 else (1 / (-m * math.expm1(-dl / m)) if due else 1 / (m * math.expm1(dl / m)))
    elif m == 0:
        want = ref.quad(v, 0, t)
    else:
        want = math.fsum(v((j if due else j + 1) / m) / m for j in range(round(t * m)))
    key = 'annuity.' + ('perpetuity.' if t < 0 else 'term.') + ('continuous' if m == 0 else ('due' if due else 'immediate') + ('.mthly' if m > 1 else ''))
    if i == 0: key += '.zero-interest'
    c.value(key, want, I.annuity, t=t, m=m, due=due, rel=1e-8)
    if t >= 0 and m == 1 and due:   # default arguments are an annual annuity-due
        c.value('annuity.defaults', want, I.annuity, t, rel=1e-8)


def vfun(c, rng):
    """interest given as a discount function is used as given"""
    a, b = rng.uniform(0.01, 0.1), rng.uniform(0, 0.002)
    c.note(a=a, b=b)
    f = lambda t: math.exp(-a * t - b * t * t)
    I = c.call('vfun.construct', Interest, v_t=f)
    for t in (0, 1, rng.uniform(0, 30), rng.randint(1, 40)):
        c.value('vfun.v_t', f(t), I.v_t, t)
    L = c.call('vfun.life', Life().set_interest, v_t=f)
    c.close('vfun.life', L.interest.v_t(3), f(3))
    c.raises('vfun.reject-v0', Interest, v_t=lambda t: .9 * f(t))
    c.raises('reject.no-rate', Interest)


GROUPS = [('forms', forms, 1500, 40000), ('mthly', mthly, 800, 20000), ('double', double, 600, 15000),
          ('annuity', annuity, 1500, 40000), ('vfun', vfun, 100, 2000)]
QUICK = 10      # scale of the quick tier
THOROUGH = 60      # scale of the thorough tier
