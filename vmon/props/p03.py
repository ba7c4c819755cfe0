"""P03 survival forms"""
import math
from vmon import ref, gens
from vmon.gens import *

RULE = ('A case draws a closed-form mortality law (with or without select effect), supplies it to a library model in one of the four forms, and '
        'queries every form at random ages, select durations and terms; distinct by law, form and query points.')
ASSUMPTIONS = ['derived forces/densities use numerical differentiation: compared at 1e-5 relative, at least 1.5 years below a limiting age']


def build(c, rng, forms=('S', 'l', 'f', 'mu')):
    law = gens.smooth_law(rng)
    form = rng.choice(forms)
    cls = rng.choice(gens.GENERIC)
    maxage = gens.maxage_for(law)
    if form == 'l' and not law.select and law.omega is None:
        maxage = min(maxage, 130)
    minage = rng.choice([0, 0, rng.randint(1, 20)])
    c.note(law=law, form=form, cls=cls.__name__, maxage=maxage, minage=minage)
    c.dim(law=type(law).__name__ + ('-select' if law.select else ''), form=form, cls=cls.__name__)
    obj = cls()
    if rng.random() < .3:     # an earlier specification in another form must be replaced entirely
        other = rng.choice(['S', 'l', 'f', 'mu'])
        c.call('construct', obj.set_survival, **gens.supply(gens.smooth_law(rng), other), maxage=100)
        c.note(replaced=other)
    r = c.call('construct', obj.set_survival, **gens.supply(law, form), minage=minage, maxage=maxage)
    c.true('construct.fluent', r is obj)
    return obj, law, form, maxage, minage


def point(rng, law, form, maxage, margin=0):
    top = min(maxage, law.horizon(0, 1e-6))
    if form == 'mu' and law.omega: margin = max(margin, 1.1)
    x = rng.choice([rng.randint(0, int(top * .8)), rng.randint(0, 3) + 2])
    s = rng.choice([0, 0, rng.randint(0, max(0, int((top - x) * .4)))])
    room = top - x - s - margin
    if room <= 0: return None
    t = rng.choice([0, 1, rng.uniform(0, room), rng.uniform(0, room), rng.randint(0, int(room))])
    if t > room: return None
    return x, s, t


def survival(c, rng):
    obj, law, form, maxage, minage = build(c, rng)
    for _ in range(4):
        p = point(rng, law, form, maxage)
        if not p: continue
        x, s, t = p
        top = min(maxage, law.horizon(0, 1e-6))
        u = rng.choice([0, 0, rng.randint(0, 5), rng.uniform(0, 10)])
        c.value(f'S.{form}', law.S(x, s, t), obj.S, x, s, t, rel=1e-6, abs=1e-7)
        c.value(f'p_x.{form}', law.S(x, s, t), obj.p_x, x, s=s, t=t, rel=1e-6, abs=1e-7)
        c.value(f'q_x.{form}', 1 - law.S(x, s, t), obj.q_x, x, s=s, t=t, rel=1e-6, abs=1e-7)
        if x + s + t + u <= top - (form == 'mu' and law.omega is not None):
            c.value(f'q_x.deferred.{form}', law.S(x, s, u) - law.S(x, s, u + t), obj.q_x, x, s=s, t=t, u=u, rel=1e-6, abs=1e-7)
    p = point(rng, law, form, maxage, margin=2)
    if p:
        x, s, _ = p
        c.value(f'p_x.default.{form}', law.S(x, s, 1), obj.p_x, x, s, rel=1e-6, abs=1e-7)
        c.value(f'q_x.default.{form}', 1 - law.S(x, s, 1), obj.q_x, x, s, rel=1e-6, abs=1e-7)
        c.value(f'p_x.zero.{form}', 1., obj.p_x, x, s=s, t=0, rel=1e-9)


def force(c, rng):
    obj, law, form, maxage, minage = build(c, rng)
    for _ in range(3):
        p = point(rng, law, form, maxage, margin=1.6)
        if not p: continue
        x, s, t = p
        if form in 'Sl' and x + s + t < 1.6: continue
        c.note(at=(x, s, t))
        tol = dict(rel=1e-5, abs=1e-7)
        if form in ('S', 'l'):
            # skip where the force itself changes violently within one year
            if law.omega and law.omega - (x + s + t) < 4: continue
            if law.S(x, 0, s + t) < 1e-4: continue
            tol = dict(rel=2e-4, abs=1e-6)
        if law.S(x, 0, s + t) < 1e-3: tol = dict(rel=1e-3, abs=1e-6)
        c.value(f'mu_x.{form}', law.mu(x, s + t), obj.mu_x, x, s=s, t=t, **tol)
        c.value(f'f_x.{form}', law.f(x, s, t), obj.f_x, x, s=s, t=t, **tol)
        c.value(f'mu.{form}', law.mu(x, s + t), obj.mu, x, s + t, **tol)
        c.value(f'f.{form}', law.f(x, s, t), obj.f, x, s, t, **tol)
    p = point(rng, law, form, maxage, margin=6)
    if p and p[0] > 2:
        x, s, _ = p
        if law.S(x, 0, s) > 1e-3:
            c.value(f'mu_x.default.{form}', law.mu(x, s), obj.mu_x, x, s, rel=1e-3, abs=1e-6)
            c.value(f'f_x.default.{form}', law.f(x, s, 0), obj.f_x, x, s, rel=1e-3, abs=1e-6)


def relations(c, rng):
    obj, law, form, maxage, minage = build(c, rng)
    top = min(maxage, law.horizon(0, 1e-6))
    x = rng.randint(0, int(top * .7)); s = rng.choice([0, rng.randint(0, 3)])
    room = top - x - s - (form == 'mu' and law.omega is not None)
    if room < 4: raise Skip
    a = rng.choice([rng.uniform(0, room / 2), rng.randint(0, int(room / 2))]); b = rng.uniform(0, room / 2)
    n = rng.randint(2, min(12, int(room)))
    c.note(x=x, s=s, a=a, b=b, n=n)
    P = lambda t, s_=0: c.call('relations.p', obj.p_x, x, s=s + s_, t=t)
    if a == int(a):   # survival is multiplicative along duration since selection
        c.close(f'relations.chain.{form}', P(a) * P(b, int(a)), P(a + b), rel=1e-6, abs=1e-7)
    ps = [P(t) for t in sorted([0, a, b, a + b, room])]
    c.true(f'relations.monotone.{form}', all(p <= q + 1e-7 for q, p in zip(ps, ps[1:])) and abs(ps[0] - 1) < 1e-9 and ps[-1] > -1e-7, str(ps))
    tot = sum(c.call('relations.q', obj.q_x, x, s=s, u=k) for k in range(n))
    c.close(f'relations.sumq.{form}', tot, 1 - P(n), rel=1e-6, abs=1e-7)
    u = rng.randint(0, n); t = rng.uniform(0, room - n)
    c.close(f'relations.deferred.{form}', c.call('relations.q', obj.q_x, x, s=s, u=u, t=t),
            P(u) * c.call('relations.q', obj.q_x, x, s=s + u, t=t), rel=1e-6, abs=1e-7)


def lives(c, rng):
    obj, law, form, maxage, minage = build(c, rng)
    top = min(maxage, law.horizon(0, 1e-6), 130)
    x = rng.randint(minage, max(minage, int(top * .7))); s = rng.choice([0, rng.randint(0, 4)])
    if x + s + 1 > top: raise Skip
    c.note(x=x, s=s)
    if form == 'l':
        l = gens.supply(law, 'l')['l']
        w = l(x, s), l(x, s + 1)
    else:
        w = [100000. * law.S(minage, 0, x - minage) * law.S(x, 0, s + k) for k in (0, 1)]
    c.value(f'l_x.{form}', w[0], obj.l_x, x, s=s, rel=1e-6, abs=1e-3)
    c.value(f'd_x.{form}', w[0] - w[1], obj.d_x, x, s=s, rel=1e-5, abs=1e-2)
    if w[0] > 100:
        c.close(f'd_x=l_x*q_x.{form}', c.call('d_x', obj.d_x, x, s=s), c.call('l_x', obj.l_x, x, s=s) * c.call('q_x', obj.q_x, x, s=s), rel=1e-5, abs=1e-2)


def reject(c, rng):
    obj, law, form, maxage, minage = build(c, rng)
    x = rng.randint(1, 50); neg = -rng.randint(1, 30)
    c.note(neg=neg)
    for fn in ('p_x', 'q_x', 'l_x', 'd_x', 'f_x', 'mu_x'):
        c.raises(f'reject.age.{fn}', getattr(obj, fn), neg)
        c.raises(f'reject.duration.{fn}', getattr(obj, fn), x, s=neg)
    c.raises('reject.nothing', type(obj)().set_survival)


from vmon.core import Skip
def beyond(c, rng):
    """survival for longer than the years left to the oldest age of the model, where the law itself has no limiting age"""
    law = gens.smooth_law(rng)
    if law.omega is not None: raise Skip
    form = rng.choice(['S', 'l', 'f', 'mu'])
    x = rng.randint(5, 80); s = rng.choice([0, rng.randint(0, 5)])
    maxage = x + s + rng.randint(1, 12)
    c.note(law=law, form=form, maxage=maxage, x=x, s=s); c.dim(form=form, law=type(law).__name__)
    o = rng.choice(gens.GENERIC)()
    c.call('construct', o.set_survival, **gens.supply(law, form), minage=0, maxage=maxage)
    room = law.horizon(0, 1e-6) - x - s - 1
    if form == 'l' and not law.select: room = min(room, 130 - x - s)
    if room < 3: raise Skip
    for _ in range(2):
        t, u = rng.choice([rng.uniform(0, room), rng.randint(1, int(room))]), rng.randint(0, 3)
        c.dim(past=x + s + t > maxage)
        for f in (o.p_x,): c.value(f'beyond.p_x.{form}', law.S(x, s, t), f, x, s=s, t=t, rel=1e-6, abs=1e-7)
        c.value(f'beyond.q_x.{form}', 1 - law.S(x, s, t), o.q_x, x, s=s, t=t, rel=1e-6, abs=1e-7)
        if t + u <= room: c.value(f'beyond.deferred.{form}', law.S(x, s, u) - law.S(x, s, u + t), o.q_x, x, s=s, t=t, u=u, rel=1e-6, abs=1e-7)


GROUPS = [('beyond', beyond, 150, 3000), ('survival', survival, 900, 20000), ('force', force, 900, 20000), ('relations', relations, 600, 12000),
          ('lives', lives, 500, 10000), ('reject', reject, 100, 500)]
QUICK = 10      # scale of the quick tier
THOROUGH = 8      # scale of the thorough tier
