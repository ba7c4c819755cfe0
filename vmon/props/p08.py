"""P08 named mortality laws"""
import math
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip
from vmon.products import Val
from vmon.props.p06 import terms, amount
from vmon.props.p07 import dtol, vtol

RULE = ('A case draws a named law with random parameters, an age, select duration, fractional start, terms, amounts and an interest rate, and compares every form, fractional-age '
        'quantity, expectation, insurance and annuity with the defining force of mortality (closed form, enumeration or quadrature) and with a generic library model given only that law; '
        'distinct by law, parameters and query point.')
ASSUMPTIONS = ['whole-life sums of the laws without a limiting age are taken to the library\'s age limit of 1000']
KINDS = ('CF', 'Uniform', 'Beta', 'Gompertz', 'Makeham')


def draw(c, rng, kinds=KINDS):
    m = gens.law_model(rng, kinds)
    x, s = m.pick_age(rng)
    top = m.maxage if m.law.omega is not None else min(m.live_to(), 400)
    c.note(model=m, x=x, s=s); c.dim(law=m.kind, s=min(s, 2))
    return m, x, s, top - x - s


def forms(c, rng):
    m, x, s, room = draw(c, rng)
    o, law, k = m.obj, m.law, m.kind
    for _ in range(3):
        r = rng.choice([0, 0, rng.random()])
        t = rng.choice([0, 1, rng.uniform(0, room - r - .01), rng.randint(0, int(room) - 1)])
        if r + t >= room: continue
        u = rng.choice([0, rng.uniform(0, room - r - t - .01)]) if room - r - t > .02 else 0
        y = s + r
        c.note(r=r, t=t, u=u)
        tol = dict(rel=1e-9, abs=1e-12)
        S = law.S
        if r == 0:
            c.value(f'S.{k}', S(x, s, t), o.S, x, s, t, **tol)
            c.value(f'p_x.{k}', S(x, s, t), o.p_x, x, s=s, t=t, **tol)
            c.value(f'q_x.{k}', S(x, s, u) - S(x, s, u + t), o.q_x, x, s=s, t=t, u=u, rel=1e-9, abs=1e-12)
            c.value(f'mu_x.{k}', law.mu(x, s + t), o.mu_x, x, s=s, t=t, **tol)
            ftol = tol if k in ('Uniform', 'Beta') else dict(rel=2e-4, abs=1e-6)    # numerical differentiation
            if law.omega is not None or x + s + t >= 1.5:
                if k in ('Uniform', 'Beta') or S(x, 0, s + t) > 1e-4:
                    c.value(f'f_x.{k}', law.f(x, s, t), o.f_x, x, s=s, t=t, **ftol)
        c.value(f'p_r.{k}', S(x, y, t), o.p_r, x, s=s, r=r, t=t, **tol)
        c.value(f'q_r.{k}', S(x, y, u) - S(x, y, u + t), o.q_r, x, s=s, r=r, t=t, u=u, **tol)
        c.value(f'mu_r.{k}', law.mu(x, y), o.mu_r, x, s=s, r=r, **tol)
        if k in ('Uniform', 'Beta'): c.value(f'f_r.{k}', law.f(x, y, t), o.f_r, x, s=s, r=r, t=t, **tol)
        a, b = c.call('l_r', o.l_r, x, s=s, r=r), c.call('l_r', o.l_r, x, s=s, r=r + t)
        if abs(a) > 1e-3: c.close(f'l_r.{k}', b / a, S(x, y, t), rel=1e-6, abs=1e-9)
        if r == 0: c.close(f'l_x.{k}', c.call('l_x', o.l_x, x, s=s), a, rel=1e-9)
    n = rng.randint(1, max(1, int(room) - 1))
    if s + 1 < n and abs(c.call('l_x', o.l_x, x, s=s)) > 1e-3:
        c.close(f'd_x.{k}', c.call('d_x', o.d_x, x, s=s) / c.call('l_x', o.l_x, x, s=s), law.q(x, s), rel=1e-6, abs=1e-9)
    if law.omega is not None:
        w = law.omega - x - s + rng.choice([0, 1, rng.uniform(0, 20), rng.randint(1, 30)])
        c.value(f'beyond.p.{k}', 0., o.p_x, x, s=s, t=w)
        c.value(f'beyond.q.{k}', 1., o.q_x, x, s=s, t=w)
        c.value(f'beyond.p_r.{k}', 0., o.p_r, x, s=s, t=w)


def edges(c, rng):
    """no time at all, and ages at or past the limiting age"""
    m, x, s, room = draw(c, rng)
    o, law, k = m.obj, m.law, m.kind
    for mom in (1, 2, -2):
        for cu in (True, False): c.value(f'e.0.{k}', 0., o.e_x, x, s=s, t=0, curtate=cu, moment=mom)
    c.value(f'e_r.0.{k}', 0., o.e_r, x, s=s, t=0, abs=1e-9)
    c.value(f'p.0.{k}', 1., o.p_x, x, s=s, t=0); c.value(f'q.0.{k}', 0., o.q_x, x, s=s, t=0); c.value(f'p_r.0.{k}', 1., o.p_r, x, s=s, t=0)
    if law.omega is None: return
    over = rng.choice([0, 0, 1, rng.randint(1, 20)])
    s = rng.choice([0, 0, rng.randint(0, min(5, law.omega))]); x = law.omega - s + over
    t = rng.choice([1, rng.randint(1, 9), rng.uniform(.01, 5)])
    c.note(over=over, x_end=x, s_end=s, t_end=t); c.dim(over=min(over, 2))
    c.value(f'end.S.{k}', 0., o.S, x, s, t); c.value(f'end.S0.{k}', 1., o.S, x, s, 0)
    c.value(f'end.p.{k}', 0., o.p_x, x, s=s, t=t); c.value(f'end.p0.{k}', 1., o.p_x, x, s=s, t=0)
    c.value(f'end.q.{k}', 1., o.q_x, x, s=s, t=t); c.value(f'end.q0.{k}', 0., o.q_x, x, s=s, t=0)
    c.value(f'end.p_r.{k}', 0., o.p_r, x, s=s, t=t)
    c.value(f'end.q.deferred.{k}', 0., o.q_x, x, s=s, u=rng.randint(1, 3), t=t)
    c.value(f'end.l.{k}', 0., o.l_x, x, s=s)


def lifetimes(c, rng):
    m, x, s, room = draw(c, rng)
    o, law, k = m.obj, m.law, m.kind
    S = m.S(x, s)
    N = m.maxage - x - s
    t = rng.choice([-999, 1, rng.randint(1, max(1, int(room))), rng.uniform(0.1, room)])
    n = N if t < 0 else t
    c.note(t=t); c.dim(t='whole' if t < 0 else 'limited')
    br = [n - 2. ** -j for j in range(1, 24)]
    e1 = ref.quad(S, 0, n, breaks=br)
    e2 = ref.quad(lambda t: 2 * t * S(t), 0, n, breaks=br)
    kw = {} if t < 0 and rng.random() < .5 else dict(t=t)
    nm = f"{k}.{'whole' if t < 0 else 'limited'}"
    c.value(f'e.{nm}', e1, o.e_x, x, s=s, curtate=False, **kw, rel=1e-5, abs=1e-6)
    if k in ('CF', 'Uniform', 'Beta'): c.value(f'e.default.{nm}', e1, o.e_x, x, s=s, **kw, rel=1e-5, abs=1e-6)
    c.value(f'e2.{nm}', e2, o.e_x, x, s=s, curtate=False, moment=2, **kw, rel=2e-5, abs=1e-4)
    c.value(f'e.var.{nm}', e2 - e1 * e1, o.e_x, x, s=s, curtate=False, moment=-2, **kw, rel=1e-4, abs=3e-5 * (1 + e2))
    if law.omega is not None:      # limited beyond the limiting age: the whole lifetime
        w = N + rng.choice([0, 1, rng.randint(1, 20), rng.uniform(0, 9)])
        W1 = ref.quad(S, 0, N, breaks=[N - 2. ** -j for j in range(1, 24)])
        c.value(f'e.beyond.{k}', W1, o.e_x, x, s=s, t=w, curtate=False, rel=1e-5, abs=1e-6)
        c.value(f'e_r.beyond.{k}', W1, o.e_r, x, s=s, t=w, rel=1e-5, abs=1e-6)
    c.value(f'e_r.{nm}', e1, o.e_r, x, s=s, **kw, rel=1e-5, abs=1e-6)
    if k not in ('Uniform', 'Beta'):
        r = rng.random()
        if n > 1:
            R = lambda y: law.S(x, s + r, y)
            w = n - r if t < 0 else t
            if t > 0 and r + t > room: return
            c.value(f'e_r.frac.{nm}', ref.quad(R, 0, w), o.e_r, x, s=s, r=r, **kw, rel=1e-5, abs=1e-6)


def products(c, rng):
    m, x, s, room = draw(c, rng)
    o, law, k = m.obj, m.law, m.kind
    disc = rng.random() < .4
    i = gens.rate(rng)
    c.call('set_interest', o.set_interest, **gens.interest_kw(rng, i))
    v = Val(m, x, s, i)
    t, u, n = terms(rng, m, v)
    b, e = amount(rng), rng.choice([None, amount(rng)])
    c.note(i=i, disc=disc, t=t, u=u, n=n, b=b, e=e); c.dim(disc=disc, zero=i == 0)
    tol = dict(rel=1e-6, abs=1e-6) if disc else dict(rel=2e-5, abs=1e-6)
    B = lambda p=1: dict(rel=tol['rel'], abs=tol['abs'] * max(b, e or 0) ** p)
    nm = f"{k}.{'d' if disc else 'c'}{'' if i else '.i0'}"
    for mom in (1, 2):
        c.value(f'whole{mom}.{nm}', v.ins(b=b, mom=mom, disc=disc), o.whole_life_insurance, x, s=s, b=b, moment=mom, discrete=disc, **B(mom))
        c.value(f'term{mom}.{nm}', v.ins(t, b=b, mom=mom, disc=disc), o.term_insurance, x, s=s, t=t, b=b, moment=mom, discrete=disc, **B(mom))
        c.value(f'deferred{mom}.{nm}', v.ins(n, u=u, b=b, mom=mom, disc=disc), o.deferred_insurance, x, s=s, u=u, t=n, b=b, moment=mom, discrete=disc, **B(mom))
        c.value(f'endowment{mom}.{nm}', v.endow(t, b, e, mom, disc), o.endowment_insurance, x, s=s, t=t, b=b, moment=mom, discrete=disc, **({} if e is None else dict(endowment=e)), **B(mom))
        c.value(f'E{mom}.{nm}', v.E(t, b, mom), o.E_x, x, s=s, t=t, endowment=b, moment=mom, **B(mom))
    p = v.E(t) / v.v(t)
    c.value(f'E.var.{nm}', (b * v.v(t)) ** 2 * p * (1 - p), o.E_x, x, s=s, t=t, endowment=b, moment=-2, rel=1e-6, abs=1e-9 * b * b)
    m1, m2 = v.ins(b=b, disc=disc), v.ins(b=b, mom=2, disc=disc)
    V = dict(rel=1e-4, abs=(tol['abs'] + 3 * tol['rel']) * b * b)
    c.value(f'whole.var.{nm}', max(0, m2 - m1 ** 2), o.whole_life_insurance, x, s=s, b=b, moment=-2, discrete=disc, **V)
    m1, m2 = v.ins(t, b=b, disc=disc), v.ins(t, b=b, mom=2, disc=disc)
    c.value(f'term.var.{nm}', max(0, m2 - m1 ** 2), o.term_insurance, x, s=s, t=t, b=b, moment=-2, discrete=disc, **V)
    A = dtol(i, disc, tol); A = dict(rel=A['rel'], abs=A['abs'] * b)
    W = vtol(i, disc, tol, v); W = dict(rel=W['rel'], abs=W['abs'] * b * b)
    c.value(f'annuity.whole.{nm}', v.ann(b=b, disc=disc), o.whole_life_annuity, x, s=s, b=b, discrete=disc, **A)
    c.value(f'annuity.temporary.{nm}', v.ann(t, b=b, disc=disc), o.temporary_annuity, x, s=s, t=t, b=b, discrete=disc, **A)
    c.value(f'annuity.deferred.{nm}', v.ann(n, u=u, b=b, disc=disc), o.deferred_annuity, x, s=s, u=u, t=n, b=b, discrete=disc, **A)
    c.value(f'annuity.whole.var.{nm}', v.ann_var(b=b, disc=disc), o.whole_life_annuity, x, s=s, b=b, variance=True, discrete=disc, **W)
    c.value(f'annuity.temporary.var.{nm}', v.ann_var(t, b=b, disc=disc), o.temporary_annuity, x, s=s, t=t, b=b, variance=True, discrete=disc, **W)


def past_limit(c, rng):
    """constant force has no limiting age: continuous values are those of the force whatever the oldest age of the model"""
    mu, dl = rng.uniform(.005, .12), rng.uniform(.002, .1)
    o = ConstantForce(mu=mu)
    if rng.random() < .6: o._MAXAGE = rng.choice([100, 120, 80])
    c.call('set_interest', o.set_interest, delta=dl)
    x = rng.randint(0, 95); s = rng.choice([0, rng.randint(0, 5)]); b = amount(rng)
    t = rng.choice([rng.randint(1, 40), o._MAXAGE - x - s if o._MAXAGE > x + s else 5, rng.uniform(.1, 60), rng.randint(50, 90)]); mom = rng.choice([1, 2])
    k = mu + mom * dl
    c.note(mu=mu, delta=dl, x=x, s=s, t=t, b=b, mom=mom, maxage=o._MAXAGE); c.dim(past=x + s + t > o._MAXAGE)
    c.value('past.term', b ** mom * mu / k * -math.expm1(-k * t), o.term_insurance, x, s=s, t=t, b=b, moment=mom, discrete=False, rel=1e-9)
    c.value('past.whole', b ** mom * mu / k, o.whole_life_insurance, x, s=s, b=b, moment=mom, discrete=False, rel=1e-9)
    c.value('past.E', b ** mom * math.exp(-k * t), o.E_x, x, s=s, t=t, endowment=b, moment=mom, rel=1e-9)
    k = mu + dl
    c.value('past.annuity', b / k, o.whole_life_annuity, x, s=s, b=b, discrete=False, rel=1e-9)
    c.value('past.temporary', b / k * -math.expm1(-k * t), o.temporary_annuity, x, s=s, t=t, b=b, discrete=False, rel=1e-9)
    c.value('past.e', -math.expm1(-mu * t) / mu, o.e_x, x, s=s, t=t, rel=1e-9)
    c.value('past.p', math.exp(-mu * t), o.p_x, x, s=s, t=t, rel=1e-9)


def generic_twin(c, rng):
    """the law against a generic library model given only its survival function, and against its special-case twin"""
    m, x, s, room = draw(c, rng)
    law, k = m.law, m.kind
    if k == 'Beta' and law.alpha < 1: raise Skip
    i = gens.rate(rng, zero=False)
    g = Reserves().set_survival(S=lambda x, s, t: law.S(x, s, t), maxage=m.maxage).set_interest(i=i)
    o = m.obj.set_interest(i=i)
    others = [('generic', g)]
    if k == 'Uniform': others.append(('Beta1', Beta(omega=law.omega, alpha=1).set_interest(i=i)))
    if k == 'Gompertz': others.append(('Makeham0', Makeham(A=0, B=law.B, c=law.c).set_interest(i=i)))
    n = rng.randint(1, max(1, min(int(room) - 1, 50))); u = rng.randint(0, max(0, int(room) - 1 - n))
    b = amount(rng)
    c.note(i=i, n=n, u=u, b=b)
    q = [('p_x', dict(t=n)), ('q_x', dict(t=n, u=u)), ('e_x', dict(curtate=True)), ('e_x', dict(curtate=True, t=n)), ('e_x', dict(curtate=True, t=n, moment=2)),
         ('whole_life_insurance', dict(b=b)), ('term_insurance', dict(t=n, b=b, discrete=True)), ('endowment_insurance', dict(t=n, b=b)), ('deferred_insurance', dict(u=u, t=n, b=b)),
         ('increasing_insurance', dict(t=n, b=b)), ('decreasing_insurance', dict(t=n, b=b)), ('whole_life_annuity', dict(b=b)), ('temporary_annuity', dict(t=n, b=b)),
         ('deferred_annuity', dict(u=u, t=n, b=b)), ('certain_life_annuity', dict(u=u, t=n, b=b)), ('immediate_annuity', dict(t=n, b=b)),
         ('increasing_annuity', dict(t=n, b=b)), ('decreasing_annuity', dict(t=n, b=b)), ('E_x', dict(t=n)),
         ('whole_life_annuity', dict(variance=True)), ('temporary_annuity', dict(t=n, variance=True)), ('net_premium', dict(t=n, b=b)), ('net_premium', dict())]
    for fn, kw in rng.sample(q, 6):
        a = c.call(f'twin.{k}.{fn}', getattr(o, fn), x, s=s, **kw)
        for name, h in others:
            w = c.call(f'twin.{name}.{fn}', getattr(h, fn), x, s=s, **kw)
            c.close(f'twin.{k}={name}.{fn}', a, w, rel=1e-6, abs=1e-6 * b * n * 10)
    if len(others) > 1:
        h = others[1][1]
        t = rng.uniform(0, room - .1)
        for fn, kw in [('mu_x', dict(t=t)), ('f_x', dict(t=t)), ('e_r', dict(t=t)), ('l_x', {}), ('whole_life_insurance', dict(discrete=False)), ('term_insurance', dict(t=n, discrete=False)),
                       ('temporary_annuity', dict(t=n, discrete=False)), ('e_x', dict(curtate=False)), ('e_x', dict(curtate=False, moment=-2))]:
            a = c.call(f'special.{fn}', getattr(o, fn), x, s=s, **kw); w = c.call(f'special.{fn}', getattr(h, fn), x, s=s, **kw)
            c.close(f'special.{k}.{fn}', a, w, rel=2e-5, abs=1e-6)


def reject(c, rng):
    c.note(k=rng.random())
    c.raises('reject.c', Makeham, A=.001, B=.0001, c=rng.uniform(0, 1))
    c.raises('reject.B', Makeham, A=.001, B=-rng.random(), c=1.1)
    c.raises('reject.A', Makeham, A=-.001 - rng.random(), B=.0001, c=1.1)
    c.raises('reject.gompertz', Gompertz, B=.0001, c=rng.uniform(0, 1))
    c.raises('reject.udd', Uniform, omega=100, udd=True)


THOROUGH = 5      # scale of the thorough tier
GROUPS = [('forms', forms, 700, 12000), ('edges', edges, 300, 4000), ('lifetimes', lifetimes, 500, 6000), ('products', products, 350, 5000), ('generic_twin', generic_twin, 250, 4000), ('past_limit', past_limit, 100, 2000), ('reject', reject, 20, 100)]
