"""Random models: (library object, reference law, interest) triples."""
import math
import actuarialmath as am
from actuarialmath import (Survival, Lifetime, Fractional, Insurance, Annuity, Premiums, PolicyValues, Reserves,
                           MortalityLaws, Beta, Uniform, Makeham, Gompertz, ConstantForce, LifeTable, SelectLife, SULT)
from vmon import ref


def rate(rng, zero=True):
    r = rng.random()
    if zero and r < 0.08: return 0.0
    if r < 0.16: return rng.uniform(0.0005, 0.005)
    if r < 0.24: return rng.uniform(0.15, 0.4)
    return rng.uniform(0.01, 0.12)


def interest_kw(rng, i):
    """the same constant rate in a random form"""
    f = rng.choice(['i', 'i', 'd', 'v', 'delta', 'i_m', 'd_m'])
    m = rng.choice([2, 4, 12])
    dl = math.log1p(i)
    return {'i': dict(i=i), 'd': dict(d=i / (1 + i)), 'v': dict(v=1 / (1 + i)), 'delta': dict(delta=dl),
            'i_m': dict(i_m=m * math.expm1(dl / m), m=m), 'd_m': dict(d_m=-m * math.expm1(-dl / m), m=m)}[f]


def smooth_law(rng, select=None, young=False):
    """law whose force is smooth away from the limiting age"""
    k = rng.random()
    if select is None:
        select = rng.random() < .3
    if select:
        return ref.Makeham(A=rng.uniform(0, .01), B=10 ** rng.uniform(-5, -3.7), c=rng.uniform(1.06, 1.13),
                           D=rng.uniform(.002, .05), k=rng.uniform(.2, 1.2))
    if k < .15:
        return ref.Makeham(A=rng.uniform(.02, .1))
    if k < .35:
        return ref.Makeham(B=10 ** rng.uniform(-5, -3.5), c=rng.uniform(1.07, 1.13))
    if k < .55:
        return ref.Makeham(A=rng.uniform(0, .02), B=10 ** rng.uniform(-5, -3.5), c=rng.uniform(1.07, 1.13))
    if k < .75:
        return ref.Beta(omega=rng.randint(60, 120), alpha=rng.choice([1., 2., rng.uniform(1., 4.)]))
    return ref.Weibull(a=10 ** rng.uniform(-4.2, -3.3), p=rng.uniform(1., 2.))


def supply(law, form):
    """keyword for set_survival giving this law in the chosen form, as a user would write it"""
    om = law.omega
    if form == 'S':
        return dict(S=lambda x, s, t: law.S(x, s, t))
    if form == 'f':
        return dict(f=lambda x, s, t: law.f(x, s, t) if om is None or x + s + t < om else 0.)
    if form == 'mu':
        return dict(mu=lambda x, t: law.mu(x, t))
    if form == 'l':
        if law.select:
            return dict(l=lambda x, s: 1000. * math.exp(-law.H(x, s)))
        return dict(l=lambda x, s: 0. if om is not None and x + s >= om else 54321. * math.exp(-law.H(0, x + s)))
    raise ValueError(form)


GENERIC = [Survival, Lifetime, Fractional, Insurance, Annuity, Premiums, PolicyValues, Reserves]


def maxage_for(law, eps=1e-10, cap=2000):
    if law.omega is not None:
        return law.omega
    t = 10
    while law.S(0, 0, t) > eps and t < cap:
        t += 5
    return t


def age(rng, law, maxage, frac=.7):
    hi = int(maxage * frac)
    return rng.choice([0, rng.randint(0, hi), rng.randint(0, hi), rng.randint(hi // 3, hi)])


class Model:
    """a library object together with the law it is supposed to represent"""

    def __init__(self, obj, law, maxage, kind, minage=0, natural=True, cls=None):
        self.obj, self.law, self.maxage, self.kind, self.minage, self.natural = obj, law, maxage, kind, minage, natural
        self.cls = cls or type(obj).__name__

    def __repr__(self):
        return f'{self.kind}/{self.cls}[{self.law!r}, ages {self.minage}..{self.maxage}]'

    def pick_age(self, rng, room=2, smax=4):
        """x, s with at least `room` years left before the last age"""
        hi = self.maxage - room
        top = hi
        if self.law.omega is None or isinstance(self.law, ref.Table):
            top = min(hi, self.live_to() - room, 150)
        x = rng.randint(self.minage, max(self.minage, top))
        if rng.random() < .25: x = rng.randint(self.minage, min(max(self.minage, top), self.minage + 3))
        s = rng.choice([0, 0, rng.randint(0, smax)])
        if x + s > top: s = max(0, top - x)
        return x, s

    def live_to(self):
        """age by which survival from the minimum age is below 1e-5"""
        t = 1
        while t < 1000 and self.law.S(self.minage, 0, t) > 1e-5 and self.minage + t < self.maxage:
            t += 1
        return self.minage + t

    def S(self, x, s):
        return lambda t: self.law.S(x, s, t) if x + s + t <= self.maxage else 0.

    def f(self, x, s):
        return lambda t: self.law.f(x, s, t)


def gompertz_q(rng, n, a0):
    B, c = 10 ** rng.uniform(-4.3, -3), rng.uniform(1.06, 1.12)
    return [min(.6, 1 - math.exp(-B * c ** (a0 + k) * (c - 1) / math.log(c))) for k in range(n)]


def table_model(rng, udd=None, natural=None, cls=LifeTable, short=False, form=None):
    udd = rng.random() < .7 if udd is None else udd
    natural = rng.random() < .8 if natural is None else natural
    if not udd: natural = False     # certain death within the year is not a constant force
    a0 = rng.choice([0, 20, rng.randint(0, 60)])
    n = rng.randint(4, 12) if short else rng.randint(6, 70)
    if rng.random() < .3 or n < 15:
        q = [rng.uniform(.001, .35) for _ in range(n)]
    else:
        q = gompertz_q(rng, n, a0)
    if rng.random() < .08:      # very heavy mortality over a few years
        n = rng.randint(3, 6)
        q = [rng.choice([rng.uniform(.3, .97), rng.uniform(.01, .3)]) for _ in range(n)]
    q = [max(1e-6, round(v, rng.choice([3, 6]))) for v in q]
    if natural: q[-1] = 1.0
    form = form or rng.choice(['q', 'q', 'p', 'l'])
    obj = cls(udd=udd)
    if form == 'q':
        obj.set_table(q={a0 + k: v for k, v in enumerate(q)})
        p = {a0 + k: 1 - v for k, v in enumerate(q)}
    elif form == 'p':
        p = {a0 + k: round(1 - v, 6) for k, v in enumerate(q)}
        obj.set_table(p=dict(p))
    else:
        L = [rng.choice([100000., 1000., 9876.5])]
        for v in q:
            L.append(round(L[-1] * (1 - v), 4))
        L = [v for v in L]
        while len(L) > 2 and (L[-2] <= 1e-2 or L[-3] <= 1e-2):    # keep a usable table
            L.pop(-2) if natural else L.pop()
        n = len(L) - 1
        p = {a0 + k: L[k + 1] / L[k] for k in range(n)}
        if form == 'l':
            obj.set_table(l={a0 + k: v for k, v in enumerate(L)}, maxage=a0 + n)
        else:
            obj.set_table(l={a0: L[0]}, d={a0 + k: L[k] - L[k + 1] for k in range(n)})
    law = ref.Table(a0, p, udd=udd)
    m = Model(obj, law, a0 + len(p), 'LifeTable-' + form + ('-udd' if udd else '-cfm'), minage=a0, natural=natural)
    return m


def select_q(rng, periods=None, n=None):
    periods = rng.randint(1, 3) if periods is None else periods
    n = n or rng.randint(4, 14)
    x0 = rng.choice([0, 20, 50, rng.randint(1, 70)])
    base = [rng.uniform(.01, .05)]
    for _ in range(n + periods):
        base.append(min(.45, base[-1] * rng.uniform(1.01, 1.12)))
    red = [1.0] * (periods + 1)
    f = rng.uniform(.5, .8)
    for r in range(periods):
        red[r] = f + (1 - f) * r / periods
    q = {x0 + k: {r: round(base[k + r] * red[r], 6) for r in range(periods + 1)} for k in range(n)}
    return q, periods, x0, x0 + n - 1


def law_model(rng, kinds=('CF', 'Uniform', 'Beta', 'Gompertz', 'Makeham')):
    k = rng.choice(kinds)
    if k == 'CF':
        mu = rng.choice([rng.uniform(.015, .15), rng.uniform(.02, .06)])
        return Model(ConstantForce(mu=mu), ref.Makeham(A=mu), 1000, k)
    if k == 'Uniform':
        w = rng.randint(40, 120)
        return Model(Uniform(omega=w), ref.Beta(w, 1.), w, k)
    if k == 'Beta':
        w = rng.randint(40, 120); a = rng.choice([1, 2, rng.uniform(.3, 1), rng.uniform(1, 4)])
        return Model(Beta(omega=w, alpha=a), ref.Beta(w, a), w, k)
    B, c = 10 ** rng.uniform(-5.5, -3.5), rng.uniform(1.06, 1.14)
    if k == 'Gompertz':
        return Model(Gompertz(B=B, c=c), ref.Makeham(B=B, c=c), 1000, k)
    A = rng.choice([rng.uniform(0, .02), 0.0002])
    return Model(Makeham(A=A, B=B, c=c), ref.Makeham(A=A, B=B, c=c), 1000, k)


def generic_model(rng, base=None, forms=('S', 'S', 'mu', 'l'), select=None, cut=False):
    law = smooth_law(rng, select=select)
    form = rng.choice(forms)
    maxage = maxage_for(law, eps=1e-12)
    cls = base or rng.choice([Premiums, PolicyValues, Reserves])
    if form == 'mu' and law.omega: form = 'S'
    if form == 'l' and law.omega is None and not law.select and maxage > 400: form = 'S'
    if cut: maxage = max(30, int(maxage * rng.uniform(.3, .8)))     # the oldest age ends all benefits although some survive it
    obj = cls().set_survival(**supply(law, form), maxage=maxage)
    return Model(obj, law, maxage, 'generic-' + form + ('-select' if law.select else '') + ('-cut' if cut else ''), natural=not cut)


_sult_law = ref.Makeham(A=0.00022, B=0.0000027, c=1.124)


def sult_law(minage=20, maxage=130, udd=True):
    L = [math.exp(-_sult_law.H(minage, t)) for t in range(maxage - minage + 1)]
    t = ref.Table(minage, {minage + k: L[k + 1] / L[k] for k in range(maxage - minage)}, udd=udd)
    return t


def sult_model(rng):
    udd = rng.random() < .8
    o = SULT(udd=udd)
    return Model(o, sult_law(udd=udd), 130, 'SULT' + ('-udd' if udd else '-cfm'), minage=20)


def any_model(rng, weights=None, continuous=False):
    w = weights or dict(generic=4, law=4, table=4, sult=1)
    k = rng.choices(list(w), list(w.values()))[0]
    if k == 'generic': return generic_model(rng)
    if k == 'law': return law_model(rng)
    if k == 'table': return table_model(rng)
    return sult_model(rng)
