"""P05 fractional ages"""
import math
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip

RULE = ('A case draws an integer-age mortality basis (user-specified survival in several forms incl. select laws, life table, standard table, select table) '
        'with UDD or constant force, an age, select duration, fractional start, duration and deferral; distinct by all of these.')
ASSUMPTIONS = ['forces and densities are not compared exactly at integer ages where the assumption leaves them discontinuous',
               'constant force is not compared in a year in which death is certain (no finite constant force exists)']


class Frac:
    """lives [x]+s interpolated between integers"""

    def __init__(self, S, udd):
        self.S, self.udd = S, udd

    def l(self, y):
        k = math.floor(y); r = y - k
        a = self.S(k)
        if r == 0: return a
        b = self.S(k + 1)
        return a * (1 - r) + b * r if self.udd else a ** (1 - r) * b ** r

    def p(self, r, t): return self.l(r + t) / self.l(r)

    def q(self, r, t, u=0): return (self.l(r + u) - self.l(r + u + t)) / self.l(r)

    def mu(self, r):
        k = math.floor(r); g = r - k
        q = 1 - self.S(k + 1) / self.S(k)
        return q / (1 - g * q) if self.udd else -math.log(1 - q)

    def f(self, r, t): return self.p(r, t) * self.mu(r + t)

    def e(self, t):
        k = math.floor(t)
        tot = 0.
        for j in range(k + 1):
            g = 1. if j < k else t - k
            if not g: continue
            a, b = self.S(j), self.S(j + 1)
            if not a: break
            if self.udd: tot += a * g - (a - b) * g * g / 2
            else:
                m = -math.log(b / a)
                tot += a * (g if m < 1e-12 else -math.expm1(-m * g) / m)
        return tot


def select_model(rng, udd):
    q, n, lo, hi = gens.select_q(rng)
    o = SelectLife(udd=udd)
    if rng.random() < .5:
        o.set_table(q={x: [q[x][r] for r in range(n + 1)] for x in q})
    else:      # lives, rows linked through the ultimate column
        u, rows = 10000., {}
        for x in sorted(q):
            l = [u]
            for r in range(n - 1, -1, -1): l.insert(0, l[0] / (1 - q[x][r]))
            rows[x] = l
            u *= 1 - q[x][n]
        o.set_table(l=rows)
        m = Model(o, ref.SelectTable(q, n, lo, hi, udd=udd), hi, 'SelectLife-l', minage=lo, natural=False)
        return m, n
    return Model(o, ref.SelectTable(q, n, lo, hi, udd=udd), hi, 'SelectLife-q', minage=lo, natural=False), n


def draw(c, rng):
    udd = rng.random() < .55
    k = rng.choices(['generic', 'table', 'sult', 'select'], [4, 4, 1, 3])[0]
    n = 0
    if k == 'generic':
        m = gens.generic_model(rng, base=rng.choice([Fractional, Insurance, Premiums, Reserves]))
        m.obj.udd_ = udd
    elif k == 'table':
        m = gens.table_model(rng, udd=udd)
    elif k == 'sult':
        m = Model(SULT(udd=udd), gens.sult_law(udd=udd), 130, 'SULT', minage=20)
    else:
        m, n = select_model(rng, udd)
    c.dim(kind=m.kind, udd=udd)
    x, s = m.pick_age(rng, room=2)
    last = m.maxage - x - s        # integer years with a defined survival
    if k == 'select' : last = min(last, m.maxage - x - s)
    if k == 'generic': last = min(last, m.live_to() - x - s)
    if not udd and m.law.omega is not None and k != 'select' and (m.natural or k == 'generic'): last -= 1
    if last < 1: raise Skip
    c.note(model=m, x=x, s=s, udd=udd)
    m.law.udd = udd
    base = m.law
    S0 = base.S(x, 0, s) if k == 'select' else 1.
    F = Frac((lambda y: base.S(x, s, y)), udd)
    return m, x, s, last, F, k


def within(c, rng):
    m, x, s, last, F, k = draw(c, rng)
    o = m.obj
    nm = f"{k}.{'udd' if F.udd else 'cfm'}"
    tol = dict(rel=1e-6, abs=1e-6 if k in ('table', 'sult') else 1e-7)
    for _ in range(3):
        r = rng.choice([0., 0.5, rng.random(), rng.random(), rng.uniform(0, min(last - .01, 4))])
        room = last - r
        mode = rng.choice(['in', 'cross', 'whole', 'edge'])
        g = math.ceil(r + 1e-9) - r
        t = {'in': rng.uniform(0, min(g, room)), 'cross': rng.uniform(0, room), 'whole': float(rng.randint(0, int(room))), 'edge': min(g, room)}[mode]
        if F.l(r + t) < 1e-3: continue
        u = rng.choice([0., 0., rng.uniform(0, room - t) if room > t else 0.])
        c.note(r=r, t=t, u=u); c.dim(cross=r % 1 + t > 1, start='int' if r == 0 else 'frac')
        c.value(f'p_r.{nm}', F.p(r, t), o.p_r, x, s=s, r=r, t=t, **tol)
        c.value(f'q_r.{nm}', F.q(r, t), o.q_r, x, s=s, r=r, t=t, **tol)
        c.value(f'q_r.deferred.{nm}', F.q(r, t, u), o.q_r, x, s=s, r=r, t=t, u=u, **tol)
        a = c.call('l_r', o.l_r, x, s=s, r=r); b = c.call('l_r', o.l_r, x, s=s, r=r + t)
        c.close(f'l_r.{nm}', b / a, F.p(r, t), **tol)
        if 1e-4 < (r + t) % 1 < 1 - 1e-4:
            c.value(f'f_r.{nm}', F.f(r, t), o.f_r, x, s=s, r=r, t=t, **tol)
        if 1e-4 < r % 1 < 1 - 1e-4:
            c.value(f'mu_r.{nm}', F.mu(r), o.mu_r, x, s=s, r=r, **tol)
        if room > t:     # consecutive periods
            w = rng.uniform(0, room - t)
            if F.l(r + t) > 1e-2:
                c.close(f'p_r.chain.{nm}', c.call('p_r', o.p_r, x, s=s, r=r, t=t) * c.call('p_r', o.p_r, x, s=s, r=r + t, t=w), F.p(r, t + w), rel=1e-5, abs=1e-6)
        # the functional interface that integrals use (tables only): same lives and survival at non-integer durations
        if k in ('table', 'sult') and r + t + u < last:
            c.value(f'S.{nm}', F.p(0, t), o.S, x, s, t, **tol)
            if 1e-4 < t % 1 < 1 - 1e-4:
                c.value(f'f.{nm}', F.f(0, t), o.f, x, s, t, **tol)


def whole_years(c, rng):
    """fractional interface coincides with integer interface at integers; defaults"""
    m, x, s, last, F, k = draw(c, rng)
    o = m.obj
    t = rng.randint(0, last); j = rng.randint(0, last - t)
    c.note(t=t, j=j)
    tol = dict(rel=1e-9, abs=1e-12)
    C = lambda fn, *a, **kw: c.call('integer.' + fn, getattr(o, fn), *a, **kw)
    c.close(f'integer.l.{k}', C('l_r', x, s=s), C('l_x', x, s=s), **tol)
    c.close(f'integer.l2.{k}', C('l_r', x, s=s, r=float(t)), C('l_x', x, s=s + t), rel=1e-7, abs=1e-6)
    c.close(f'integer.p.{k}', C('p_r', x, s=s, t=t), C('p_x', x, s=s, t=t), rel=1e-6, abs=1e-8)
    c.close(f'integer.q.{k}', C('q_r', x, s=s, t=j, u=t), C('q_x', x, s=s, t=j, u=t), rel=1e-6, abs=1e-8)
    c.close(f'integer.mu.{k}', C('mu_r', x, s=s), C('mu_x', x, s=s), **tol) if k != 'select' and x + s > 2 else None
    c.close(f'integer.default-p.{k}', C('p_r', x, s), C('p_x', x, s), rel=1e-6, abs=1e-8)
    c.close(f'integer.default-q.{k}', C('q_r', x, s), C('q_x', x, s), rel=1e-6, abs=1e-8)
    i = gens.rate(rng)
    C('set_interest', **gens.interest_kw(rng, i))
    r = rng.choice([0., rng.random() * .9])
    tt = rng.uniform(0, last - r)
    if F.l(r) > 1e-4:
        c.value(f'E_r.{k}', F.p(r, tt) * (1 + i) ** -tt, o.E_r, x, s=s, r=r, t=tt, rel=1e-6, abs=1e-7)


def expectation(c, rng):
    m, x, s, last, F, k = draw(c, rng)
    o = m.obj
    nm = f"{k}.{'udd' if F.udd else 'cfm'}"
    for t in (rng.uniform(0, 1), 1, 1., rng.uniform(0, min(last, 60)), rng.randint(1, min(last, 60))):
        if t > last: continue
        c.note(t=t)
        c.value(f'e_r.{nm}', F.e(t), o.e_r, x, s=s, t=t, rel=3e-6, abs=3e-6)
    c.value(f'e_r.zero.{nm}', 0, o.e_r, x, s=s, t=0)
    if k == 'sult' or (k == 'table' and m.natural):
        n = m.maxage - x - s
        if F.udd: c.value(f'e_r.whole.{nm}', F.e(n), o.e_r, x, s=s, rel=1e-6, abs=1e-6)
    if k == 'generic' and (F.udd or m.law.omega is None):
        c.value(f'e_r.whole.{nm}', F.e(m.maxage - x - s), o.e_r, x, s=s, rel=1e-5, abs=1e-6)


def approximate(c, rng):
    e = rng.choice([0., 0, .5, rng.uniform(0, 2), rng.uniform(0.5, 90), rng.uniform(0.5, 90), rng.uniform(0.5, 90)])
    c.note(e=e)
    f = Fractional.e_approximate
    for var, h in ((False, .5), (True, 1 / 12)):
        cur = c.value('approx.curtate', e - h, f, e_complete=e, variance=var)
        com = c.value('approx.complete', e + h, f, e_curtate=e, variance=var)
        c.value('approx.inverse', e, f, e_curtate=c.call('approx', f, e_complete=e, variance=var), variance=var)
    c.value('approx.default', e - .5, f, e)
    c.raises('approx.none', f)
    c.raises('approx.both', f, e_complete=e, e_curtate=e)


def heavy(c, rng):
    """years in which almost everybody, or almost nobody, dies"""
    udd = rng.random() < .5
    x = rng.randint(0, 90); n = rng.randint(2, 6)
    q = [rng.choice([1 - 10 ** -rng.uniform(.5, 4.5), rng.uniform(.5, .99), 10 ** -rng.uniform(1, 6), 0.]) for _ in range(n)]
    S = [1.]
    for a in q: S.append(S[-1] * (1 - a))
    R = 10. ** rng.randint(3, 7)
    o = rng.choice([Fractional, Insurance, Reserves])(udd=udd).set_survival(l=lambda y, s: R * S[int(y + s - x)], minage=x, maxage=x + n)
    F = Frac((lambda y: S[y]), udd)
    j = rng.choice([0, rng.randint(0, n - 1)]); a = rng.randint(0, j)      # age x+a, a duration that reaches year j
    F = Frac((lambda y: S[a + y] / S[a]), udd)
    s = rng.randint(0, a); r = j - a + rng.uniform(.01, .99)
    t = rng.uniform(0, n - a - r)
    nm = 'heavy.' + ('udd' if udd else 'cfm')
    c.note(q=q, x=x + a - s, s=s, r=r, t=t, udd=udd); c.dim(kind='heavy', udd=udd, q=f'{1 - q[j]:.0e}')
    tol = dict(rel=1e-6, abs=1e-12 * R)
    kw = dict(x=x + a - s, s=s, r=r)
    c.value(f'mu_r.{nm}', F.mu(r), o.mu_r, **kw, rel=1e-6, abs=1e-9)
    c.value(f'l_r.{nm}', R * S[a] * F.l(r), o.l_r, **kw, **tol)
    c.value(f'p_r.{nm}', F.p(r, t), o.p_r, t=t, **kw, rel=1e-6, abs=1e-9)
    c.value(f'q_r.{nm}', F.q(r, t), o.q_r, t=t, **kw, rel=1e-6, abs=1e-9)
    g = j - a + 1 - r
    t = rng.uniform(0, g) * .99
    c.value(f'p_r.within.{nm}', F.p(r, t), o.p_r, t=t, **kw, rel=1e-6, abs=1e-9)
    c.value(f'f_r.{nm}', F.f(r, t), o.f_r, t=t, **kw, rel=1e-6, abs=1e-9)


def reject(c, rng):
    m, x, s, last, F, k = draw(c, rng)
    for fn in ('l_r', 'p_r', 'q_r', 'mu_r', 'f_r', 'E_r'):
        g = getattr(m.obj, fn)
        bad = rng.choice([dict(x=-rng.randint(1, 9)), dict(x=x, s=-rng.randint(1, 9)), dict(x=x, r=-rng.random())])
        c.note(fn=fn, bad=bad)
        c.raises(f'reject.{fn}', g, **bad)
        if fn in ('p_r', 'q_r', 'f_r', 'E_r'): c.raises(f'reject.{fn}.t', g, x, t=-rng.random())


GROUPS = [('within', within, 900, 16000), ('whole_years', whole_years, 500, 8000), ('expectation', expectation, 500, 8000),
          ('approximate', approximate, 50, 500), ('heavy', heavy, 100, 2000), ('reject', reject, 60, 400)]
QUICK = 10      # scale of the quick tier
THOROUGH = 20      # scale of the thorough tier
