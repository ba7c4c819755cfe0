"""P18 extra mortality risk"""
import math
from actuarialmath import ExtraRisk, LifeTable, SelectLife
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip

RULE = ('A case draws a standard mortality basis of any kind (parametric law, user-specified survival, life table, select table, standard ultimate table), one or several overlays of every kind and size (neutral ones included) on that same life, '
        'and compares one-year probabilities at many ages and select durations, and the columns of adjusted rates, with the adjustment computed from the reference law; then builds life and select tables from the columns. '
        'Distinct by basis, overlays and ages.')
ASSUMPTIONS = ['years of age rating are whole', 'multiplying a mortality rate cannot take it above certainty', 'tables built from adjusted rates are compared while enough lives remain for the seven decimals kept']
KINDS = ['', 'ADD_FORCE', 'MULTIPLY_FORCE', 'ADD_AGE', 'MULTIPLY_RATE']


def size(rng, kind, neutral=False):
    if kind == '': return rng.choice([0, 0., 1.5])
    if kind == 'ADD_FORCE': return 0 if neutral else rng.choice([rng.uniform(.0005, .1), rng.uniform(.1, 2)])
    if kind in ('MULTIPLY_FORCE', 'MULTIPLY_RATE') and not neutral and rng.random() < .12: return rng.choice([0, 0.])      # no mortality at all
    if kind == 'ADD_AGE': return 0 if neutral else rng.choice([1, 3, rng.randint(1, 25)])
    return 1 if neutral else rng.choice([rng.uniform(.2, .99), rng.uniform(1.01, 3), 2, rng.uniform(3, 20), rng.choice([25, 50., rng.uniform(20, 300)])])


class Standard:
    def __init__(self, m):
        self.m, self.law, self.last = m, m.law, m.maxage

    def p(self, x, s):
        if x + s + 1 > self.last and (self.law.omega is not None or self.m.kind.startswith('LifeTable')): return 0.
        return self.law.S(x, s, 1)

    def adj(self, x, s, kind, e):
        """(p, q)"""
        p = self.p(x + e if kind == 'ADD_AGE' else x, s)
        if kind == 'ADD_FORCE': p *= math.exp(-e)
        if kind == 'MULTIPLY_FORCE': p = p**e if p > 0 else 0. if e else 1.     # an extra of zero removes all mortality
        q = min(1., e * (1 - p)) if kind == 'MULTIPLY_RATE' else 1 - p
        return (1 - q if kind == 'MULTIPLY_RATE' else p), q


def basis(rng):
    m = gens.any_model(rng, dict(generic=3, law=4, table=5, sult=2))
    if m.kind.startswith('generic-f'): raise Skip()
    return m


def tolerance(m): return 2e-6 if m.kind.startswith('LifeTable') else 1e-8


def valid(c, key, p, q):
    c.true(key + '.valid', -1e-12 <= p <= 1 + 1e-12 and -1e-12 <= q <= 1 + 1e-12, lambda: f'p={p} q={q} are not probabilities')
    c.true(key + '.total', abs(p + q - 1) <= 1e-9, lambda: f'p={p} q={q} add to {p + q}')


def adjust(c, rng):
    m = basis(rng)
    L = Standard(m)
    if rng.random() < .5: m.obj.set_interest(i=gens.rate(rng))
    over = []
    for _ in range(rng.choice([1, 2, 3])):
        kind = rng.choice(KINDS); e = size(rng, kind, neutral=rng.random() < .2)
        over.append((kind, e, c.call('ExtraRisk', ExtraRisk, life=m.obj, risk=kind, extra=e) if kind or rng.random() < .5 else c.call('ExtraRisk', ExtraRisk, life=m.obj)))
    c.note(model=m, overlays=[o[:2] for o in over])
    c.dim(kind=m.kind, overlays=len(over))
    pts = [m.pick_age(rng) for _ in range(3)]
    if m.kind.startswith(('LifeTable', 'SULT')): pts.append((m.maxage - 1, 0))
    before = [(c.call('life.p_x', m.obj.p_x, x, s=s), c.call('life.q_x', m.obj.q_x, x, s=s)) for x, s in pts]
    rel = tolerance(m)
    jobs = [(o, pt) for o in over for pt in pts]; rng.shuffle(jobs)
    for (kind, e, o), (x, s) in jobs:
        y = x + e if kind == 'ADD_AGE' else x
        if m.law.omega is None and m.law.S(m.minage, 0, max(0, y + s - m.minage)) < 1e-6: continue     # far beyond the ages of interest
        if m.kind.startswith('LifeTable') and isinstance(m.law, ref.Table) and y + s < m.maxage and m.law._l(y + s) < 1e-6: continue
        if m.law.omega is not None and not isinstance(m.law, ref.Table) and y + s >= m.maxage and not m.kind.startswith(('Uniform', 'Beta')): continue
        c.dim(risk=kind)
        p, q = L.adj(x, s, kind, e)
        a = dict(s=s) if s or rng.random() < .5 else {}
        ab = rel * max(1, e) if kind.startswith('MULT') else rel       # the adjustment scales what the table rounds
        P = c.value(f'extra.p_x[{kind}]', p, o.p_x, x, **a, rel=rel, abs=ab)
        Q = c.value(f'extra.q_x[{kind}]', q, o.q_x, x, **a, rel=rel, abs=ab)
        if P is not None and Q is not None: valid(c, 'extra', P, Q)
    after = [(m.obj.p_x(x, s=s), m.obj.q_x(x, s=s)) for x, s in pts]
    c.same('extra.standard-unchanged', after, before)
    # neutral adjustments reproduce standard mortality
    kind = rng.choice(KINDS[1:])
    o = ExtraRisk(life=m.obj, risk=kind, extra=size(rng, kind, True))
    for (x, s), (p, q) in zip(pts, before):
        c.value(f'neutral.p_x[{kind}]', p, o.p_x, x, s=s, rel=1e-12, abs=1e-12)
        c.value(f'neutral.q_x[{kind}]', q, o.q_x, x, s=s, rel=1e-12, abs=1e-12)


def ages(m): return range(m.minage, m.maxage + 1)


def columns(c, rng):
    """columns of adjusted rates, and tables built from them"""
    m = basis(rng)
    L = Standard(m)
    if m.maxage > 400 and m.law.omega is None and rng.random() < .7: raise Skip()
    kind = rng.choice(KINDS[1:] if rng.random() < .9 else KINDS); e = size(rng, kind, neutral=rng.random() < .15)
    c.note(model=m, risk=kind, extra=e)
    c.dim(kind=m.kind, risk=kind)
    o = c.call('ExtraRisk', ExtraRisk, life=m.obj, risk=kind, extra=e)
    rel = tolerance(m)
    if m.law.omega is not None and not isinstance(m.law, ref.Table) and not m.kind.startswith(('Uniform', 'Beta')): raise Skip()
    live = [x for x in ages(m) if m.law.omega is not None or m.law.S(m.minage, 0, x - m.minage) > 1e-6]
    if kind == 'ADD_AGE' and m.law.omega is None: live = [x for x in live if m.law.S(m.minage, 0, x + e - m.minage) > 1e-6]
    if isinstance(m.law, ref.Table): live = [x for x in live if (lambda y: y >= m.maxage or m.law._l(y) > 1e-6)(x + e if kind == 'ADD_AGE' else x)]
    names = ['q', 'p']; rng.shuffle(names)
    cols = {k: c.call('extra[' + k + ']', lambda: o[k]) for k in names}
    for k in names:
        c.same(f'extra[{k}].ages', sorted(cols[k]), list(ages(m)))
        for x in live:
            c.close(f'extra[{k}]', cols[k][x], L.adj(x, 0, kind, e)['pq'.index(k)], rel=rel, abs=rel * max(1, e) if kind.startswith('MULT') else rel)
    for x in live: valid(c, 'extra[]', cols['p'][x], cols['q'][x])
    # a life table built from the adjusted rates reproduces them
    k = rng.choice(names)
    lo = rng.choice([m.minage, rng.choice(live)])
    col, t, S = {}, lo, 1.
    while t in cols['q'] and t < m.maxage and S > 1e-5 and t in live:
        col[t] = cols[k][t]; S *= 1 - cols['q'][t]; t += 1
    if len(col) < 2: return
    T = c.call('table', lambda: LifeTable(udd=True).set_table(**{k: col}))
    S = 1.
    pick = set(rng.sample(sorted(col), min(len(col), 12)))
    for x in sorted(col):
        if S < 1e-4: break
        p, q = L.adj(x, 0, kind, e)
        if x in pick:
            ab = 2e-6 * max(1, e) if kind.startswith('MULT') and m.kind.startswith('LifeTable') else 2e-6
            c.value('table.q_x', q, T.q_x, x, rel=1e-6, abs=ab)
            c.value('table.p_x', p, T.p_x, x, rel=1e-6, abs=ab)
            c.value('table.p_x.term', S, T.p_x, lo, t=x - lo, rel=1e-6, abs=ab * 5)
        S *= p
    c.dim(table=k)


def select(c, rng):
    """a select table with extra risk in the year after selection (as the documentation builds it)"""
    m = gens.sult_model(rng) if rng.random() < .5 else gens.table_model(rng, udd=True, natural=True)
    if isinstance(m.law, ref.Table) and m.law._l(m.maxage - 1) < 1e-5 and not m.kind.startswith('SULT'): raise Skip()
    i = gens.rate(rng, zero=False)
    kind = rng.choice(['ADD_FORCE', 'MULTIPLY_FORCE', 'MULTIPLY_RATE', 'ADD_AGE']); e = size(rng, kind)
    m.obj.set_interest(i=i)
    L = Standard(m)
    o = c.call('ExtraRisk', ExtraRisk, life=m.obj, risk=kind, extra=e)
    use = rng.choice(['q', 'q', 'a', 'A'])
    if m.kind.startswith('LifeTable') and use != 'q': use = 'q'
    c.note(model=m, i=i, risk=kind, extra=e, ultimate=use)
    c.dim(kind=m.kind, risk=kind, ultimate=use)
    if m.kind.startswith('SULT'): m.obj.set_interest(i=i)
    std = {'q': lambda: {x: m.obj.q_x(x) for x in range(m.minage, m.maxage + 1)}, 'a': lambda: {x: m.obj.whole_life_annuity(x) for x in range(m.minage, m.maxage)},
           'A': lambda: {x: m.obj.whole_life_insurance(x) for x in range(m.minage, m.maxage)}}[use]()
    sel = c.call('select', lambda: SelectLife(periods=1, udd=True).set_interest(i=i).set_select(s=0, age_selected=True, q=o['q']).set_select(s=1, age_selected=False, **{use: std}).fill_table())
    v = 1 / (1 + i)
    Aref = {m.maxage: v}
    for x in range(m.maxage - 1, m.minage - 1, -1): Aref[x] = v * (1 - L.p(x, 0) + L.p(x, 0) * Aref[x + 1])
    for x in rng.sample(range(m.minage, m.maxage - 1), min(8, m.maxage - 1 - m.minage)):
        if m.law._l(x) / m.law._l(m.minage) < 1e-4: continue
        p, q = L.adj(x, 0, kind, e)
        A = v * (q + p * Aref[x + 1])
        c.value('select.q_x', q, sel.q_x, x, s=0, rel=1e-5, abs=1e-6)
        if use == 'q': c.value('select.q_x.ultimate', 1 - L.p(x + 1, 0), sel.q_x, x, s=1, rel=1e-5, abs=1e-6)
        if use == 'q': c.value('select.whole_life_insurance', A, sel.whole_life_insurance, x, s=0, rel=1e-5, abs=1e-6)
        if use == 'A': c.value('select.A', A, lambda: sel['A'][x][0], rel=1e-5, abs=1e-6)
        if use == 'a': c.value('select.a', (1 - A) / (i * v), lambda: sel['a'][x][0], rel=1e-5, abs=1e-6 / i)


def on_select(c, rng):
    """overlays on select lives: the adjustment follows the duration since selection"""
    q, n, lo, hi = gens.select_q(rng)
    o = SelectLife(periods=n).set_table(q={x: [q[x][r] for r in range(n + 1)] for x in q})
    law = ref.SelectTable(q, n, lo, hi)
    over = []
    for _ in range(rng.choice([1, 2])):
        kind = rng.choice(KINDS); e = size(rng, kind, neutral=rng.random() < .1)
        if kind == 'ADD_AGE': e = rng.randint(0, hi - lo)
        over.append((kind, e, c.call('ExtraRisk', ExtraRisk, life=o, risk=kind, extra=e)))
    c.note(law=(n, lo, hi), q=q, overlays=[z[:2] for z in over]); c.dim(kind='select', periods=n)
    for _ in range(6):
        kind, e, z = rng.choice(over); a = e if kind == 'ADD_AGE' else 0
        x = rng.randint(lo, hi - a); s = rng.randint(0, n + hi - x - a)
        c.dim(risk=kind)
        q0 = law.q1(x + a, s); p = 1 - q0
        if kind == 'ADD_FORCE': p *= math.exp(-e)
        if kind == 'MULTIPLY_FORCE': p = p**e
        if kind == 'MULTIPLY_RATE': p = 1 - min(1, e * q0)
        P = c.value(f'select.p_x[{kind}]', p, z.p_x, x, s=s, rel=1e-8)
        Q = c.value(f'select.q_x[{kind}]', 1 - p, z.q_x, x, s=s, rel=1e-8)
        if P is not None and Q is not None: valid(c, 'select', P, Q)
        c.value('select.standard', q0, o.q_x, x + a, s=s, rel=1e-8)


def refused(c, rng):
    m = basis(rng)
    bad = rng.choice(['ADD', 'add_force', 'MULTIPLY', 'RATE', 'AGE_ADD', 'xyz'])
    c.note(model=m, risk=bad)
    for kw in (dict(risk=bad, extra=.1), dict(risk=rng.choice(KINDS[1:]), extra=-rng.uniform(.001, 2))):
        try: ExtraRisk(life=m.obj, **kw)
        except (AssertionError, ValueError, TypeError, KeyError): c.decided('refused')
        except Exception as ex: c.decided('refused'); c.violate('refused', f'{kw}: {type(ex).__name__}: {ex}')
        else: c.decided('refused'); c.violate('refused', f'accepted {kw}')


GROUPS = [('adjust', adjust, 2000, 80000), ('columns', columns, 600, 20000), ('select', select, 400, 15000), ('on_select', on_select, 600, 20000), ('refused', refused, 40, 200)]
QUICK = 10      # scale of the quick tier
