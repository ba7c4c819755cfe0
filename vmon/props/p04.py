"""P04 lifetime expectations and moments"""
import math
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip

RULE = ('A case draws a mortality model of any kind (user-specified survival, law, constant force, life table with UDD/CFM, standard table, select table), '
        'an age, select duration and limit, and compares expectations, second moments and variances with sums/integrals of the reference survival; '
        'distinct by model, age, duration and limit.')
ASSUMPTIONS = ['complete expectations of tables are integrals of the assumed fractional-age survival', 'whole-life select-table expectations are compared only where the table determines them']


def moments(S, n, curtate, frac=0, breaks=()):
    if curtate:
        n = int(n)
        e1 = math.fsum(S(k) for k in range(1, n + 1))
        e2 = math.fsum((2 * k - 1) * S(k) for k in range(1, n + 1))
    else:
        breaks = [n - 2. ** -j for j in range(1, 24)] + list(range(1, math.ceil(n)))    # survival may be singular at a limiting age
        e1 = ref.quad(S, 0, n, breaks=breaks)
        e2 = ref.quad(lambda t: 2 * t * S(t), 0, n, breaks=breaks)
    return e1, e2


def pick(c, rng, m):
    x, s = m.pick_age(rng)
    left = m.maxage - x - s
    t = rng.choice([-999, -999, 1, 2, rng.randint(1, max(1, min(left, 60))), min(left, 150), left + rng.randint(1, 5) if left < 200 else 30])
    c.note(model=m, x=x, s=s, t=t)
    c.dim(kind=m.kind, s=min(s, 2), t='whole' if t < 0 else '1' if t == 1 else 'beyond' if t > left else 'term')
    n = left if t < 0 or t > left else t
    return x, s, t, n


def expect(c, rng, weights=None):
    m = gens.any_model(rng, weights)
    x, s, t, n = pick(c, rng, m)
    S = m.S(x, s)
    k = m.kind.split('-')[0]
    args = {} if t < 0 and rng.random() < .5 else dict(t=t)
    if m.kind == 'Beta' or (k == 'generic' and m.law.omega and getattr(m.law, 'alpha', 1) != int(getattr(m.law, 'alpha', 1))):
        if t > m.maxage - x - s: t = -999; args = {}
        n = m.maxage - x - s if t < 0 else t
    tol = dict(rel=1e-6, abs=1e-7)
    kinked = k in ('LifeTable', 'SULT')    # integrand has kinks at integer ages
    for curtate in (True, False):
        e1, e2 = moments(S, n, curtate)
        nm = f"{k}.{'curtate' if curtate else 'complete'}.{'whole' if t < 0 else 'limited'}"
        tl = tol if curtate else dict(rel=2e-5, abs=1e-5) if m.kind.endswith('cfm') else dict(rel=2e-5, abs=1e-5)
        c.value(f'e.{nm}', e1, m.obj.e_x, x, s=s, curtate=curtate, **args, **tl)
        c.value(f'e2.{nm}', e2, m.obj.e_x, x, s=s, curtate=curtate, moment=2, **args, rel=2e-5, abs=1e-4)
        c.value(f'var.{nm}', e2 - e1 ** 2, m.obj.e_x, x, s=s, curtate=curtate, moment=m.obj.VARIANCE, **args, rel=1e-4, abs=2e-5 * (1 + e2))
    # limited and whole expectations through the fractional-age interface
    if k in ('LifeTable', 'SULT') and (m.natural or t < 0 and m.kind.endswith('cfm') or 0 < t <= m.maxage - x - s):
        e1, _ = moments(S, n, False)
        c.value(f'e_r.{k}', e1, m.obj.e_r, x, s=s, **args, rel=2e-5, abs=1e-5)
    if k in ('CF', 'Uniform', 'Beta', 'Gompertz', 'Makeham'):
        e1, _ = moments(S, n, False)
        c.value(f'e_r.{k}', e1, m.obj.e_r, x, s=s, **args, rel=2e-5, abs=1e-5)


def recursion(c, rng):
    m = gens.any_model(rng)
    x, s = m.pick_age(rng, room=4)
    left = min(m.maxage, m.live_to()) - x - s
    if left < 2: raise Skip
    n = rng.randint(1, min(40, left - 1)); curtate = rng.random() < .6
    c.note(model=m, x=x, s=s, n=n, curtate=curtate); c.dim(kind=m.kind)
    k = m.kind.split('-')[0]
    E = lambda s_, t: c.call('recursion.e', m.obj.e_x, x, s=s_, t=t, curtate=curtate)
    tol = dict(rel=2e-5, abs=1e-5) if m.kind.endswith('cfm') else dict(rel=2e-5, abs=1e-5)
    p = c.call('recursion.p', m.obj.p_x, x, s=s, t=n)
    c.close(f"recursion.{k}.{'curtate' if curtate else 'complete'}", E(s, -999), E(s, n) + p * E(s + n, -999), **tol)
    j = rng.randint(1, n)
    pj = c.call('recursion.p', m.obj.p_x, x, s=s, t=j)
    if n > j:
        c.close(f"recursion.limited.{k}", E(s, n), E(s, j) + pj * E(s + j, n - j), **tol)


def defaults(c, rng):
    """documented defaults: generic, table and select models answer the curtate whole-life expectation"""
    m = gens.any_model(rng, dict(generic=3, table=3, sult=1))
    x, s = m.pick_age(rng)
    c.note(model=m, x=x); c.dim(kind=m.kind)
    e1, e2 = moments(m.S(x, 0), m.maxage - x, True)
    c.value('defaults.e_x', e1, m.obj.e_x, x, rel=1e-6, abs=1e-6)
    e1, _ = moments(m.S(x, 0), 1, True)
    c.value('defaults.limited', e1, m.obj.e_x, x, 0, 1, rel=1e-6, abs=1e-6)
    for bad in (3, -1, 0):
        c.raises('defaults.reject-moment', m.obj.e_x, x, t=3, moment=bad)


def part(c, rng):
    """complete lifetime limited to part years"""
    m = gens.any_model(rng, dict(generic=3, law=4, table=1, sult=1))
    k = m.kind.split('-')[0]
    udd_table = k in ('LifeTable', 'SULT') and m.obj.udd_
    x, s = m.pick_age(rng)
    left = min(m.maxage - x - s, 60)
    t = rng.choice([rng.uniform(0, 1), rng.uniform(0, left), rng.uniform(0, left)])
    c.note(model=m, x=x, s=s, t=t); c.dim(kind=m.kind, t='<1' if t < 1 else '>1')
    e1, e2 = moments(m.S(x, s), t, False)
    if not udd_table:
        c.value(f'part.e.{k}', e1, m.obj.e_x, x, s=s, t=t, curtate=False, rel=2e-5, abs=1e-5)
        c.value(f'part.var.{k}', e2 - e1**2, m.obj.e_x, x, s=s, t=t, curtate=False, moment=m.obj.VARIANCE, rel=1e-4, abs=2e-5 * (1 + e2))
    c.value(f'part.e2.{k}', e2, m.obj.e_x, x, s=s, t=t, curtate=False, moment=2, rel=2e-5, abs=1e-4)


def cut(c, rng):
    """models whose oldest age is given although some would survive it: no expectation runs past it"""
    m = gens.generic_model(rng, cut=True)
    x, s = m.pick_age(rng)
    if rng.random() < .5: s = min(rng.randint(1, 9), m.maxage - x - 1)
    left = m.maxage - x - s
    if left < 1: raise Skip
    t = rng.choice([-999, left, left + rng.randint(1, 9), rng.randint(1, left)])
    n = left if t < 0 else min(t, left)
    c.note(model=m, x=x, s=s, t=t); c.dim(kind=m.kind, t='whole' if t < 0 else 'past' if t > left else 'within')
    S = lambda t: m.law.S(x, s, t)
    for curtate in (True, False):
        if t == 1 and curtate: continue
        e1, e2 = moments(S, n, curtate)
        nm = 'curtate' if curtate else 'complete'
        c.value(f'cut.e.{nm}', e1, m.obj.e_x, x, s=s, t=t, curtate=curtate, rel=2e-5, abs=1e-5)
        c.value(f'cut.e2.{nm}', e2, m.obj.e_x, x, s=s, t=t, curtate=curtate, moment=2, rel=2e-5, abs=1e-4)


def select(c, rng):
    q, n, lo, hi = gens.select_q(rng)
    o = SelectLife(periods=n) if rng.random() < .5 else SelectLife()
    c.call('select.build', o.set_table, q={x: [q[x][r] for r in range(n + 1)] for x in q})
    law = ref.SelectTable(q, n, lo, hi)
    x = rng.randint(lo, hi); s = rng.randint(0, n + rng.randint(0, hi - x))
    t = rng.randint(1, hi + n + 1 - x - s)
    c.note(law=(n, lo, hi), x=x, s=s, t=t); c.dim(kind='select', n=n)
    S = lambda k: law.S(x, s, k)
    c.value('select.limited', math.fsum(S(k) for k in range(1, t + 1)), o.e_x, x, s=s, t=t, rel=1e-9)
    c.value('select.to-end-of-table', math.fsum(S(k) for k in range(1, hi + n + 2 - x - s)), o.e_x, x, s=s, rel=1e-9)
    # whole-life expectation known for one ultimate age: fills the rest of the table by recursion
    last = rng.uniform(.5, 15)
    o = SelectLife().set_table(q={y: [q[y][r] for r in range(n + 1)] for y in q}, e={hi: [None] * n + [last]})

    def e(x, s):    # truth by recursion along the row then down the ultimate column
        if s >= n:
            y = x + s - n
            if y == hi: return last
            return (1 - q[y][n]) * (1 + e(y + 1, n))
        return (1 - q[x][s]) * (1 + e(x, s + 1))
    for y in (x, rng.randint(lo, hi)):
        for r in range(n + 1):
            if y + max(0, r - n) <= hi:
                c.value('select.whole', e(y, r), o.e_x, y, s=r, rel=1e-8)
    y = rng.randint(lo, hi)
    beyond = rng.randint(0, hi - y)
    c.value('select.whole.ultimate', e(y, n + beyond), o.e_x, y, s=n + beyond, rel=1e-8)
    c.value('select.limited.with-e', math.fsum(S(k) for k in range(1, t + 1)), o.e_x, x, s=s, t=t, rel=1e-9)
    if rng.random() < .5:
        c.value('select.complete', e(x, s) + .5, o.e_r, x, s=s, rel=1e-8)


THOROUGH = 8      # scale of the thorough tier
GROUPS = [('expect', expect, 900, 15000), ('recursion', recursion, 400, 6000), ('defaults', defaults, 200, 2000), ('select', select, 300, 6000),
          ('part', part, 300, 5000), ('cut', cut, 200, 3000)]
