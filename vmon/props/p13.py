"""P13 filling life tables"""
import math
from actuarialmath import LifeTable, SULT
from vmon import ref, gens
from vmon.core import Skip

RULE = ('A case draws a true life table, reveals a random subset of its cells (lives, deaths, survival and mortality probabilities; sparse, dense, one column, or a mix; in one or several calls, filled at once or later, '
        'ages and columns in random order), and compares the filled table with the closure of the revealed cells under the defining identities, computed independently; then queries on the filled table with the true table. '
        'Distinct by the revealed cells and calls.')
ASSUMPTIONS = ['the table stores derived cells to 7 decimals; compared within the error this induces', 'survival past the last age of a table whose last survival probability is not zero is taken as nil']
COLS = 'ldqp'


def truth(rng, steep=False):
    a0 = rng.choice([0, 1, 20, rng.randint(0, 90)])
    n = rng.choice([1, 2, rng.randint(2, 8), rng.randint(2, 8), rng.randint(5, 30)])
    q = [round(rng.uniform(.002, .4), 4) for _ in range(n)]
    if n > 4 and rng.random() < .3: q[rng.randint(0, n - 1)] = 0.
    natural = rng.random() < .4
    if steep and n > 3 and rng.random() < .2: q[rng.randint(1, n - 2)] = rng.choice([.9, .99, .999, .9996])
    if natural: q[-1] = 1.
    radix = rng.choice([100000, 100000, 1000, 1000000, 10 ** 7, 10 ** 9, rng.randint(500, 10 ** 6)])
    T = {c: {} for c in COLS}
    T['l'][a0] = float(radix)
    for k in range(n):
        x = a0 + k
        T['q'][x], T['p'][x] = q[k], round(1 - q[k], 4)
        T['d'][x] = T['l'][x] * q[k]
        T['l'][x + 1] = T['l'][x] - T['d'][x] if q[k] < 1 else 0.
    return T, a0, n, natural, radix


def closure(known, lo, hi, T):
    """cells that the identities determine (names only)"""
    K = {c: set(known[c]) for c in COLS}

    def run():
        change = True
        while change:
            change = False
            def add(c, x):
                nonlocal change
                if x not in K[c] and lo <= x <= hi: K[c].add(x); change = True
            for x in range(lo, hi + 1):
                if x in K['q']: add('p', x)
                if x in K['p']: add('q', x)
                l0, l1, d, q = x in K['l'], x + 1 in K['l'], x in K['d'], x in K['q']
                tq, tl = T['q'].get(x), T['l'].get(x)
                if tq is None: continue
                if l0 and d and tl > 0: add('q', x)
                if l0 and l1: add('d', x)
                if l0 and q: add('l', x + 1)
                if l0 and d: add('l', x + 1)
                if l1 and q and tq < 1: add('l', x)
                if l1 and d: add('l', x)
                if d and q and tq > 0: add('l', x)
    run()
    radix = not K['l']
    if radix:
        K['l'].add(lo); run()
    return K, radix


def reveal(rng, T, a0, n):
    how = rng.choice(['q', 'p', 'l', 'mixed', 'mixed', 'mixed', 'per-age', 'd+l', 'sparse'])
    cells = {c: {} for c in COLS}
    for k in range(n + 1):
        x = a0 + k
        if how in 'qpl':
            pick = [how]
        elif how == 'mixed': pick = [c for c in COLS if rng.random() < .45]
        elif how == 'sparse': pick = [c for c in COLS if rng.random() < .2]
        elif how == 'per-age': pick = [rng.choice('qp' if rng.random() < .6 else 'ldqp')] + (['l'] if k == 0 and rng.random() < .5 else [])
        else: pick = ['d'] + (['l'] if k == rng.randint(0, n) or k == 0 else [])
        for c in pick:
            if x in T[c]: cells[c][x] = T[c][x]
    return how, cells


def agree(c, key, obj, K, T, given, tolscale):
    t = obj._table
    for col in COLS:
        got = set(t[col])
        c.true(key + '.complete', K[col] <= got, lambda: f'{col} lacks ages {sorted(K[col] - got)[:6]}')
        for x in sorted(got):
            if x in given[col]:
                c.true(key + '.given-kept', abs(t[col][x] - given[col][x]) <= 1e-7, lambda: f'{col}[{x}] = {t[col][x]!r} but given {given[col][x]!r}')
            w = T[col].get(x)
            if w is None: continue
            if not c.close(f'{key}.{col}', t[col][x], w, rel=tolscale, abs=tolscale * (1 if col in 'qp' else 20 * (T['l'].get(x, 0) + 1) * .05 + .001), what=f'{col}[{x}]'): return


def identities(c, key, obj):
    t = obj._table
    for x in sorted(set().union(*[t[k] for k in COLS])):
        l, d, q, p, l1 = t['l'].get(x), t['d'].get(x), t['q'].get(x), t['p'].get(x), t['l'].get(x + 1)
        if q is not None and p is not None: c.close(key + '.p+q', p + q, 1., abs=3e-7)
        if l is not None and d is not None and l1 is not None: c.close(key + '.l-d', l1, l - d, abs=1e-6, rel=3e-7)
        if l is not None and p is not None and l1 is not None: c.close(key + '.l*p', l1, l * p, abs=1e-6 + 3e-7 * l, rel=3e-7)
        if l is not None and q is not None and d is not None: c.close(key + '.l*q', d, l * q, abs=1e-6 + 3e-7 * l, rel=3e-7)


def shuffled(rng, d):
    k = list(d); rng.shuffle(k)
    return {a: d[a] for a in k}


def give(c, rng, obj, cells, radix, mode, extra=None):
    """enter cells by one or several calls"""
    base = dict(extra or {})
    args = lambda cc: {k: v for k, v in shuffled(rng, {k: shuffled(rng, cc[k]) for k in COLS if cc[k]}).items()}
    rk = {} if radix == 100000 and rng.random() < .7 else dict(radix=radix)
    if mode == 'once':
        c.call('set_table', obj.set_table, **args(cells), **rk, **base)
        return
    items = [(k, x) for k in COLS for x in cells[k]]
    rng.shuffle(items)
    parts = rng.randint(2, min(4, len(items)))
    cuts = sorted(rng.sample(range(1, len(items)), parts - 1))
    chunks = [items[a:b] for a, b in zip([0] + cuts, cuts + [len(items)])]
    for j, ch in enumerate(chunks):
        cc = {k: {} for k in COLS}
        for k, x in ch: cc[k][x] = cells[k][x]
        last = j == len(chunks) - 1
        fill = mode == 'incremental' or (mode == 'deferred' and last)
        c.call('set_table', obj.set_table, **args(cc), fill=fill, **rk)
    if mode == 'explicit': c.call('fill_table', obj.fill_table, radix)


def fill(c, rng):
    T, a0, n, natural, radix = truth(rng)
    how, cells = reveal(rng, T, a0, n)
    if not any(cells.values()): raise Skip
    lo = min(min(v) for v in cells.values() if v); hi = max(max(v) for v in cells.values() if v)
    K, needs_radix = closure(cells, lo, hi + 1, T)
    ri = radix
    if needs_radix and lo != a0:      # radix is lives at the youngest age given
        scale = radix / T['l'][lo] if T['l'][lo] else None
        if scale is None or any(cells['d'].values()): raise Skip
        T = dict(T, l={x: v * scale for x, v in T['l'].items()}, d={x: v * scale for x, v in T['d'].items()})
    mode = 'once'
    if sum(len(v) for v in cells.values()) > 3:
        mode = rng.choice(['once', 'once', 'deferred', 'explicit', 'incremental'])
        if mode == 'incremental' and needs_radix: mode = 'deferred'
    o = LifeTable(udd=rng.random() < .5)
    c.note(cells=cells, mode=mode, radix=radix, how=how)
    c.dim(how=how, mode=mode, natural=natural, radix_needed=needs_radix, cells=min(20, sum(len(v) for v in cells.values())))
    if mode == 'incremental':      # begin with a number of lives so that none is assumed
        if not cells['l']: mode = 'deferred'
        else:
            x = rng.choice(list(cells['l']))
            first = {k: {} for k in COLS}; first['l'][x] = cells['l'][x]
            rest = {k: {y: z for y, z in cells[k].items() if (k, y) != ('l', x)} for k in COLS}
            c.call('set_table', o.set_table, l=dict(first['l']))
            if sum(len(v) for v in rest.values()) >= 2: give(c, rng, o, rest, radix, 'incremental')
            else: mode = 'skip'
    if mode == 'skip': raise Skip
    if mode != 'incremental': give(c, rng, o, cells, radix, mode, {} if rng.random() < .8 else dict(minage=lo, maxage=hi + 1))
    tol = 2e-5 * (1 + n / 5)
    agree(c, 'fill', o, K, T, cells, tol)
    identities(c, 'fill', o)
    c.same('fill.ages', (o._MINAGE, o._MAXAGE), (lo, hi + 1))
    snap = {k: dict(v) for k, v in o._table.items()}
    # once more: same table
    c.call('fill_table', o.fill_table, radix)
    c.same('fill.idempotent', {k: dict(v) for k, v in o._table.items()}, snap)
    # a different order of entry
    o2 = LifeTable()
    give(c, rng, o2, cells, radix, 'once' if mode != 'once' or sum(len(v) for v in cells.values()) < 4 else 'deferred')
    for k in COLS:
        c.same('order.cells', set(o2._table[k]), set(o._table[k]), f'column {k}')
        c.true('order.values', all(math.isclose(z, o2._table[k].get(x, math.nan), rel_tol=tol, abs_tol=tol * (1 if k in 'qp' else 20)) for x, z in o._table[k].items()), lambda: f'column {k}: {o._table[k]} vs {o2._table[k]}')
    c.same('isolated', LifeTable()._table, {k: {} for k in COLS})
    # columns and display
    for k in COLS: c.same('column', dict(c.call('column', o.__getitem__, k)), snap[k])
    df = c.call('frame', o.frame)
    c.true('frame.sorted', list(df.index) == sorted(set().union(*[snap[k] for k in COLS])), lambda: str(list(df.index)))
    c.true('frame.values', all(df[k][x] == z for k in COLS for x, z in snap[k].items()))
    c.raises('column.unknown', o.__getitem__, 'z')


def queries(c, rng):
    """queries against the true table"""
    T, a0, n, natural, radix = truth(rng, True)
    if n < 2: raise Skip
    how = rng.choice(['q', 'p', 'l', 'mixed'])
    o = LifeTable(udd=rng.random() < .6)
    i = gens.rate(rng); c.call('set_interest', o.set_interest, **gens.interest_kw(rng, i))
    end = a0 + n
    if how == 'mixed':
        arg = {k: {} for k in COLS}; arg['l'][a0] = T['l'][a0]
        for x in range(a0, end):
            k = rng.choice('dqp'); arg[k][x] = T[k][x]
        arg = {k: v for k, v in arg.items() if v}
        c.call('set_table', o.set_table, **arg)
    elif how == 'l':
        c.call('set_table', o.set_table, l=dict(T['l']), maxage=end)
    else:
        c.call('set_table', o.set_table, **{how: dict(T[how])}, radix=radix)
    c.note(how=how, a0=a0, q=[T['q'][x] for x in range(a0, end)], radix=radix, i=i); c.dim(query=how, natural=natural)
    l = T['l']
    L = lambda y: l.get(y, 0.)
    v = ref.vf(i)
    for _ in range(12):
        x = rng.randint(a0, end - 1); s = rng.choice([0, 0, rng.randint(0, end - 1 - x)])
        if rng.random() < .5: x, s = x + s, 0
        y = x + s
        if L(y) <= 0: continue
        e = 4e-6 * max(1., radix / max(L(y), 1e-9) * 1e-3)
        t = rng.choice([0, 1, rng.randint(0, end - y), end - y])
        u = rng.choice([0, rng.randint(0, end - y)])
        c.value('query.l_x', L(y), o.l_x, x, s=s, rel=1e-5, abs=1e-4)
        c.value('query.p_x', L(y + t) / L(y), o.p_x, x, s=s, t=t, rel=e, abs=e)
        t2 = min(t, end - y - u) if not natural else t
        dead = L(y + u) - L(y + u + t2)
        c.value('query.q_x', dead / L(y), o.q_x, x, s=s, u=u, t=t2, rel=e, abs=e)
        c.value('query.d_x', L(y) - L(y + t), o.d_x, x, s=s, t=t, rel=1e-5, abs=1e-5 * L(y) + 1e-5)
        if t == 1: c.value('query.default', 1 - L(y + 1) / L(y), o.q_x, x, s=s, rel=e, abs=e); c.value('query.default', L(y + 1) / L(y), o.p_x, x, s, rel=e, abs=e)
        k = rng.randint(0, end - y - 1)
        if L(y + k + 1) > 1e-3 and L(y + k) > 1: c.value('query.mu_x', -math.log(L(y + k + 1) / L(y + k)), o.mu_x, x, s=s, t=k, rel=1e-4, abs=e * L(y) / L(y + k))
        b = rng.choice([1, rng.uniform(.1, 5), 1000])
        p = L(y + t) / L(y)
        c.value('query.E_x', b * v(t) * p, o.E_x, x, s=s, t=t, endowment=b, rel=e, abs=e * b)
        c.value('query.E_x.m2', (b * v(t)) ** 2 * p, o.E_x, x, s=s, t=t, endowment=b, moment=2, rel=e, abs=e * b * b)
        c.value('query.E_x.var', (b * v(t)) ** 2 * p * (1 - p), o.E_x, x, s=s, t=t, endowment=b, moment=-2, rel=e, abs=e * b * b * 2)
        # beyond the last age
        over = end - y + rng.randint(1, 30)
        c.value('beyond.p_x', 0., o.p_x, x, s=s, t=over, abs=0)
        c.value('beyond.q_x', 1., o.q_x, x, s=s, t=over, rel=1e-12)
        c.value('beyond.l_x', 0., o.l_x, x, s=s + over, abs=0)
        c.value('beyond.d_x', L(y), o.d_x, x, s=s, t=over, rel=1e-5, abs=1e-4)
        if natural: c.value('beyond.E_x', 0., o.E_x, x, s=s, t=over, abs=e)


def update(c, rng):
    """changing an entry and refilling a cleared table equals building it afresh"""
    T, a0, n, natural, radix = truth(rng)
    o = LifeTable()
    ages = list(T['q']); 
    if len(ages) < 4: raise Skip
    rng.shuffle(ages)
    h = rng.randint(1, len(ages) - 1)
    one, two = sorted(ages[:h]), sorted(ages[h:])
    c.note(one=one, two=two, q=T['q'])
    c.call('set_table', o.set_table, q={x: T['q'][x] for x in one}, fill=False)
    c.call('set_table', o.set_table, p={x: T['p'][x] for x in two}, radix=radix)
    w = LifeTable()
    c.call('set_table', w.set_table, q=dict(T['q']), radix=radix)
    c.same('extend.ages', (o._MINAGE, o._MAXAGE), (w._MINAGE, w._MAXAGE))
    for x in range(a0, a0 + n):
        c.close('extend.l', o.l_x(x), w.l_x(x), rel=1e-6, abs=1e-5)
        c.close('extend.e', o.p_x(x, t=1), w.p_x(x, t=1), rel=1e-6, abs=1e-6 * radix / max(1, w.l_x(x)))


def exact(c, rng):
    """lives and deaths from mortality and a radix, to the digits the table keeps"""
    T, a0, n, natural, radix = truth(rng, True)
    how = rng.choice('qp')
    o = LifeTable(udd=rng.random() < .5)
    where = rng.choice(['radix', 'first'])
    c.note(how=how, a0=a0, q=T['q'], radix=radix, where=where); c.dim(exact=how, radix=len(str(radix)))
    c.call('set_table', o.set_table, **{how: dict(T[how])}, **(dict(radix=radix) if where == 'radix' else dict(l={a0: radix})))
    e = 1e-7
    l = radix
    for x in range(a0, a0 + n):
        p = T['p'][x]
        c.close('exact.l', o.l_x(x), l, rel=1e-12, abs=e, what=f'l[{x}]')
        c.close('exact.d', o['d'][x], l * (1 - p), rel=1e-12 * (1 + l), abs=2 * e, what=f'd[{x}]')
        c.close('exact.d_x', o.d_x(x), l * (1 - p), rel=1e-12 * (1 + l), abs=2 * e, what=f'd_x({x})')
        if l * p > 1: c.close('exact.mu_x', o.mu_x(x), -math.log(max(p, 1e-5)), rel=1e-9, abs=1e-9 + 1e-6 / (l * p), what=f'mu_x({x})')
        l *= p; e += 1e-7


def ages(c, rng):
    """youngest and oldest ages stated outright, in one call or in a later one"""
    T, a0, n, natural, radix = truth(rng)
    a0_, cells = a0, {k: {} for k in COLS}
    for x in range(a0, a0 + n): k = rng.choice('qqp'); cells[k][x] = T[k][x]
    if rng.random() < .4: k = rng.choice('ld'); cells[k][a0] = T[k][a0]
    given = {k: v for k, v in cells.items() if v}
    lives = bool(cells['l'])
    lo = rng.choice([0, 0, a0, max(0, a0 - 1), rng.randint(0, a0)]); hi = rng.choice([None, a0 + n, a0 + n + rng.randint(1, 20)])
    mode = rng.choice(['once', 'later', 'later-empty'])
    kw = dict(minage=lo) | ({} if hi is None else dict(maxage=hi))
    hi_ = a0 + n if hi is None else hi
    c.note(cells=cells, lo=lo, hi=hi, mode=mode, radix=radix); c.dim(ages=mode, gap=a0 - lo, zero=lo == 0)
    o = LifeTable(udd=rng.random() < .5)
    if mode == 'once':
        c.call('set_table', o.set_table, **given, **kw, radix=radix)
    else:
        items = [(k, x) for k in COLS for x in cells[k]]; rng.shuffle(items)
        if len(items) < 2: raise Skip
        h = rng.randint(1, len(items) - 1)
        def part(it):
            d = {}
            for k, x in it: d.setdefault(k, {})[x] = cells[k][x]
            return d
        first, rest = part(items[:h]), part(items[h:])
        old = rng.randint(0, a0)
        c.call('set_table', o.set_table, **first, fill=False, **rng.choice([{}, dict(minage=old), dict(minage=old, maxage=a0 + n + 3)]))
        if mode == 'later':
            c.call('set_table', o.set_table, **rest, minage=lo, maxage=hi_, radix=radix)
        else:      # the ages alone are given in a call of their own
            c.call('set_table', o.set_table, **rest, fill=False)
            c.call('set_table', o.set_table, minage=lo, maxage=hi_, radix=radix)
    c.same('ages.range', (o._MINAGE, o._MAXAGE), (lo, hi_))
    determined = lives or (cells['d'] and T['q'].get(a0))
    if not determined:      # a starting number of lives is assumed at the youngest age of the table
        c.same('ages.radix', o._table['l'].get(lo), radix)
        if lo < a0: c.same('ages.radix.only', set(o._table['l']) - {lo}, set()); c.same('ages.radix.l_x', o.l_x(lo), radix)
    if lo == a0 or determined:
        K, need = closure(cells, lo, hi_, T)
        agree(c, 'ages', o, K, T, cells, 2e-5 * (1 + n / 5))
        y = rng.randint(a0, a0 + n - 1)
        L = o.l_x(y)
        if L > 0:
            c.value('ages.beyond', 0., o.p_x, y, t=hi_ - y + rng.randint(1, 9), abs=0)
            c.value('ages.beyond.q', 1., o.q_x, y, t=hi_ - y + rng.randint(1, 9), rel=1e-12)
            t = rng.randint(0, a0 + n - y)
            c.value('ages.p_x', T['l'][y + t] / T['l'][y] if T['l'][y] else 0, o.p_x, y, t=t, rel=1e-4, abs=1e-4)
    identities(c, 'ages', o)


THOROUGH = 4      # scale of the thorough tier
GROUPS = [('exact', exact, 300, 6000), ('fill', fill, 4000, 60000), ('queries', queries, 600, 10000), ('update', update, 300, 4000), ('ages', ages, 1000, 16000)]
