"""P14 select and ultimate tables"""
import math
from actuarialmath import SelectLife
from vmon import ref, gens
from vmon.gens import select_q
from vmon.core import Skip
from vmon.products import Val

RULE = ('A case draws a true select and ultimate mortality table, with whole-life insurance, annuity and expectation values implied by it beyond its end and an interest rate, reveals a random subset of cells '
        '(by rows or by columns keyed by age at selection or attained age, in random order), and compares the filled table with the closure of the revealed cells under the one-year recursions, computed independently; '
        'then queries for lives before and after the end of the select period with the truth. Distinct by revealed cells.')
ASSUMPTIONS = ['mortality is deduced from lives, deaths and expectations (not from insurance or annuity values), as the fill documents', 'continuous benefits and second moments are documented as unsupported and must be rejected']
COLS = ('l', 'd', 'q', 'e', 'A', 'a')


class Truth:
    def __init__(self, rng):
        self.i = gens.rate(rng)
        long = rng.randint(20, 50) if rng.random() < .2 else 3
        while True:
            self.q, self.n, self.lo, self.hi = select_q(rng, periods=rng.choice([0, 1, 1, 2, 2, 3, 4, rng.randint(5, 9)]), n=rng.choice([1, 2, rng.randint(2, 6), rng.randint(4, 12), rng.randint(4, 12), long]))
            # values chained forward lose a digit whenever a discounted survival falls tenfold
            back = (1 + self.i) ** (self.hi - self.lo + self.n)
            for x in range(self.lo, self.hi + 1): back /= 1 - self.q[x][self.n]
            if back < 1e5: break
        if rng.random() < .15: self.q[self.hi][self.n] = 1.
        q, n, lo, hi, v = self.q, self.n, self.lo, self.hi, 1 / (1 + self.i)
        self.radix = rng.choice([100000, 100000, 1000, rng.uniform(500, 1e6)])
        # ultimate mortality beyond the table
        y, qq = hi + n + 1, q[hi][n]
        tail = []
        while qq < 1 and len(tail) < 150:
            qq = min(1., qq * 1.1 + .01); tail.append(qq)
        e, A, a = 0., v, 1.    # at the age where q=1
        for z in reversed(tail[:-1] if tail else []):
            e = (1 - z) * (1 + e); A = v * (z + (1 - z) * A); a = 1 + v * (1 - z) * a
        val = {}
        after = (e, A, a)
        for x in range(hi, lo - 1, -1):
            nxt = after if x == hi else val[(x + 1, n)]
            for s in range(n, -1, -1):
                z = q[x][s]
                e1, A1, a1 = nxt
                nxt = ((1 - z) * (1 + e1), v * (z + (1 - z) * A1), 1 + v * (1 - z) * a1)
                val[(x, s)] = nxt
        self.t = {'q': dict(self.cells(lambda x, s: q[x][s])), 'e': {k: w[0] for k, w in val.items()}, 'A': {k: w[1] for k, w in val.items()}, 'a': {k: w[2] for k, w in val.items()}}
        L = {}
        # ultimate lives, then back along each row
        u = self.radix
        for s in range(n): u *= 1 - q[lo][s]
        ult = {}
        for x in range(lo, hi + 1):
            ult[x] = u; u *= 1 - q[x][n]
        self.past = u
        for x in range(lo, hi + 1):
            w = ult[x]; L[(x, n)] = w
            for s in range(n - 1, -1, -1):
                w /= 1 - q[x][s]; L[(x, s)] = w
        self.t['l'] = L
        self.t['d'] = {k: L[k] * q[k[0]][k[1]] for k in L}

    def cells(self, f):
        for x in range(self.lo, self.hi + 1):
            for s in range(self.n + 1): yield (x, s), f(x, s)

    def nxt(self, x, s): return (x, s + 1) if s < self.n else (x + 1, self.n)

    # one-year quantities of [x]+s for any s
    def q1(self, x, s):
        if s > self.n: x, s = x + s - self.n, self.n
        return self.q[x][s]

    def S(self, x, s, t):
        p = 1.
        for j in range(t): p *= 1 - self.q1(x, s + j)
        return p

    def lives(self, x, s):
        if s > self.n: x, s = x + s - self.n, self.n
        return self.past if (x, s) == (self.hi + 1, self.n) else self.t['l'][(x, s)]

    def left(self, x, s): return self.hi + self.n + 1 - x - s


def closure(T, known):
    K = {c: set(known[c]) for c in COLS}
    cells = [k for k, _ in T.cells(lambda x, s: 0)]
    ok = set(cells)
    # the row and column order of a life's one-year step
    def run():
        ch = True
        while ch:
            ch = False
            def add(c, k):
                nonlocal ch
                if k in ok and k not in K[c]: K[c].add(k); ch = True
            for k in cells:
                m = T.nxt(*k)
                q = k in K['q']; z = T.t['q'][k]
                if k in K['l'] and k in K['d']: add('q', k)
                if k in K['e'] and m in K['e']: add('q', k)
                if k in K['l'] and m in K['l']: add('d', k)
                if m in K['l'] and k in K['d']: add('l', k)
                if q:
                    if k in K['l']: add('l', m)
                    if m in K['l'] and z < 1: add('l', k)
                    if k in K['d']: add('l', k)
                    for c in 'Aae':
                        if m in K[c]: add(c, k)
                        if k in K[c] and z < 1: add(c, m)
    run()
    first = (T.lo, 0)
    if not K['l']:
        K['l'].add(first); run()
    return K


def reveal(rng, T):
    how = rng.choice(['q', 'q', 'l', 'e', 'mixed', 'mixed', 'q+A', 'q+e', 'q+a', 'all-ultimate', 'l+d', 'sparse'])
    K = {c: set() for c in COLS}
    every = [k for k, _ in T.cells(lambda x, s: 0)]
    dens = {'q': 1, 'mixed': .6, 'sparse': .15}
    for k in every:
        if how in ('q', 'q+A', 'q+e', 'q+a'): K['q'].add(k)
        elif how == 'l': K['l'].add(k)
        elif how == 'e': K['e'].add(k)
        elif how == 'mixed':
            if rng.random() < .75: K[rng.choice(['q', 'q', 'l', 'd', 'e', 'A', 'a'])].add(k)
        elif how == 'sparse':
            for c in COLS:
                if rng.random() < .12: K[c].add(k)
        elif how == 'all-ultimate':
            K['q'].add(k)
            if k[1] == T.n: K[rng.choice(['A', 'a', 'e'])].add(k)
        elif how == 'l+d':
            K['d'].add(k)
            if k[1] == T.n or rng.random() < .1: K['l'].add(k)
    if '+' in how and how != 'l+d': K[how[-1]].add(rng.choice(every))
    if how == 'mixed':
        for c in ('A', 'a', 'e'):
            if rng.random() < .4: K[c].add(rng.choice(every))
    # something about the first and last rows, so that the ages in the table are as in the truth
    for x in (T.lo, T.hi):
        if not any(k[0] == x for c in COLS for k in K[c]): K['q'].add((x, rng.randint(0, T.n)))
    return how, K


def enter(c, rng, T, K, mode):
    vals = {t: {k: T.t[t][k] for k in K[t]} for t in COLS}
    kw = dict(radix=T.radix) if T.radix != 100000 or rng.random() < .3 else {}
    if mode == 'rows':
        o = SelectLife(periods=T.n) if rng.random() < .6 else SelectLife()
        c.call('set_interest', o.set_interest, **gens.interest_kw(rng, T.i))
        rows = {}
        for t in COLS:
            if not K[t]: continue
            xs = sorted({k[0] for k in K[t]}); rng.shuffle(xs)
            rows[t] = {x: [vals[t].get((x, s)) for s in range(T.n + 1)] for x in xs}
        if rng.random() < .5:                        # rows may end with the last value known
            for t in rows:
                for x, r in rows[t].items():
                    k = max((j for j, z in enumerate(r) if z is not None), default=-1)
                    if rng.random() < .7: rows[t][x] = r[:rng.randint(k, T.n) + 1] if k >= 0 else r
            longest = max(len(r) for t in rows for r in rows[t].values())
            if o.periods_ is None or o.periods_ < T.n or o is None:
                if longest < T.n + 1:
                    t = rng.choice(list(rows)); x = rng.choice(list(rows[t])); rows[t][x] = rows[t][x] + [None] * (T.n + 1 - len(rows[t][x]))
            c.dim(ragged=True)
        args = list(rows); rng.shuffle(args)
        c.call('set_table', o.set_table, **{t: rows[t] for t in args}, **kw)
        return o
    o = SelectLife(periods=T.n)
    c.call('set_interest', o.set_interest, **gens.interest_kw(rng, T.i))
    cols = [(t, s) for t in COLS for s in range(T.n + 1) if any(k[1] == s for k in K[t])]
    # several quantities may share one call
    by = {}
    for t, s in cols: by.setdefault((s, rng.randint(0, 1), rng.randint(0, 1) if rng.random() < .3 else t), []).append(t)
    calls = list(by.items()); rng.shuffle(calls)
    for j, ((s, sel, _), ts) in enumerate(calls):
        d = {}
        for t in ts:
            ages = [k[0] for k in K[t] if k[1] == s]; rng.shuffle(ages)
            d[t] = {x if sel else x + s: vals[t][(x, s)] for x in ages}
        last = j == len(calls) - 1
        c.call('set_select', o.set_select, s=s if s < T.n or rng.random() < .5 else -1, age_selected=bool(sel), **d, **(dict(fill=True, **kw) if last and mode == 'columns' else {}))
    if mode == 'columns-then-fill': c.call('fill_table', o.fill_table, **kw)
    return o


def tolerance(T, rng=None): return 1e-6


def compare(c, key, T, o, K, given):
    for t in COLS:
        got = {(x, s): z for x, r in o[t].items() for s, z in r.items() if z is not None}
        c.true(f'{key}.complete.{t}', K[t] <= set(got), lambda: f'{t} lacks {sorted(K[t] - set(got))[:5]}')
        for k, z in got.items():
            if k in given[t]: c.same(f'{key}.given-kept', z, T.t[t][k], f'{t}{k}')
            elif k in T.t[t]:
                if not c.close(f'{key}.{t}', z, T.t[t][k], rel=1e-5, abs=1e-6 * max(1, T.radix if t in 'ld' else 1) if t in 'ld' else 1e-6, what=f'{t}{k}'): return


def identities(c, key, T, o):
    """recursions over what the table holds, whatever the truth"""
    v = 1 / (1 + T.i)
    g = lambda t, k: (o[t].get(k[0]) or {}).get(k[1])
    for k, _ in T.cells(lambda x, s: 0):
        m = T.nxt(*k)
        q, l, d, l1 = g('q', k), g('l', k), g('d', k), g('l', m)
        if None not in (q, l, l1): c.close(key + '.lives', l1, l * (1 - q), rel=1e-6, abs=1e-7 * l)
        if None not in (q, l, d): c.close(key + '.deaths', d, l * q, rel=1e-5, abs=1e-7 * l)
        if None not in (d, l, l1): c.close(key + '.lives-deaths', l1, l - d, rel=1e-6, abs=1e-7 * l)
        for t, f in (('A', lambda z: v * (q + (1 - q) * z)), ('a', lambda z: 1 + v * (1 - q) * z), ('e', lambda z: (1 - q) * (1 + z))):
            z0, z1 = g(t, k), g(t, m)
            if None not in (q, z0, z1): c.close(f'{key}.{t}', z0, f(z1), rel=1e-6, abs=1e-7)


def fill(c, rng):
    T = Truth(rng)
    how, given = reveal(rng, T)
    if rng.random() < .5 and how in ('sparse', 'mixed'):    # some second and third facts about the same year
        pass
    K = closure(T, given)
    mode = rng.choice(['rows', 'rows', 'columns', 'columns-then-fill'])
    c.note(n=T.n, ages=(T.lo, T.hi), i=T.i, radix=T.radix, how=how, mode=mode, q=T.q, given={t: sorted(given[t]) for t in COLS})
    c.dim(how=how, mode=mode, periods=T.n, rows=T.hi - T.lo + 1)
    if mode == 'rows' and not any(k[1] == T.n for t in COLS for k in given[t]): given['q'].add((T.hi, T.n)); K = closure(T, given)
    o = enter(c, rng, T, given, mode)
    c.same('fill.shape', (o._MINAGE, o._MAXAGE, o.periods_), (T.lo, T.hi, T.n))
    compare(c, 'fill', T, o, K, given)
    identities(c, 'recursion', T, o)
    snap = {t: {x: dict(r) for x, r in o[t].items()} for t in COLS}
    c.call('fill.again', o.fill_table, **(dict(radix=T.radix)))
    c.same('fill.idempotent', {t: {x: dict(r) for x, r in o[t].items()} for t in COLS}, snap)
    o2 = enter(c, rng, T, given, rng.choice(['rows', 'columns']) if any(k[1] == T.n for t in COLS for k in given[t]) else 'columns')
    for t in COLS:
        z1 = {(x, s): z for x, r in o[t].items() for s, z in r.items() if z is not None}
        z2 = {(x, s): z for x, r in o2[t].items() for s, z in r.items() if z is not None}
        c.same('order.cells', set(z2), set(z1), t)
        c.true('order.values', all(math.isclose(z1[k], z2[k], rel_tol=1e-6, abs_tol=1e-6) for k in z1 if k in z2), lambda: f'{t}: {z1} vs {z2}')
    t = rng.choice(COLS)
    df = c.call('frame', o.frame, t) if t != 'l' or rng.random() < .5 else c.call('frame', o.frame)
    c.true('frame', all(float(df.loc[x, s]) == z for x, r in o[t].items() for s, z in r.items() if z is not None), lambda: str(df))
    c.true('frame.shape', list(df.index) == sorted(df.index) and list(df.columns) == sorted(df.columns))
    c.same('isolated', SelectLife()._select, {t: {} for t in COLS})


def queries(c, rng):
    T = Truth(rng)
    udd = rng.random() < .6
    o = SelectLife(periods=T.n, udd=udd) if rng.random() < .6 else SelectLife(udd=udd)
    c.call('set_interest', o.set_interest, **gens.interest_kw(rng, T.i))
    extra = rng.choice(['', 'A', 'a', 'e'])
    rows = lambda t: {x: [T.t[t][(x, s)] for s in range(T.n + 1)] for x in range(T.lo, T.hi + 1)}
    base = rng.choice(['q', 'q', 'l+d'])
    arg = {t: rows(t) for t in base.split('+')}
    if extra:
        k = rng.choice(list(T.t['q']))
        arg[extra] = {k[0]: [T.t[extra][k] if s == k[1] else None for s in range(T.n + 1)]}
    c.call('set_table', o.set_table, **arg, **(dict(radix=T.radix)))
    c.note(n=T.n, ages=(T.lo, T.hi), i=T.i, q=T.q, base=base, extra=extra, udd=udd); c.dim(query=base, extra=extra, periods=T.n)
    v = ref.vf(T.i)
    for _ in range(8):
        x = rng.randint(T.lo, T.hi); s = rng.choice([0, rng.randint(0, T.n), rng.randint(0, T.n + T.hi - x)])
        L = T.left(x, s)
        t = rng.choice([0, 1, rng.randint(0, L)]); u = rng.randint(0, L - t) if L > t else 0
        c.dim(past_select=s > T.n)
        S = lambda k: T.S(x, s, k)
        tol = dict(rel=1e-7, abs=1e-8)
        c.value('query.p_x', S(t), o.p_x, x, s=s, t=t, **tol)
        c.value('query.q_x', S(u) - S(u + t), o.q_x, x, s=s, t=t, u=u, **tol)
        c.value('query.l_x', T.lives(x, s), o.l_x, x, s=s, rel=1e-7) if L > 0 else None
        if t < L: c.value('query.d_x', T.lives(x, s) * (1 - S(t)), o.d_x, x, s=s, t=t, rel=1e-6, abs=1e-7 * T.radix)
        if T.q1(x, s) < .9: c.value('query.mu_x', -math.log(1 - T.q1(x, s)), o.mu_x, x, s=s, rel=1e-6, abs=1e-9)
        # past the select period only the attained age matters
        if s > T.n:
            for k in range(1, s - T.n + 1):
                c.same('ultimate.p_x', c.call('ultimate', o.p_x, x + k, s=s - k, t=t), c.call('ultimate', o.p_x, x, s=s, t=t))
                c.same('ultimate.l_x', c.call('ultimate', o.l_x, x + k, s=s - k), c.call('ultimate', o.l_x, x, s=s))
        if t < L or T.q[T.hi][T.n] < 1:
            c.value('query.e_x.limited', math.fsum(S(j) for j in range(1, t + 1)), o.e_x, x, s=s, t=t, **tol)
        b = rng.choice([1, rng.uniform(.1, 5), 1000])
        c.value('query.E_x', b * v(t) * S(t), o.E_x, x, s=s, t=t, endowment=b, rel=1e-7, abs=1e-8 * b)
        cell = (x, s) if s <= T.n else (x + s - T.n, T.n)
        if extra == 'A':
            c.value('query.A', b * T.t['A'][cell], o.whole_life_insurance, x, s=s, b=b, rel=1e-6, abs=1e-7 * b)
            c.value('query.A_x', T.t['A'][cell], o.A_x, x, s=s, rel=1e-6, abs=1e-7)
        if extra == 'a':
            c.value('query.a', b * T.t['a'][cell], o.whole_life_annuity, x, s=s, b=b, rel=1e-6, abs=1e-6 * b)
            c.value('query.a_x', T.t['a'][cell], o.a_x, x, s=s, rel=1e-6, abs=1e-6)
        if T.q[T.hi][T.n] == 1 and L > 0:            # a table that ends in certain death answers whole-life questions from its mortality
            e, A, a = (math.fsum(S(j) for j in range(1, L + 1)), math.fsum(v(k + 1) * (S(k) - S(k + 1)) for k in range(L)), math.fsum(v(k) * S(k) for k in range(L)))
            c.value('query.whole.e', e, o.e_x, x, s=s, rel=1e-6, abs=1e-7)
            c.value('query.whole.A', b * A, o.whole_life_insurance, x, s=s, b=b, rel=1e-6, abs=1e-6 * b)
            c.value('query.whole.a', b * a, o.whole_life_annuity, x, s=s, b=b, rel=1e-6, abs=1e-6 * b / max(T.i, 1e-3))
            c.value('query.whole.A_x', A, o.A_x, x, s=s, rel=1e-6, abs=1e-6); c.value('query.whole.a_x', a, o.a_x, x, s=s, rel=1e-6, abs=1e-6)
            c.value('query.whole.q', 1., o.q_x, x, s=s, t=L); c.dim(whole=True)
        if extra == 'e': c.value('query.e', T.t['e'][cell], o.e_x, x, s=s, rel=1e-6, abs=1e-7)
        if 0 < t < L:
            want = math.fsum(v(k + 1) * (S(k) - S(k + 1)) for k in range(t))
            c.value(f'query.term.{extra or "q"}', b * want, o.term_insurance, x, s=s, t=t, b=b, rel=1e-6, abs=1e-7 * b)
            c.value(f'query.temporary.{extra or "q"}', b * math.fsum(v(k) * S(k) for k in range(t)), o.temporary_annuity, x, s=s, t=t, b=b, rel=1e-6, abs=1e-6 * b / max(T.i, 1e-3))
            c.value(f'query.A_x.term', want, o.A_x, x, s=s, t=t, rel=1e-6, abs=1e-7)
            c.value(f'query.a_x.term', math.fsum(v(k) * S(k) for k in range(t)), o.a_x, x, s=s, t=t, rel=1e-6, abs=1e-6)
            if u + t < L:
                c.value('query.A_x.deferred', math.fsum(v(k + 1) * (S(k) - S(k + 1)) for k in range(u, u + t)), o.A_x, x, s=s, t=t, u=u, rel=1e-6, abs=1e-7)
                c.value('query.a_x.deferred', math.fsum(v(k) * S(k) for k in range(u, u + t)), o.a_x, x, s=s, t=t, u=u, rel=1e-6, abs=1e-6)
            c.value('query.A_x.benefit', math.fsum((k + 2) * v(k + 1) * (S(k) - S(k + 1)) for k in range(t)), o.A_x, x, s=s, t=t, benefit=lambda x, t: t + 1, rel=1e-6, abs=1e-6)
            c.value('query.a_x.benefit', math.fsum((k + 2) * v(k) * S(k) for k in range(t)), o.a_x, x, s=s, t=t, benefit=lambda x, t: t + 2, rel=1e-6, abs=1e-6)
            if u + t < L:
                c.value(f'query.deferred.{extra or "q"}', b * math.fsum(v(k + 1) * (S(k) - S(k + 1)) for k in range(u, u + t)), o.deferred_insurance, x, s=s, t=t, u=u, b=b, rel=1e-6, abs=1e-7 * b)
                c.value(f'query.deferred-annuity.{extra or "q"}', b * math.fsum(v(k) * S(k) for k in range(u, u + t)), o.deferred_annuity, x, s=s, t=t, u=u, b=b, rel=1e-6, abs=1e-6 * b / max(T.i, 1e-3))
        # within a year
        if L > 2 and T.q1(x, s + 1) < .99:
            r, w = rng.random(), rng.random()
            Sf = lambda z: S(int(z)) * ((1 - (z % 1) * T.q1(x, s + int(z))) if udd else (1 - T.q1(x, s + int(z))) ** (z % 1))
            z = r + w + rng.choice([0, 0, min(1, L - 3)])
            c.value('query.p_r', Sf(z) / Sf(r), o.p_r, x, s=s, r=r, t=z - r, rel=1e-6, abs=1e-7)
    x = T.lo
    for bad in (lambda: o.A_x(x, moment=2), lambda: o.A_x(x, discrete=False), lambda: o.a_x(x, discrete=False), lambda: o.e_x(x, curtate=False)):
        c.raises('unsupported', bad)
    c.raises('beyond-table', o.p_x, T.hi, s=T.n, t=3)


def no_survivors(c, rng):
    """numbers of lives which run out before the last row"""
    q, n, lo, hi = select_q(rng, periods=rng.choice([0, 1, 1, 2, 3]), n=rng.randint(3, 8))
    i = gens.rate(rng); v = ref.vf(i)
    z = hi - 1
    u = rng.choice([1000., 100000., rng.uniform(500, 1e6)])
    L = {}
    for x in range(lo, z + 1):
        L[(x, n)] = u
        w = u
        for s in range(n - 1, -1, -1): w /= 1 - q[x][s]; L[(x, s)] = w
        u *= 1 - q[x][n]
    w = u * 1.5          # selected so late that none are left at the end of the select period
    for s in range(n): L[(hi, s)] = w; w *= .6
    L[(hi, n)] = 0.
    if n and rng.random() < .4: L[(hi, n - 1)] = 0.
    nxt = lambda k: (k[0], k[1] + 1) if k[1] < n else (k[0] + 1, n)
    D = {k: L[k] - L[nxt(k)] for k in L if nxt(k) in L}
    how = rng.choice(['l', 'l+d', 'd+last'])
    o = SelectLife(periods=n, udd=rng.random() < .5)
    c.call('set_interest', o.set_interest, i=i)
    rows = lambda t: {x: [t.get((x, s)) for s in range(n + 1)] for x in range(lo, hi + 1)}
    arg = dict(l=rows(L)) if how == 'l' else dict(l=rows(L), d=rows(D)) if how == 'l+d' else dict(d=rows(D), l={**{x: [None] * n + [L[(x, n)]] for x in range(lo, hi + 1)}})
    c.note(how=how, n=n, i=i, l=L); c.dim(ends=how, periods=n)
    if rng.random() < .5: c.call('ends.fill', o.set_table, **arg)
    else:
        for s in range(n + 1): c.call('ends.fill', o.set_select, s=s, age_selected=True, **{t: {x: r[s] for x, r in a.items() if r[s] is not None} for t, a in arg.items()})
        c.call('ends.fill', o.fill_table)
    for k, w in L.items():
        got = lambda t: (o[t].get(k[0]) or {}).get(k[1])
        c.true('ends.l', got('l') is not None and math.isclose(got('l'), w, rel_tol=1e-6, abs_tol=1e-6), lambda: f'l{k} is {got("l")} instead of {w}')
        if w > 0 and nxt(k) in L:
            p = L[nxt(k)] / w
            c.true('ends.q', got('q') is not None and math.isclose(got('q'), 1 - p, rel_tol=1e-6, abs_tol=1e-8), lambda: f'q{k} is {got("q")} instead of {1 - p}')
            c.true('ends.d', got('d') is not None and math.isclose(got('d'), w * (1 - p), rel_tol=1e-6, abs_tol=1e-6), lambda: f'd{k} is {got("d")} instead of {w * (1 - p)}')
    def S(x, s, t):
        if s > n: x, s = x + s - n, n
        k = (x, s); w = L[k]
        for _ in range(t):
            if not L[k]: return 0.
            k = nxt(k)
        return L[k] / w
    for _ in range(4):
        x = rng.randint(lo, z); s = rng.randint(0, n)
        k, left = (x, s), 0
        while L[k] > 0: k = nxt(k); left += 1
        t = rng.randint(0, left)
        c.value('ends.p_x', S(x, s, t), o.p_x, x, s=s, t=t, rel=1e-6, abs=1e-8)
        c.value('ends.e_x', math.fsum(S(x, s, j) for j in range(1, t + 1)), o.e_x, x, s=s, t=t, rel=1e-6, abs=1e-8)
        if t: c.value('ends.term', math.fsum(v(j + 1) * (S(x, s, j) - S(x, s, j + 1)) for j in range(t)), o.term_insurance, x, s=s, t=t, rel=1e-6, abs=1e-7)
        c.value('ends.whole', math.fsum(v(j + 1) * (S(x, s, j) - S(x, s, j + 1)) for j in range(left)), o.whole_life_insurance, x, s=s, rel=1e-6, abs=1e-7)


def no_deaths(c, rng):
    """years without deaths"""
    T = Truth(rng)
    for _ in range(rng.randint(1, 4)):
        x, s = rng.choice([k for k, _ in T.cells(lambda x, s: 0)]); T.q[x][s] = rng.choice([0, 0.])
    L, D = {}, {}
    w = T.radix
    for x in range(T.lo, T.hi + 1):
        L[(x, T.n)] = w; w *= 1 - T.q[x][T.n]
    for x in range(T.lo, T.hi + 1):
        w = L[(x, T.n)]
        for s in range(T.n - 1, -1, -1): w /= 1 - T.q[x][s]; L[(x, s)] = w
    D = {k: L[k] * T.q[k[0]][k[1]] for k in L}
    cells = list(L)
    o = SelectLife(periods=T.n)
    c.call('set_interest', o.set_interest, i=T.i)
    some = rng.sample(cells, rng.randint(1, len(cells)))
    arg = dict(q={x: [T.q[x][s] for s in range(T.n + 1)] for x in range(T.lo, T.hi + 1)}, d={x: [D[(x, s)] if (x, s) in some else None for s in range(T.n + 1)] for x in range(T.lo, T.hi + 1)})
    e = rng.choice(some)
    if rng.random() < .5: arg['e'] = {e[0]: [rng.uniform(1, 5) if s == e[1] else None for s in range(T.n + 1)]}
    c.note(q=T.q, d=arg['d'], n=T.n, i=T.i); c.dim(none='only' if not any(D[k] for k in some) else 'some')
    c.call('no-deaths.fill', o.set_table, **arg, radix=T.radix)
    got = lambda t, k: (o[t].get(k[0]) or {}).get(k[1])
    for k in cells:
        c.same('no-deaths.q', got('q', k), T.q[k[0]][k[1]], f'q{k}')
        if any(D[j] for j in some): c.true('no-deaths.l', got('l', k) is not None and math.isclose(got('l', k), L[k], rel_tol=1e-6), lambda: f'l{k} is {got("l", k)} instead of {L[k]}')
        if T.q[k[0]][k[1]] == 0 and got('d', k) is not None: c.true('no-deaths.d', abs(got('d', k)) <= 1e-6 * T.radix, lambda: f'd{k} is {got("d", k)}')
    identities(c, 'no-deaths', T, o)
    x = rng.randint(T.lo, T.hi); s = rng.randint(0, T.n)
    t = rng.randint(0, T.left(x, s))
    c.value('no-deaths.p_x', T.S(x, s, t), o.p_x, x, s=s, t=t, rel=1e-9)


GROUPS = [('no_survivors', no_survivors, 200, 4000), ('no_deaths', no_deaths, 200, 4000), ('fill', fill, 2000, 30000), ('queries', queries, 700, 12000)]
QUICK = 10      # scale of the quick tier
THOROUGH = 4      # scale of the thorough tier
