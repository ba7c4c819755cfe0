"""P15 recursion solver"""
import math
from actuarialmath import Recursion
from vmon import gens
from vmon.core import Skip, Abort

RULE = ('A case draws a true mortality model (annual mortality with uniform deaths within years) and interest rate, supplies the solver with a random collection of true facts of all kinds (in random order, split x+s, '
        'random benefit amounts, sometimes correcting an earlier wrong entry) and queries every public function around those ages; each value must equal the truth in the generating model, or be refused. '
        'Rule cases supply exactly the facts of one documented rule and require an answer. Distinct by facts and queries.')
ASSUMPTIONS = ['a query may be refused by returning None or raising', 'interest at least 1% and annual survival at least one half, so that the inverse recursions are well conditioned',
               'integer ages and terms; select duration enters only as attained age x+s, as the solver documents']
W = Recursion.WHOLE
VAR = Recursion.VARIANCE


class Truth:
    def __init__(self, rng):
        self.i = rng.choice([.05, .06, rng.uniform(.01, .25)])
        self.v = 1 / (1 + self.i); self.delta = math.log1p(self.i); self.d = 1 - self.v
        n = rng.randint(14, 45)
        base, slope = rng.uniform(.001, .1), rng.uniform(0, .3)
        self.q = [min(.5, max(.0002, base * math.exp(slope * k * rng.uniform(.8, 1.2)))) for k in range(n)] + [1.]
        self.x0 = rng.choice([0, 0, rng.randint(1, 60)])
        self.n = n

    def qq(self, x):
        k = x - self.x0
        return self.q[k] if k < len(self.q) else 1.

    def p(self, x, t):
        r = 1.
        for j in range(t):
            r *= 1 - self.qq(x + j)
            if r == 0: break
        return r

    def left(self, x): return max(0, self.x0 + len(self.q) - x)
    def term(self, x, t): return self.left(x) if t < 0 else min(t, self.left(x))

    def e(self, x, t=W, curtate=False, moment=1):
        s, pr = 0., 1.
        n = self.term(x, t)
        for k in range(n):
            z = self.qq(x + k)
            if curtate: s += pr * (1 - z) * ((k + 1)**2 - k**2 if moment == 2 else 1)
            else: s += pr * (((k + 1)**2 - k**2 - z * (k + 2 / 3)) if moment == 2 else 1 - z / 2)
            pr *= 1 - z
        return s

    def E(self, x, t, b=1, moment=1):
        p = self.p(x, t)
        if moment == VAR: return (b * self.v**t)**2 * p * (1 - p)
        return p * (b * self.v**t)**moment

    def A(self, x, t=W, u=0, b=1, moment=1, endow=0, discrete=True):
        if moment == VAR: return self.A(x, t, u, b, 2, endow, discrete) - self.A(x, t, u, b, 1, endow, discrete)**2
        s, m = 0., moment
        dm = m * self.delta
        for k in range(u, u + self.term(x + u, t)):
            s += self.p(x, k) * self.qq(x + k) * (self.v**(m * (k + 1)) if discrete else math.exp(-dm * k) * (1 - math.exp(-dm)) / dm)
        s *= b**m
        if t >= 0: s += endow**m * self.v**(m * (u + t)) * self.p(x, u + t)
        return s

    def IA(self, x, t=W, b=1, discrete=True):
        s = 0.
        d, v = self.delta, self.v
        for k in range(self.term(x, t)):
            s += self.p(x, k) * self.qq(x + k) * ((k + 1) * v**(k + 1) if discrete else v**k * (k * (1 - v) / d + (1 - v * (1 + d)) / d**2))
        return s * b

    def DA(self, x, t, b=1, discrete=True):
        return (t + (1 if discrete else 0)) * self.A(x, t, b=b, discrete=discrete) - self.IA(x, t, b, discrete)

    def a(self, x, t=W, u=0, b=1, discrete=True, variance=False):
        if variance:
            A1, A2 = (self.A(x, t, moment=m, endow=1, discrete=discrete) for m in (1, 2))
            return b**2 * (A2 - A1**2) / (self.d if discrete else self.delta)**2
        s, d, v = 0., self.delta, self.v
        for k in range(u, u + self.term(x + u, t)):
            z = self.qq(x + k)
            s += self.p(x, k) * v**k * (1 if discrete else (1 - v) / d - z * (1 - v * (1 + d)) / d**2)
        return s * b


def split(rng, x):
    s = rng.choice([0, 0, 0, 1, 2, 3])
    return (x - s, s) if x - s >= 0 else (x, 0)


def amount(rng): return rng.choice([1, 1, 1, 1000, 100000, 2, rng.uniform(.1, 5000)])
def span(rng, whole=True): return rng.choice(([W, W] if whole else []) + [1, 1, 2, 2, 3, 4, 5, rng.randint(5, 12)])


FACTS = ('q', 'q', 'p', 'p', 'e', 'E', 'A', 'A', 'A', 'IA', 'DA', 'a', 'a', 'a')


def fact(rng, T, x):
    """one true fact about age x: (setter, value, kwargs)"""
    k = rng.choice(FACTS)
    if k == 'q':
        t, u = rng.choice([1, 1, 1, 2, 3, 5]), rng.choice([0, 0, 0, 1, 2])
        return k, T.p(x, u) - T.p(x, u + t), dict(t=t, u=u)
    if k == 'p':
        t = rng.choice([1, 1, 1, 2, 3, 5, 10])
        return k, T.p(x, t), dict(t=t)
    if k == 'e':
        kw = dict(t=span(rng), curtate=rng.random() < .5, moment=rng.choice([1, 1, 1, 2]))
        return k, T.e(x, **kw), kw
    if k == 'E':
        t, b, m = span(rng, False), amount(rng), rng.choice([1, 1, 1, 2, VAR])
        return k, T.E(x, t, b, m), dict(t=t, endowment=b, moment=m)
    if k == 'A':
        t, b, m = span(rng), amount(rng), rng.choice([1, 1, 1, 2])
        kw = dict(t=t, b=b, moment=m, discrete=rng.random() < .8)
        if t > 0 and rng.random() < .5:
            how = rng.choice(['equal', 'default', 'other'])
            e = b if how != 'other' else amount(rng)
            return k, T.A(x, t, 0, b, m, e, kw['discrete']), dict(kw, endowment=-1 if how == 'default' else e)
        u = rng.choice([0, 0, 0, 1, 2, 5])
        return k, T.A(x, t, u, b, m, 0, kw['discrete']), dict(kw, u=u)
    if k in ('IA', 'DA'):
        t, b, dc = span(rng, k == 'IA'), amount(rng), rng.random() < .8
        return k, (T.IA if k == 'IA' else T.DA)(x, t, b, dc), dict(t=t, b=b, discrete=dc)
    t, b, dc = span(rng), amount(rng), rng.random() < .8
    if rng.random() < .15: return k, T.a(x, t, 0, b, dc, True), dict(t=t, b=b, discrete=dc, variance=True)
    u = rng.choice([0, 0, 0, 1, 2, 5])
    return k, T.a(x, t, u, b, dc), dict(t=t, u=u, b=b, discrete=dc)


def put(c, life, rng, T, f, x):
    k, val, kw = f
    X, s = split(rng, x)
    if rng.random() < .06:                               # an entry corrected later
        c.call('recursion.set', getattr(life, 'set_' + k), val * rng.uniform(.1, 3), x=X, s=s, **kw)
        X, s = split(rng, x)
    r = c.call('recursion.set', getattr(life, 'set_' + k), val, x=X, s=s, **kw)
    c.true('recursion.set-chains', r is life, 'setter must return the solver')


def queries(T, x, rng):
    """(name, function, kwargs, truth)"""
    b, m = amount(rng), rng.choice([1, 1, 2, VAR])
    t, tw, u = span(rng, False), span(rng), rng.choice([0, 1, 2, 3, 5])
    if rng.random() < .12: b = 0
    if rng.random() < .12: t = 0
    if rng.random() < .08: tw = 0
    dc = rng.random() < .85
    yield 'q_x', dict(t=t, u=u), T.p(x, u) - T.p(x, u + t)
    yield 'p_x', dict(t=t), T.p(x, t)
    yield 'p_x', dict(t=1), T.p(x, 1)
    cu, em = rng.random() < .5, rng.choice([1, 1, 1, 2])
    yield 'e_x', dict(t=tw, curtate=cu, moment=em), T.e(x, tw, cu, em)
    yield 'E_x', dict(t=t, endowment=b, moment=m), T.E(x, t, b, m)
    yield 'increasing_insurance', dict(t=tw, b=b, discrete=dc), T.IA(x, tw, b, dc)
    yield 'decreasing_insurance', dict(t=t, b=b, discrete=dc), T.DA(x, t, b, dc)
    yield 'whole_life_insurance', dict(b=b, moment=m, discrete=dc), T.A(x, W, 0, b, m, 0, dc)
    yield 'term_insurance', dict(t=t, b=b, moment=m, discrete=dc), T.A(x, t, 0, b, m, 0, dc)
    yield 'deferred_insurance', dict(t=tw, u=u, b=b, moment=m, discrete=dc), T.A(x, tw, u, b, m, 0, dc)
    e = rng.choice([-1, b, b, amount(rng)])
    yield 'endowment_insurance', dict(t=t, b=b, moment=m, discrete=dc, endowment=e), T.A(x, t, 0, b, m, b if e < 0 else e, dc)
    va = rng.random() < .2
    yield 'whole_life_annuity', dict(b=b, discrete=dc, variance=va), T.a(x, W, 0, b, dc, va)
    yield 'temporary_annuity', dict(t=t, b=b, discrete=dc, variance=va), T.a(x, t, 0, b, dc, va)
    yield 'deferred_annuity', dict(t=tw, u=u, b=b, discrete=dc), T.a(x, tw, u, b, dc)


REFUSE = (TypeError, AssertionError, ZeroDivisionError, ArithmeticError, Exception)


def ask(c, key, life, name, x, s, kw):
    """value, or None when the solver refuses"""
    c.stats.events += 1
    try:
        r = getattr(life, name)(x, s=s, **kw)
    except (NameError, AttributeError, KeyError, IndexError) as e:      # not a refusal: a broken step
        c.violate(key + '.broken', f'{name}({x}, s={s}, {kw}) raised {type(e).__name__}: {e}')
        return None
    except REFUSE as e:
        r = None
    c.log.append(f'{name}({x},s={s},{kw}) -> {r}')
    return r


def tol(want, kw): return 2e-7 * (abs(want) + max(kw.get('b', 0), kw.get('endowment', 0), 1)**(2 if kw.get('moment', 1) != 1 or kw.get('variance') else 1))


def judge(c, name, got, want, kw):
    if got is None:
        c.dim(outcome='refused'); return
    c.dim(outcome='answered', query=name)
    c.close(f'recursion.{name}', got, want, rel=1e-7, abs=tol(want, kw), what=str(kw))


class Display:
    """display options never matter, but they are part of the state"""
    def __init__(self, rng): self.latex, self.nb = rng.random() < .3, rng.random() < .2
    def __enter__(self): Recursion.blog_options(latex=self.latex, notebook=self.nb)
    def __exit__(self, *a): Recursion.blog_options(latex=False, notebook=False)


def solver(rng, T, depth=None):
    return Recursion(depth=depth or rng.choice([3, 3, 3, 1, 2]), verbose=rng.random() < .3).set_interest(**rng.choice([dict(i=T.i), dict(delta=T.delta), dict(v=T.v), dict(d=T.d)]))


def facts(c, rng):
    T = Truth(rng)
    life = solver(rng, T)
    x = T.x0 + rng.randint(3, 6)
    many = rng.random()
    F = []
    if many < .25:                                  # a stretch of mortality and more
        n = rng.randint(3, 8)
        F += [(('q', T.qq(x + j), dict(t=1, u=0)), x + j) for j in range(n)]
    F += [(fact(rng, T, x + y), x + y) for y in [rng.choice([0, 0, 1, 1, -1, 2, 3]) for _ in range(rng.choice([1, 2, 3, 4, 6, 10]))]]
    rng.shuffle(F)
    c.note(i=T.i, x=x, q=T.q[:12], facts=[(f[0], y, f[2]) for f, y in F], depth=life.maxdepth)
    c.dim(facts=len(F) // 3 * 3)
    with Display(rng):
        if rng.random() < .2:                        # entries withdrawn again are forgotten
            for _ in range(rng.randint(1, 3)):
                k, y = rng.choice(['q', 'p', 'e']), x + rng.choice([0, 0, 1, -1])
                kw = dict(t=rng.choice([1, 1, 2])) if k != 'e' else dict(t=span(rng), curtate=rng.random() < .5)
                X, s = split(rng, y); c.call('recursion.set', getattr(life, 'set_' + k), rng.uniform(.1, .9), x=X, s=s, **kw)
                if rng.random() < .3: c.call('recursion.set', getattr(life, 'set_' + k), rng.uniform(.1, .9), x=y, **kw)
                X, s = split(rng, y); c.call('recursion.set', getattr(life, 'set_' + k), None, x=X, s=s, **kw)
                c.note(withdrawn=(k, y, kw)); c.dim(withdrawn=k)
        for f, y in F: put(c, life, rng, T, f, y)
        asked = []
        for _ in range(rng.choice([2, 3])):
            y = x + rng.choice([0, 0, 0, 1, 1, -1, 2])
            for name, kw, want in queries(T, y, rng):
                if name == 'e_x' and life.maxdepth > 1 and (life.maxdepth > 2 or rng.random() < .8): continue    # minutes when it has to be refused
                X, s = split(rng, y)
                got = ask(c, f'recursion.{name}', life, name, X, s, kw)
                judge(c, name, got, want, kw)
                asked.append((name, y, kw, got))
        # facts given are returned as given, at any amount
        for f, y in rng.sample(F, min(3, len(F))):
            again(c, rng, T, life, f, y)
    # other order, same answers
    other = solver(rng, T, depth=life.maxdepth)
    G = F[:]; rng.shuffle(G)
    for f, y in G: put(c, other, rng, T, f, y)
    for name, y, kw, got in rng.sample(asked, min(8, len(asked))):
        X, s = split(rng, y)
        r = ask(c, f'recursion.{name}', other, name, X, s, kw)
        c.true('recursion.order', (r is None) == (got is None), lambda: f'{name}({y},{kw}) gave {got} or {r} depending on the order of facts')


NAME = dict(q='q_x', p='p_x', e='e_x', E='E_x', IA='increasing_insurance', DA='decreasing_insurance')


def again(c, rng, T, life, f, y):
    """a fact supplied is found again, whatever the benefit amount then asked"""
    k, val, kw = f
    kw = dict(kw)
    r = rng.choice([1, 2, 1000, rng.uniform(.1, 10)])
    if kw.get('endowment', -1) not in (-1, 0, kw.get('b')): r = rng.choice([1, 2, .5, 64])      # facts are keyed by the ratio of endowment to benefit
    m = kw.get('moment', 1)
    if k in ('IA', 'DA'): kw['b'] *= r
    if k == 'E': kw['endowment'] *= r
    if k in ('A', 'a'):
        kw['b'] *= r
        if kw.get('endowment', 0) > 0: kw['endowment'] *= r
    pw = 2 if m in (2, VAR) or kw.get('variance') else 1
    want = val * r**pw if k not in ('q', 'p', 'e') else val
    if k == 'A':
        u, t, e = kw.pop('u', 0), kw['t'], kw.get('endowment', 0)
        if 'endowment' in kw and t > 0: name = 'endowment_insurance'
        elif u > 0: name = 'deferred_insurance'; kw['u'] = u
        elif t < 0: name = 'whole_life_insurance'; kw.pop('t')
        else: name = 'term_insurance'
        if name != 'endowment_insurance': kw.pop('endowment', 0)
    elif k == 'a':
        u, va = kw.pop('u', 0), kw.get('variance', False)
        if u > 0: name = 'deferred_annuity'; kw['u'] = u
        elif kw['t'] < 0: name = 'whole_life_annuity'; kw.pop('t')
        else: name = 'temporary_annuity'
    else: name = NAME[k]
    X, s = split(rng, y)
    got = c.call(f'recursion.{name}', getattr(life, name), X, s=s, **kw)
    c.close('recursion.fact-returned.' + k, got, want, rel=1e-7, abs=tol(want, kw), what=f'{name} {kw}')


def truth(T, k, y, kw):
    """the true value of any fact"""
    kw = dict(kw); b = kw.pop('b', 1); t = kw.pop('t'); u = kw.pop('u', 0); m = kw.pop('moment', 1); e = kw.pop('endowment', None)
    dc = kw.pop('discrete', True)
    if k == 'q': return T.p(y, u) - T.p(y, u + t)
    if k == 'p': return T.p(y, t)
    if k == 'e': return T.e(y, t, kw['curtate'], m)
    if k == 'E': return T.E(y, t, e, m)
    if k == 'IA': return T.IA(y, t, b, dc)
    if k == 'DA': return T.DA(y, t, b, dc)
    if k == 'A': return T.A(y, t, u, b, m, b if (e or 0) < 0 else e or 0, dc)
    return T.a(y, t, u, b, dc, kw.get('variance', False))


def neighbours(rng, T, F):
    """true facts like those of F but about nearby ages, terms and deferrals: they may help, and never mislead"""
    out = []
    have = {(k, y, tuple(sorted((a, z) for a, z in kw.items() if a not in ('b', 'endowment')))) for k, _, y, kw in F}
    for k, _, y, kw in F:
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            kw2, y2 = dict(kw), y + rng.choice([-2, -1, -1, 0, 0, 1, 1, 2, kw['t'] if kw['t'] > 0 else 1])
            if y2 < T.x0: continue
            if kw['t'] > 0: kw2['t'] = max(1, kw['t'] + rng.choice([-1, 0, 0, 1, 1, 2]))
            elif rng.random() < .3 and k in ('e', 'A', 'a') and not kw.get('variance'): kw2['t'] = rng.randint(1, 4)
            if 'u' in kw and rng.random() < .3: kw2['u'] = rng.randint(0, 3)
            if 'discrete' in kw and rng.random() < .1: kw2['discrete'] = not kw['discrete']
            if kw.get('moment') in (1, 2) and rng.random() < .1: kw2['moment'] = 3 - kw['moment']
            sig = (k, y2, tuple(sorted((a, z) for a, z in kw2.items() if a not in ('b', 'endowment'))))
            if sig in have: continue
            have.add(sig)
            out.append((k, truth(T, k, y2, kw2), y2, kw2))
    return out


# -- documented rules, each from exactly the facts it needs ---------------------------
def rule_table(rng, T, x):
    """rule -> (facts, query, arguments, truth)"""
    b, t, u, m = amount(rng), rng.randint(2, 6), rng.randint(1, 5), rng.choice([1, 2])
    e = rng.choice([b, amount(rng)])
    tw = rng.choice([W, t])
    nx = lambda t, k: t if t < 0 else t + k
    dc = rng.random() < .7
    P = lambda y, t=1: ('p', T.p(y, t), y, dict(t=t))
    Q = lambda y, t=1, u=0: ('q', T.p(y, u) - T.p(y, t + u), y, dict(t=t, u=u))
    def A(y, t=W, b=None, m=m, endow=0, discrete=True):
        b = amount(rng) if b is None else b
        e = endow * b
        return ('A', T.A(y, t, 0, b, m, e, discrete), y, dict(t=t, b=b, moment=m, endowment=e, discrete=discrete))
    def a(y, t=W, u=0, discrete=True):
        b = amount(rng)
        return ('a', T.a(y, t, u, b, discrete), y, dict(t=t, u=u, b=b, discrete=discrete))
    def E(y, t=1, m=1):
        b = amount(rng)
        return ('E', T.E(y, t, b, m), y, dict(t=t, endowment=b, moment=m))
    def ee(y, t=W): return ('e', T.e(y, t, cu), y, dict(t=t, curtate=cu, moment=1))
    def IA(y, t): k = amount(rng); return ('IA', T.IA(y, t, k, dc), y, dict(t=t, b=k, discrete=dc))
    def DA(y, t): k = amount(rng); return ('DA', T.DA(y, t, k, dc), y, dict(t=t, b=k, discrete=dc))
    cu = rng.random() < .5
    pq = lambda y: rng.choice([P, Q])(y)
    tt = rng.choice([W, 2, 3, 4])
    u2 = rng.randint(2, 3)
    R = {
        'complement-of-mortality': ([Q(x, t)], 'p_x', dict(t=t), T.p(x, t)),
        'complement-of-survival': ([P(x, t)], 'q_x', dict(t=t), 1 - T.p(x, t)),
        'defer-mortality': ([P(x, u), Q(x + u, t)], 'q_x', dict(t=t, u=u), T.p(x, u) - T.p(x, u + t)),
        'limit-mortality': ([Q(x, u), Q(x, u + t)], 'q_x', dict(t=t, u=u), T.p(x, u) - T.p(x, u + t)),
        'difference-of-survival': ([P(x, u), P(x, u + t)], 'q_x', dict(t=t, u=u), T.p(x, u) - T.p(x, u + t)),
        'chain-first': ([pq(x), P(x + 1, t - 1)], 'p_x', dict(t=t), T.p(x, t)),
        'chain-last': ([P(x, t - 1), pq(x + t - 1)], 'p_x', dict(t=t), T.p(x, t)),
        'unchain-first': ([P(x - 1, t + 1), pq(x - 1)], 'p_x', dict(t=t), T.p(x, t)),
        'unchain-last': ([P(x, t + 1), pq(x + t)], 'p_x', dict(t=t), T.p(x, t)),
        'survival-from-endowment': ([E(x)], 'p_x', dict(t=1), T.p(x, 1)),
        'survival-from-annuities': ([a(x, tt), a(x + 1, nx(tt, -1))], 'p_x', dict(t=1), T.p(x, 1)),
        'survival-from-insurances': ([A(x, tt, m=1), A(x + 1, nx(tt, -1), m=1)], 'p_x', dict(t=1), T.p(x, 1)),
        'survival-from-endowments': ([A(x, abs(tt) % 5 or 2, m=1, endow=1), A(x + 1, (abs(tt) % 5 or 2) - 1, m=1, endow=1)], 'p_x', dict(t=1), T.p(x, 1)) if tt > 0 else None,
        'one-year-curtate': ([pq(x)], 'e_x', dict(t=1, curtate=True), T.p(x, 1)),
        'temporary-lifetime': ([ee(x), ee(x + t), P(x, t)], 'e_x', dict(t=t, curtate=cu), T.e(x, t, cu)),
        'lifetime-backward': ([ee(x, u), P(x, u), ee(x + u, nx(tw, 0))], 'e_x', dict(t=nx(tw, u), curtate=cu), T.e(x, nx(tw, u), cu)),
        'lifetime-from-longer': ([ee(x, t + u), P(x, t), ee(x + t, u)], 'e_x', dict(t=t, curtate=cu), T.e(x, t, cu)),
        'lifetime-forward': ([ee(x - 1, 1), P(x - 1), ee(x - 1, nx(tw, 1))], 'e_x', dict(t=tw, curtate=cu), T.e(x, tw, cu)),
        'lifetime-forward-years': ([ee(x - u2, u2), P(x - u2, u2), ee(x - u2, nx(tw, u2))], 'e_x', dict(t=tw, curtate=cu), T.e(x, tw, cu)),
        'endowment-moments': ([E(x, t)], 'E_x', dict(t=t, endowment=b, moment=2), T.E(x, t, b, 2)),
        'endowment-from-survival': ([P(x, t)], 'E_x', dict(t=t, endowment=b, moment=rng.choice([1, 2, VAR])), None),
        'endowment-less-term': ([A(x, t), A(x, t, endow=1)], 'E_x', dict(t=t, endowment=b, moment=m), T.E(x, t, b, m)),
        'endowment-chain': ([E(x, 1, m), E(x + 1, t - 1, m)], 'E_x', dict(t=t, endowment=b, moment=m), T.E(x, t, b, m)),
        'increasing-identity': ([A(x, t, m=1, discrete=dc), DA(x, t)], 'increasing_insurance', dict(t=t, b=b, discrete=dc), T.IA(x, t, b, dc)),
        'decreasing-identity': ([A(x, t, m=1, discrete=dc), IA(x, t)], 'decreasing_insurance', dict(t=t, b=b, discrete=dc), T.DA(x, t, b, dc)),
        'term-plus-endowment': ([A(x, t, m=m, discrete=dc), E(x, t, m)], 'endowment_insurance', dict(t=t, b=b, endowment=e, moment=m, discrete=dc), T.A(x, t, 0, b, m, e, dc)),
        'endowment-less-pure': ([A(x, t, m=m, endow=1, discrete=dc), E(x, t, m)], 'term_insurance', dict(t=t, b=b, moment=m, discrete=dc), T.A(x, t, 0, b, m, 0, dc)),
        'one-year-term': ([pq(x)], 'term_insurance', dict(t=1, b=b, moment=m), T.A(x, 1, 0, b, m)),
        'one-year-endowment': ([], 'endowment_insurance', dict(t=1, b=b, moment=m), (T.v * b)**m),
        'insurance-backward': ([pq(x), A(x + 1, nx(tw, -1) if tw < 0 or tw > 1 else 1)], *(('whole_life_insurance', dict(b=b, moment=m)) if tw < 0 else ('term_insurance', dict(t=t, b=b, moment=m))), T.A(x, tw, 0, b, m)),
        'insurance-forward': ([pq(x - 1), A(x - 1, nx(tw, 1))], *(('whole_life_insurance', dict(b=b, moment=m)) if tw < 0 else ('term_insurance', dict(t=t, b=b, moment=m))), T.A(x, tw, 0, b, m)),
        'endowment-backward': ([pq(x), A(x + 1, t, endow=1)], 'endowment_insurance', dict(t=t + 1, b=b, moment=m), T.A(x, t + 1, 0, b, m, b)),
        'insurance-twin': ([a(x, discrete=dc)], 'whole_life_insurance', dict(b=b, discrete=dc), T.A(x, b=b, discrete=dc)),
        'endowment-twin': ([a(x, t, discrete=dc)], 'endowment_insurance', dict(t=t, b=b, discrete=dc), T.A(x, t, 0, b, 1, b, dc)),
        'deferred-insurance': ([E(x, u, m), A(x + u, tw, discrete=dc)], 'deferred_insurance', dict(t=tw, u=u, b=b, moment=m, discrete=dc), T.A(x, tw, u, b, m, 0, dc)),
        'one-year-annuity': ([], 'temporary_annuity', dict(t=1, b=b), b),
        'annuity-backward': ([rng.choice([E(x), pq(x)]), a(x + 1, nx(tw, -1))], *(('whole_life_annuity', dict(b=b)) if tw < 0 else ('temporary_annuity', dict(t=t, b=b))), T.a(x, tw, 0, b)),
        'annuity-forward': ([rng.choice([E(x - 1), pq(x - 1)]), a(x - 1, nx(tw, 1))], *(('whole_life_annuity', dict(b=b)) if tw < 0 else ('temporary_annuity', dict(t=t, b=b))), T.a(x, tw, 0, b)),
        'annuity-twin': ([A(x, m=1, discrete=dc)], 'whole_life_annuity', dict(b=b, discrete=dc), T.a(x, W, 0, b, dc)),
        'temporary-twin': ([A(x, t, m=1, endow=1, discrete=dc)], 'temporary_annuity', dict(t=t, b=b, discrete=dc), T.a(x, t, 0, b, dc)),
        'annuity-variance': ([A(x, m=1, discrete=dc), A(x, m=2, discrete=dc)], 'whole_life_annuity', dict(b=b, discrete=dc, variance=True), T.a(x, W, 0, b, dc, True)),
        'temporary-variance': ([A(x, t, m=1, endow=1, discrete=dc), A(x, t, m=2, endow=1, discrete=dc)], 'temporary_annuity', dict(t=t, b=b, discrete=dc, variance=True), T.a(x, t, 0, b, dc, True)),
        'insurance-variance': ([A(x, m=1, discrete=dc), A(x, m=2, discrete=dc)], 'whole_life_insurance', dict(b=b, discrete=dc, moment=VAR), T.A(x, W, 0, b, VAR, 0, dc)),
        'term-variance': ([A(x, t, m=1, discrete=dc), A(x, t, m=2, discrete=dc)], 'term_insurance', dict(t=t, b=b, discrete=dc, moment=VAR), T.A(x, t, 0, b, VAR, 0, dc)),
        'deferred-annuity-difference': ([a(x, discrete=dc), a(x, u, discrete=dc)], 'deferred_annuity', dict(u=u, b=b, discrete=dc), T.a(x, W, u, b, dc)),
        'deferred-annuity-terms': ([a(x, u + t, discrete=dc), a(x, u, discrete=dc)], 'deferred_annuity', dict(u=u, t=t, b=b, discrete=dc), T.a(x, t, u, b, dc)),
        'deferred-annuity-backward': ([E(x), a(x + 1, tw, u, dc)], 'deferred_annuity', dict(u=u + 1, t=tw, b=b, discrete=dc), T.a(x, tw, u + 1, b, dc)),
        'deferred-annuity-forward': ([E(x - 1), a(x - 1, tw, u + 1, dc)], 'deferred_annuity', dict(u=u, t=tw, b=b, discrete=dc), T.a(x, tw, u, b, dc)),
        'deferred-annuity-endowment': ([E(x, u), a(x + u, tw, 0, dc)], 'deferred_annuity', dict(u=u, t=tw, b=b, discrete=dc), T.a(x, tw, u, b, dc)),
    }
    if dc:
        R['increasing-backward'] = ([A(x, tw, m=1), IA(x + 1, nx(tw, -1)), P(x)], 'increasing_insurance', dict(t=tw, b=b), T.IA(x, tw, b))
        R['decreasing-backward'] = ([DA(x + 1, t - 1), P(x)], 'decreasing_insurance', dict(t=t, b=b), T.DA(x, t, b))
    return {k: (r[0], r[1], r[2], T.E(x, t, b, r[2]['moment']) if r[3] is None else r[3]) for k, r in R.items() if r}


def rules(c, rng):
    T = Truth(rng)
    x = T.x0 + rng.randint(3, 5)
    R = rule_table(rng, T, x)
    for rule in rng.sample(sorted(R), 8):
        F, name, kw, want = R[rule]
        life = solver(rng, T, depth=1 if name == 'e_x' else rng.choice([2, 3, 3]))
        F = F[:]
        busy = rng.random() < .5
        if busy: F += neighbours(rng, T, F)
        rng.shuffle(F)
        c.dim(busy=busy)
        c.note(i=T.i, x=x, q=T.q[:12], rule=rule, facts=F, query=name, kw=kw)
        c.dim(rule=rule)
        with Display(rng):
            for k, val, y, a_ in F: put(c, life, rng, T, (k, val, a_), y)
            X, s = split(rng, x)
            got = c.call('recursion.rule.' + rule, getattr(life, name), X, s=s, **kw)
            c.close('recursion.rule.' + rule, got, want, rel=1e-7, abs=tol(want, kw), what=f'{name} {kw}')


FAMILIES = [('q', 'p'), ('q', 'p', 'E'), ('e', 'p'), ('E', 'A', 'p'), ('A', 'q'), ('a', 'E'), ('a', 'q'), ('IA', 'DA', 'A', 'p'), ('A', 'a'), ('A', 'E'), ('a', 'p', 'e'), ('A', 'a', 'q', 'E')]


def dense(c, rng):
    """many facts of few kinds about few ages, terms and deferrals: rules must take the facts they need, not their neighbours"""
    T = Truth(rng)
    x = T.x0 + 2
    kinds = rng.choice(FAMILIES)
    depth = rng.choice([1, 2, 2, 3]) if 'e' not in kinds else 1
    life = solver(rng, T, depth=depth)
    F, seen = [], set()
    m, dc = rng.choice([1, 1, 2]), rng.random() < .8
    for _ in range(rng.randint(2, 14)):
        k, y = rng.choice(kinds), x + rng.choice([-1, 0, 0, 0, 1, 1, 2])
        t, u = rng.choice([1, 1, 2, 2, 3, W]), rng.choice([0, 0, 0, 1, 2, 3])
        if t < 0 and k in ('q', 'p', 'E', 'DA'): t = 4
        kw = dict(t=t)
        if k == 'q': kw['u'] = u
        if k == 'e': kw.update(curtate=rng.random() < .7, moment=rng.choice([1, 1, 1, 2]))
        if k == 'E': kw.update(endowment=amount(rng), moment=m if rng.random() < .8 else rng.choice([1, 2, VAR]))
        if k in ('A', 'a', 'IA', 'DA'): kw.update(b=amount(rng), discrete=dc if rng.random() < .9 else not dc)
        if k == 'A':
            kw['moment'] = m if rng.random() < .8 else 3 - m
            if t > 0 and rng.random() < .45: kw['endowment'] = rng.choice([kw['b'], kw['b'], -1, kw['b'] * rng.choice([2, .5])])
            elif t > 0 and rng.random() < .15: kw.update(b=0, endowment=amount(rng))      # no death benefit: a pure endowment
            elif u: kw['u'] = u
        if k == 'a':
            if rng.random() < .1: kw['variance'] = True
            elif u: kw['u'] = u
        sig = (k, y, tuple(sorted((a, z) for a, z in kw.items() if a not in ('b', 'endowment'))))
        if sig in seen: continue
        seen.add(sig)
        F.append(((k, truth(T, k, y, kw), kw), y))
    c.note(i=T.i, x=x, q=T.q[:8], facts=[(f[0], y, f[2]) for f, y in F], depth=depth); c.dim(family='+'.join(kinds), dense=len(F) // 3 * 3)
    with Display(rng):
        for f, y in F: put(c, life, rng, T, f, y)
        for _ in range(2):
            for y in (x, x + 1, x - 1, x + 2):
                b = amount(rng)
                t, tw, u = rng.choice([1, 2, 2, 3, 4]), rng.choice([W, 1, 2, 3]), rng.choice([0, 1, 2, 3])
                e = rng.choice([-1, b, 0, b * 2])
                cu = rng.random() < .6
                Q = []
                if {'q', 'p'} & set(kinds) or 'E' in kinds: Q += [('q_x', dict(t=t, u=u), T.p(y, u) - T.p(y, u + t)), ('p_x', dict(t=t), T.p(y, t))]
                if 'e' in kinds: Q += [('e_x', dict(t=tw, curtate=cu), T.e(y, tw, cu, 1))]
                if 'E' in kinds or 'p' in kinds or 'A' in kinds: Q += [('E_x', dict(t=t, endowment=b, moment=m), T.E(y, t, b, m))]
                if 'A' in kinds:
                    Q += [('whole_life_insurance', dict(b=b, moment=m, discrete=dc), T.A(y, W, 0, b, m, 0, dc)), ('term_insurance', dict(t=t, b=b, moment=m, discrete=dc), T.A(y, t, 0, b, m, 0, dc)),
                          ('deferred_insurance', dict(t=tw, u=u, b=b, moment=m, discrete=dc), T.A(y, tw, u, b, m, 0, dc)), ('endowment_insurance', dict(t=t, b=b, moment=m, discrete=dc, endowment=e), T.A(y, t, 0, b, m, b if e < 0 else e, dc))]
                if 'a' in kinds or 'A' in kinds:
                    Q += [('whole_life_annuity', dict(b=b, discrete=dc), T.a(y, W, 0, b, dc)), ('temporary_annuity', dict(t=t, b=b, discrete=dc), T.a(y, t, 0, b, dc)), ('deferred_annuity', dict(t=tw, u=u, b=b, discrete=dc), T.a(y, tw, u, b, dc))]
                if 'IA' in kinds: Q += [('increasing_insurance', dict(t=tw, b=b, discrete=dc), T.IA(y, tw, b, dc)), ('decreasing_insurance', dict(t=t, b=b, discrete=dc), T.DA(y, t, b, dc))]
                for name, kw, want in Q:
                    X, s = split(rng, y)
                    judge(c, name, ask(c, f'recursion.{name}', life, name, X, s, kw), want, kw)


def lifetime_facts(rng, T, x, deep=.02):
    """many lifetimes and survivals over a few ages and terms, so that every lifetime rule finds what it needs in several ways"""
    cu = rng.random() < .6
    if rng.random() < deep:                  # a longer term and what lies beyond the term asked
        t, k, j = rng.randint(2, 3), rng.randint(1, 2), rng.randint(1, 2)
        F = [('e', T.e(y, n, cu), y, dict(t=n, curtate=cu, moment=1)) for y, n in ((x, t + k), (x + t, k), (x + t - j, j))]
        F += [('p', T.p(y, n), y, dict(t=n)) for y, n in {(x, t + k), (x + t, k), (x + t - j, j), (x, t)}]
        rng.shuffle(F)
        return F, [('e_x', dict(t=t, curtate=cu), x)], 3
    F = {}
    for _ in range(rng.randint(3, 14)):
        y = x + rng.choice([-2, -1, 0, 0, 1, 2, 3])
        t = rng.choice([1, 1, 2, 2, 3, 4, 5, W])
        if rng.random() < .5: F['e', y, t] = ('e', T.e(y, t, cu), y, dict(t=t, curtate=cu, moment=1))
        else:
            t = t if t > 0 else 3
            F['p', y, t] = ('p', T.p(y, t), y, dict(t=t))
    F = list(F.values()); rng.shuffle(F)
    Q = [('e_x', dict(t=rng.choice([0, 1, 2, 3, 3, 4, 5, W]), curtate=cu), x + rng.choice([-1, 0, 0, 1])) for _ in range(3)]
    return F, Q, rng.choice([1, 1, 2])


def lifetimes(c, rng):
    T = Truth(rng)
    x = T.x0 + 2
    F, Q, depth = lifetime_facts(rng, T, x)
    life = solver(rng, T, depth=depth)
    c.note(i=T.i, x=x, q=T.q[:10], facts=F, queries=Q, depth=depth)
    with Display(rng):
        for k, v, y, kw in F: put(c, life, rng, T, (k, v, kw), y)
        for name, kw, y in Q:
            X, s = split(rng, y)
            judge(c, name, ask(c, 'recursion.e_x', life, name, X, s, kw), T.e(y, kw['t'], kw['curtate']), kw)


GROUPS = [('lifetimes', lifetimes, 80, 2000), ('dense', dense, 800, 20000), ('facts', facts, 400, 6000), ('rules', rules, 600, 12000)]
QUICK = 3      # scale of the quick tier
