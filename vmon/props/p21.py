"""P21 numerical helpers"""
import math
from actuarialmath import Actuarial, Life, Premiums, SULT, Recursion, Lifetime, LifeTable, SelectLife
from vmon import ref
from vmon.core import Skip

RULE = ('A case draws a smooth function with known integral, derivative or root (polynomials, exponentials, rational functions, piecewise mixtures) or a '
        'random age/term/deferral, calls the helper on it through different model classes and records every evaluation of the supplied function.')
ASSUMPTIONS = ['root finding is exercised on functions with a single simple root inside the given range']
HOSTS = [Actuarial, Life, Premiums, Recursion]


def fam(rng):
    """(name, f, F, f') with antiderivative and derivative"""
    k = rng.choice(['poly', 'exp', 'rat', 'gomp', 'sin', 'power'])
    a, b, d = rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-1, 1)
    r = rng.uniform(.01, .15); w = rng.uniform(110, 150)
    if k == 'poly':
        return (k, a, b, d), (lambda t: a + b * t + d * t * t), (lambda t: a * t + b * t * t / 2 + d * t ** 3 / 3), (lambda t: b + 2 * d * t)
    if k == 'exp':
        return (k, a, r), (lambda t: a * math.exp(-r * t)), (lambda t: -a / r * math.exp(-r * t)), (lambda t: -a * r * math.exp(-r * t))
    if k == 'rat':
        return (k, a, w), (lambda t: a / (w - t)), (lambda t: -a * math.log(w - t)), (lambda t: a / (w - t) ** 2)
    if k == 'gomp':
        return (k, a, r), (lambda t: a * math.exp(r * t)), (lambda t: a / r * math.exp(r * t)), (lambda t: a * r * math.exp(r * t))
    if k == 'sin':
        return (k, a, r), (lambda t: a * math.sin(r * t)), (lambda t: -a / r * math.cos(r * t)), (lambda t: a * r * math.cos(r * t))
    return (k, a), (lambda t: a * (t + 2) ** 1.5), (lambda t: a * (t + 2) ** 2.5 / 2.5), (lambda t: 1.5 * a * (t + 2) ** .5)


def host(rng):
    h = rng.choice(HOSTS)
    return h if rng.random() < .5 else (h() if h is not Recursion else Recursion(verbose=False))


def integrate(c, rng):
    name, f, F, _ = fam(rng)
    lo, hi = rng.choice([0, rng.uniform(0, 40)]), rng.uniform(0, 100)
    if rng.random() < .2: lo, hi = hi, lo
    c.note(f=name, lo=lo, hi=hi); c.dim(f=name[0])
    w = F(hi) - F(lo)
    c.value('integral', w, host(rng).integral, f, lower=lo, upper=hi, rel=1e-6, abs=1e-7)
    c.value('integral', w, host(rng).integral, f, lo, hi, rel=1e-6, abs=1e-7)
    c.value('integral.empty', 0., host(rng).integral, f, lo, lo)


def differentiate(c, rng):
    name, f, _, df = fam(rng)
    x = rng.choice([rng.uniform(0, 100), rng.randint(0, 100)])
    c.note(f=name, x=x); c.dim(f=name[0])
    w = df(x)
    g = c.value('derivative', w, host(rng).derivative, f, x, rel=1e-4, abs=1e-6)
    c.true('derivative.scalar', g is None or isinstance(g, float))
    c.value('derivative', w, host(rng).derivative, fun=f, x=x, rel=1e-4, abs=1e-6)


def mono(rng):
    """monotone function with its inverse"""
    k = rng.choice(['lin', 'exp', 'inv', 'surv', 'log', 'cubic'])
    a = rng.uniform(.2, 5); b = rng.uniform(-5, 5); r = rng.uniform(.005, .08)
    s = rng.choice([-1, 1])
    return {'lin': ((k, a, b, s), lambda t: s * a * t + b), 'exp': ((k, a, r, s), lambda t: s * a * math.exp(r * t)),
            'inv': ((k, a, s), lambda t: s * a / (t + 1)), 'surv': ((k, r), lambda t: math.exp(-r * t)),
            'log': ((k, a, b, s), lambda t: s * a * math.log(1 + max(t, -.9)) + b), 'cubic': ((k, a, s), lambda t: s * ((t / 20) ** 3 + a * t / 20))}[k]


def root(c, rng):
    name, f = mono(rng)
    x = rng.uniform(2, 48)
    target = f(x)
    g = rng.choice(['range', 'tuple', 'point', 'list'])
    lo, hi = x - rng.uniform(.5, 20), x + rng.uniform(.5, 20)
    grid = {'range': [max(0, lo), hi], 'tuple': (max(0, lo), hi), 'point': x + rng.uniform(-1, 1) * min(3, x / 2),
            'list': rng.sample([hi, max(0, lo), (lo + hi) / 2], 3)}[g]
    if name[0] == 'inv' and g != 'point':
        grid = [max(0, x - 4), x + 4] if g != 'tuple' else (max(0, x - 4), x + 4)
    c.note(f=name, target=target, grid=grid, root=x); c.dim(f=name[0], grid=g)
    seen = []

    def fun(t):
        v = float(t[0]) if hasattr(t, '__len__') else float(t)
        seen.append(v)
        return f(v)
    h = host(rng)
    got = c.call('solve.root', h.solve, fun, target, grid)
    scale = max(1e-6, abs(target))
    c.close('solve.root.attains', f(float(got)), target, rel=1e-6, abs=1e-7 * max(1, abs(f(hi) - f(max(0, lo)))))
    c.true('solve.root.evaluated', len(seen) >= 3, str(len(seen)))
    c.close('solve.root.last-evaluation-is-solution', seen[-1], float(got), rel=1e-12, abs=1e-12)
    # side effects of the last evaluation remain: a model parameter set inside the function is the solution
    class M: pass
    m = M()

    def setter(t):
        m.param = t
        return f(float(t[0]) if hasattr(t, '__len__') else float(t))
    got2 = c.call('solve.root', h.solve, setter, target, grid)
    c.close('solve.root.side-effect', float(m.param[0] if hasattr(m.param, '__len__') else m.param), float(got2), rel=1e-12, abs=1e-12)
    c.close('solve.root.repeatable', float(got2), float(got), rel=1e-9, abs=1e-9)


def range_guess(c, rng):
    """with several roots, the start is the best of the range: result must be a root near it"""
    a = rng.uniform(5, 15); b = a + rng.uniform(40, 80)
    f = lambda t: (float(t) - a) * (float(t) - b)
    # five probes over the range: lowest |f| decides
    near_a = rng.random() < .5
    lo, hi = (a - rng.uniform(1, 3), a + rng.uniform(1, 6)) if near_a else (b - rng.uniform(1, 6), b + rng.uniform(1, 3))
    c.note(a=a, b=b, grid=(lo, hi))
    got = c.call('solve.range', Actuarial.solve, lambda t: f(t[0] if hasattr(t, '__len__') else t), 0., [lo, hi])
    c.close('solve.range.nearest', float(got), a if near_a else b, rel=1e-6)
    # informative only near its root: found from a range that contains it, however its points are listed
    x, w = rng.uniform(-40, 60), rng.uniform(2, 20)
    h = lambda t: (float(t[0] if hasattr(t, '__len__') else t) - x)
    flat = lambda t: h(t) if abs(h(t)) < w else 3 * w
    k = rng.randint(0, 4); step = w * rng.uniform(1.2, 2)     # probe k of five is within w of the root
    x0 = x + rng.uniform(-.8, .8) * w
    lo, hi = x0 - k * step, x0 + (4 - k) * step
    pts = [lo, hi] + [rng.uniform(lo, hi) for _ in range(rng.randint(0, 2))]
    rng.shuffle(pts)
    c.note(root=x, w=w, pts=pts); c.dim(points=len(pts))
    got = c.call('solve.range.list', host(rng).solve, flat, 0., rng.choice([list, tuple])(pts))
    c.close('solve.range.list', float(got), x, abs=1e-6 * max(1, abs(x)))


def shifted(c, rng):
    """solutions anywhere on the line, at any scale: rates, premiums, losses"""
    name, f0 = mono(rng)
    scale = 10 ** rng.uniform(-3, 4); off = rng.choice([0, rng.uniform(-60, 60)]) * scale
    x0 = rng.uniform(5, 45)
    x = x0 * scale * .02 - off
    f = lambda t: f0((float(t) + off) / scale / .02)
    target = f(x); w = .02 * scale
    lo, hi = x - rng.uniform(.5, 4) * w, x + rng.uniform(.5, 4) * w
    mad = rng.random() < .5
    grid = rng.choice([[lo, hi], (lo, hi), [hi, lo]])
    c.note(f=name, scale=scale, offset=off, root=x, grid=grid, mad=mad); c.dim(shifted=('negative' if hi < 0 else 'mixed' if lo < 0 else 'positive'), mad=mad)
    got = c.call('solve.shifted', host(rng).solve, lambda t: f(t[0] if hasattr(t, '__len__') else t), target, grid, **(dict(mad=True) if mad else {}))
    span = abs(f(hi) - f(lo))
    if mad: c.true('solve.shifted.mad', abs(f(got) - target) <= 1e-3 * max(span, abs(target) * 1e-3), lambda: f'{got}: {f(got)} for {target}')
    else: c.true('solve.shifted.root', abs(f(got) - target) <= 1e-6 * max(span, abs(target)), lambda: f'{got}: {f(got)} for {target}')


def minimise(c, rng):
    """mad: minimise the absolute deviation"""
    name, f = mono(rng)
    x = rng.uniform(5, 45)
    target = f(x)
    c.note(f=name, root=x); c.dim(f=name[0])
    grid = [max(0.5, x - rng.uniform(.5, 5)), x + rng.uniform(.5, 5)]
    got = c.call('solve.mad', Actuarial.solve, f, target, grid, mad=True)
    span = abs(f(grid[1]) - f(grid[0]))
    c.true('solve.mad.attains', abs(f(float(got)) - target) <= 1e-3 * max(span, abs(target)), lambda: f'{got} {f(got)} {target}')
    # unattainable target: minimise |parabola - target| has its vertex as solution
    v, h = rng.uniform(10, 30), rng.uniform(1, 5)
    got = c.call('solve.mad', Actuarial.solve, lambda t: (t - v) ** 2 + h, 0., [v - 3, v + 4], mad=True)
    c.close('solve.mad.minimum', float(got), v, abs=1e-3)
    v = rng.uniform(-30, 5)
    got = c.call('solve.mad', Actuarial.solve, lambda t: h - (t - v) ** 2 - 2 * h, rng.uniform(0, 1), [v - 3, v + 4], mad=True)
    c.close('solve.mad.minimum', float(got), v, abs=1e-3)


def terms(c, rng):
    maxage = rng.choice([100, rng.randint(40, 150)])
    h = Lifetime().set_survival(mu=lambda x, t: .1, maxage=maxage) if maxage != 100 or rng.random() < .5 else Premiums()
    W = h.WHOLE
    x, u = rng.randint(0, maxage), rng.choice([0, 0, rng.randint(0, 30)])
    if x + u > maxage: u = maxage - x
    t = rng.choice([W, -1, 0, 1, rng.randint(0, 150), maxage - x - u, maxage - x - u + 1, rng.uniform(0, 60)])
    c.note(maxage=maxage, x=x, u=u, t=t)
    want = maxage - x - u if t < 0 or x + u + t > maxage else t
    c.value('max_term', want, h.max_term, x, t, u)
    if u == 0: c.value('max_term', want, h.max_term, x, t)
    g = c.call('max_term', h.max_term, x=x, t=t, u=u)
    c.true('max_term.bound', g + x + u <= maxage + 1e-9 and (g == t or t < 0 or g < t))
    a, b = rng.choice([W, rng.randint(0, 80)]), rng.choice([W, rng.randint(-5, 80)])
    c.value('add_term', W if W in (a, b) else a + b, h.add_term, a, b)
    c.value('add_term.commutes', c.call('add_term', h.add_term, b, a), h.add_term, a, b)


def by_year(c, rng):
    """life tables integrate year by year: also functions with a kink or a jump at each birthday after the start"""
    name, f, F, _ = fam(rng)
    lo = rng.choice([0, rng.randint(0, 40), rng.uniform(0, 40)]); n = rng.choice([rng.randint(1, 30), rng.uniform(.05, 30), 1, rng.uniform(.01, .99)])
    hi = lo + n
    h = rng.choice([LifeTable, SULT, SelectLife, 'inst'])
    if h == 'inst': h = rng.choice([LifeTable(), SelectLife(periods=1)])
    jumps = [rng.uniform(-2, 2) for _ in range(80)] if rng.random() < .5 else [0.] * 80
    c.note(f=name, lo=lo, hi=hi, jumps=jumps[:4], host=str(h)); c.dim(by_year=name[0], width='fraction' if n < 1 else 'integer' if n == int(n) else 'mixed', jumps=any(jumps))
    k0 = lambda t: min(79, max(0, int(math.floor(t - lo + 1e-12))))
    g = lambda t: f(t) + jumps[k0(t)]
    w = F(hi) - F(lo) + sum(jumps[k] * max(0., min(k + 1, n) - k) for k in range(int(math.ceil(n))))
    c.value('integral.by-year', w, h.integral, g, lower=lo, upper=hi, rel=1e-6, abs=1e-6)
    c.value('integral.by-year', w, h.integral, g, lo, hi, rel=1e-6, abs=1e-6)
    c.value('integral.by-year-empty', 0., h.integral, g, lo, lo)


def table_terms(c, rng):
    """a term never runs past the end of a life table, or of the last row of a select table"""
    lo = rng.choice([0, 1, rng.randint(2, 60)]); n = rng.randint(3, 20); per = rng.choice([0, 1, 2, 3])
    kind = rng.choice(['table', 'table', 'select', 'select', 'sult'])
    if kind == 'table':
        o = c.call('table', LifeTable().set_table, q={lo + k: rng.uniform(.01, .3) for k in range(n)}); end = lo + n
    elif kind == 'sult':
        lo, top = rng.randint(0, 30), rng.randint(100, 130); o = c.call('table', SULT, minage=lo, maxage=top); end = top; n = top - lo
    else:
        q = [[rng.uniform(.01, .2) for _ in range(per + 1)] for _ in range(n)]
        o = c.call('table', SelectLife(periods=per).set_table, q={lo + k: q[k] for k in range(n)}); end = lo + n - 1 + per + 1
    x = rng.randint(lo, max(lo, end - 1)); u = rng.choice([0, 0, rng.randint(0, max(0, end - 1 - x))])
    t = rng.choice([-999, -1, 0, 1, rng.randint(0, 30), end - x - u, end - x - u + 1, max(0, end - x - u - 1), rng.uniform(0, 20)])
    c.note(kind=kind, lo=lo, n=n, per=per, x=x, u=u, t=t); c.dim(term_table=kind)
    want = end - x - u if t < 0 or x + u + t > end else t
    c.value('max_term.table', want, o.max_term, x, t, u)
    if u == 0: c.value('max_term.table', want, o.max_term, x=x, t=t)


def isclose(c, rng):
    a = rng.uniform(-1e3, 1e3); e = 10 ** rng.uniform(-12, 1) * rng.choice([1, -1])
    c.note(a=a, e=e)
    if abs(e) < 3e-7: c.same('isclose.yes', Actuarial.isclose(a, a + e), True); c.same('isclose.zero', Actuarial.isclose(e), True)
    elif abs(e) > 3e-6: c.same('isclose.no', Actuarial.isclose(a, a + e), False); c.same('isclose.zero-no', Actuarial.isclose(e), False)


GROUPS = [('integrate', integrate, 500, 10000), ('differentiate', differentiate, 500, 10000), ('root', root, 600, 12000),
          ('range_guess', range_guess, 150, 3000), ('minimise', minimise, 300, 6000), ('shifted', shifted, 400, 8000), ('terms', terms, 800, 20000), ('by_year', by_year, 300, 6000), ('table_terms', table_terms, 200, 6000), ('isclose', isclose, 300, 3000)]
QUICK = 10      # scale of the quick tier
