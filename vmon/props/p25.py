"""P25 requests outside the documented domain are refused; failures surface and leave everything as it was"""
import contextlib, io, math
from actuarialmath import (Reserves, Contract, LifeTable, SelectLife, SULT, Recursion, Interest, Life, Actuarial, ConstantForce, Uniform, Beta, Gompertz, Makeham, UDD, Woolhouse, Mthly, ExtraRisk, Survival, Premiums)
from vmon import gens, ref
from vmon.core import Skip
from vmon.props import p24
from vmon.props.p24 import outcome, alike

RULE = ('Refusal cases draw a model and a request outside the documented domain and put it between two rounds of randomly drawn valid questions. Fault cases count how often a supplied function (survival, force, lives, density, discount, benefit, objective) '
        'is called by a query on a twin, then make it fail at a random one of these calls on the model; the failure must surface, and the model must then answer the same query and others exactly as the twin. Display faults break the output stream under a tracing solver.')
ASSUMPTIONS = ['the documented domain is what the interface asserts or documents to be unsupported', 'any error counts as refusal']
W, VAR = -999, -2


class Fault(Exception): pass
class Stop(BaseException): pass


class Tap:
    """a supplied function which can be made to fail at its k-th call"""

    def __init__(self, f): self.f, self.n, self.at, self.exc = f, 0, None, Fault
    def __call__(self, *a, **k):
        self.n += 1
        if self.at is not None and self.n >= self.at: raise self.exc('injected')
        return self.f(*a, **k)
    def arm(self, k, exc): self.n, self.at, self.exc = 0, k, exc
    def off(self): self.n, self.at = 0, None


def battery(rng, cls, ages, n=5, avoid=()):
    out = []
    names = [m for m in sorted(p24.METHODS[cls]) if m not in ('frame', 'solve', 'interest_frame') + tuple(avoid)]
    for m in rng.sample(names, min(n, len(names))):
        class _C: pass
        full, _ = p24.given(None, rng, cls, m, p24.METHODS[cls][m], ages)
        out.append((m, full))
    return out


def answers(c, obj, bat): return [outcome(c, m, getattr(obj, m), **kw) for m, kw in bat]


def refuses(c, key, f, *a, **k):
    c.decided(key); c.stats.events += 1
    try: r = f(*a, **k)
    except Exception as e:
        c.log.append(f'{key}: refused {type(e).__name__}'); return True
    c.violate(key, f'answered {str(r)[:100]} to {a} {k}')
    return False


# ---- refusals -----------------------------------------------------------------
def bad_requests(rng, cls, obj, ages):
    """(key, callable) drawn outside the documented domain of this class"""
    x = rng.randint(*ages) if ages else 40
    neg = -rng.choice([1, 2, rng.uniform(.1, 30)])
    R = []
    law = cls in ('ConstantForce', 'Beta', 'Uniform', 'Makeham', 'Gompertz')
    if cls in ('Reserves', 'ConstantForce', 'Beta', 'Uniform', 'Makeham', 'Gompertz'):
        for fn in ('l_x', 'd_x', 'p_x', 'q_x', 'f_x', 'mu_x'):
            R += [('age.' + fn, lambda fn=fn: getattr(obj, fn)(int(min(neg, -1)))), ('duration.' + fn, lambda fn=fn: getattr(obj, fn)(x, s=int(min(neg, -1))))]
    if cls == 'Reserves':
        R += [('age.e_x', lambda: obj.e_x(-1)), ('duration.e_x', lambda: obj.e_x(x, s=-1)), ('moment.e_x', lambda: obj.e_x(x, t=3, moment=rng.choice([0, 3, -1])))]
        for fn in ('l_r', 'p_r', 'q_r', 'mu_r', 'f_r', 'E_r', 'e_r'):
            R += [('age.' + fn, lambda fn=fn: getattr(obj, fn)(-1)), ('duration.' + fn, lambda fn=fn: getattr(obj, fn)(x, s=-1))]
            if fn != 'e_r': R.append(('fraction.' + fn, lambda fn=fn: getattr(obj, fn)(x, r=-.25)))
            if fn in ('p_r', 'q_r', 'f_r', 'E_r'): R.append(('time.' + fn, lambda fn=fn: getattr(obj, fn)(x, t=-.5)))
    if cls in ('Reserves', 'LifeTable', 'SULT', 'Makeham', 'Gompertz', 'Beta'):
        mom = rng.choice([0, -1, -3])
        R += [('moment.A_x', lambda: obj.A_x(x, t=4, moment=mom)), ('moment.insurance_twin', lambda: obj.insurance_twin(a=5., moment=2)),
              ('time.Z_x', lambda: obj.Z_x(x, t=neg)), ('time.Y_x', lambda: obj.Y_x(x, t=neg)), ('prob.Z_t', lambda: obj.Z_t(x, prob=rng.choice([1., 1.5]))), ('prob.Y_t', lambda: obj.Y_t(x, prob=rng.choice([1., 1.5]))),
              ('term.decreasing_insurance', lambda: obj.decreasing_insurance(x, t=rng.choice([0, -1, W]))), ('term.decreasing_annuity', lambda: obj.decreasing_annuity(x, t=rng.choice([-1, W]))),
              ('endowment.gross_premium', lambda: obj.gross_premium(a=5., A=.4, endowment=rng.uniform(.5, 9))),
              ('variance.net', lambda: obj.net_policy_variance(x, n=5, b=2, endowment=rng.choice([0, 1, 3, 2.5, 200]))), ('variance.gross', lambda: obj.gross_policy_variance(x, n=5, contract=Contract(premium=.1, benefit=2, endowment=rng.choice([0, 1, 3, 2.5, 200])))),
              ('form.none', lambda: obj.set_survival()), ('interest.none', lambda: obj.set_interest())]
        for k in ('S', 'f', 'l', 'mu'):
            R.append(('form.not-callable', lambda k=k: obj.set_survival(**{k: rng.choice([.5, 'S', {1: 2}])})))
        R.append(('form.not-callable', lambda: obj.set_survival(l=lambda x, s: 100. - x - s, **{rng.choice(['S', 'f', 'mu']): .5})))
        v = rng.choice([dict(v_t=lambda t: .9 * .95**t), dict(v_t=.95), dict(i=-.02), dict(), dict(delta=-.1, d=-.3)])
        R.append(('interest.invalid', lambda: obj.set_interest(**v)))
    if cls in ('LifeTable', 'SULT', 'SelectLife'): R.append(('column', lambda: obj[rng.choice(['z', 'w', 'Z'])]))
    if cls == 'LifeTable': R.append(('table.nothing', lambda: obj.set_table()))
    if cls == 'SelectLife':
        R += [('select.moment', lambda: obj.A_x(x, moment=2)), ('select.continuous', lambda: obj.A_x(x, discrete=False)), ('select.annuity-moment', lambda: obj.a_x(x, moment=2)), ('select.annuity-continuous', lambda: obj.a_x(x, discrete=False)),
              ('select.complete', lambda: obj.e_x(x, curtate=False)), ('select.beyond', lambda: obj.p_x(x + 60, s=1))]
    if cls == 'Recursion':
        R += [('recursion.endowment-term', lambda: obj.endowment_insurance(x, t=W)), ('recursion.decreasing-term', lambda: obj.decreasing_insurance(x, t=W))]
    if cls in ('Mthly', 'UDD', 'Woolhouse'):
        if cls != 'Woolhouse':
            for fn in ('whole_life_insurance', 'term_insurance', 'endowment_insurance'):
                if (cls, fn) != ('Mthly', 'endowment_insurance'): R.append(('mthly.moment.' + fn, lambda fn=fn: getattr(obj, fn)(x, moment=rng.choice([0, 3]))))
        R += [('mthly.moment.E_x', lambda: obj.E_x(x, t=3, moment=0)), ('mthly.moment.A_x', lambda: Mthly.A_x(obj, x, t=3, moment=rng.choice([0, 3, VAR])))]
    if cls == 'ExtraRisk':
        R += [('extra.kind', lambda: ExtraRisk(life=obj.life, risk=rng.choice(['add_force', 'FORCE', 'x']), extra=1.)), ('extra.negative', lambda: ExtraRisk(life=obj.life, risk=rng.choice(ExtraRisk.risks), extra=-rng.random() - .01)), ('extra.column', lambda: obj['z'])]
    if cls == 'Interest':
        R += [('interest.none', lambda: Interest()), ('interest.negative', lambda: Interest(i=-rng.random() - .001)), ('interest.v_t', lambda: Interest(v_t=lambda t: 2.)), ('interest.v_t-not-callable', lambda: Interest(v_t=.9)),
              ('interest.frequency', lambda: obj.annuity(5, m=-1)), ('mthly.none', lambda: Interest.mthly(m=12)), ('mthly.frequency', lambda: Interest.mthly(m=-2, i=.05)), ('double.none', lambda: Interest.double_force())]
    if cls == 'Life':
        p = rng.choice([-rng.random() - .01, 1.01 + rng.random()])
        R += [('prob.bernoulli', lambda: Life.bernoulli(p)), ('prob.binomial', lambda: Life.binomial(p, 3)), ('count.binomial', lambda: Life.binomial(.5, 0)), ('prob.mixture', lambda: Life.mixture(*rng.sample([p, .2, .3], 3))),
              ('count.mixture', lambda: Life.mixture(.2, .3, .4, N=0)), ('prob.conditional', lambda: Life.conditional_variance(*rng.sample([p, .2, .3], 3))), ('count.conditional', lambda: Life.conditional_variance(.2, .3, .4, N=0)),
              ('prob.percentile', lambda: Life.portfolio_percentile(1., 2., prob=rng.choice([1., 1.3])))]
    if law:
        R += [('law.udd', lambda: type(obj)(udd=True, **{'ConstantForce': dict(mu=.1), 'Beta': dict(omega=90, alpha=1), 'Uniform': dict(omega=90), 'Makeham': dict(A=0, B=1e-4, c=1.1), 'Gompertz': dict(B=1e-4, c=1.1)}[cls]))]
        R += [('law.makeham', lambda: Makeham(**rng.choice([dict(A=0, B=1e-4, c=1.), dict(A=0, B=1e-4, c=.9), dict(A=0, B=0, c=1.1), dict(A=0, B=-1e-4, c=1.1), dict(A=-.5, B=1e-4, c=1.1)])))]
        R += [('law.gompertz', lambda: Gompertz(**rng.choice([dict(B=1e-4, c=1.), dict(B=0, c=1.1), dict(B=-.01, c=1.1)])))]
    if cls in ('Reserves', 'LifeTable', 'SULT') and rng.random() < .3:
        R += [('approx.none', lambda: obj.e_approximate()), ('approx.both', lambda: obj.e_approximate(e_complete=10., e_curtate=9.))]
    return R


def refusals(c, rng):
    cls = rng.choice(['Reserves', 'Reserves', 'Reserves', 'LifeTable', 'SULT', 'SelectLife', 'Recursion', 'Mthly', 'UDD', 'Woolhouse', 'ExtraRisk', 'Interest', 'Life', 'ConstantForce', 'Beta', 'Uniform', 'Makeham', 'Gompertz'])
    obj, ages = p24.build(cls, rng)
    bat = battery(rng, cls, ages, n=4)
    before = answers(c, obj, bat)
    R = bad_requests(rng, cls, obj, ages)
    picked = rng.sample(R, min(len(R), rng.randint(3, 8)))
    c.note(cls=cls, requests=[k for k, _ in picked], battery=[m for m, _ in bat])
    for k, f in picked:
        c.dim(request=k)
        refuses(c, 'refused.' + k.split('.')[0], f)
    after = answers(c, obj, bat)
    for (m, kw), u, w in zip(bat, before, after):
        c.true('unchanged', alike(u, w), lambda: f'{cls}.{m} {kw}: {u} before, {w} after refused requests {[k for k, _ in picked]}')


# ---- failures of supplied functions -----------------------------------------------
def tapped(rng, share=None):
    """model over tapped functions, twin over the same functions untapped"""
    w = rng.randint(70, 110); al = rng.uniform(.6, 2)
    law = rng.choice([ref.Beta(w, al), ref.Makeham(A=rng.uniform(.005, .05)), ref.Makeham(B=10 ** rng.uniform(-4.5, -3.5), c=rng.uniform(1.08, 1.12)), ref.Makeham(A=.001, B=1e-4, c=1.09, D=.02, k=.5)])
    form = rng.choice(['S', 'S', 'mu', 'l', 'f']) if law.omega is None else rng.choice(['S', 'S', 'l'])
    sup = gens.supply(law, form)
    taps = {k: Tap(f) for k, f in sup.items()}
    i = rng.uniform(.02, .1); d = math.log1p(i)
    mx = w if law.omega else 120
    objs = []
    vt = None
    curve = rng.random() < .3
    for fs in (taps, sup):
        o = Reserves().set_survival(**fs, maxage=mx)
        if curve:
            g = lambda t: math.exp(-d * t)
            if not objs: vt = g = Tap(g)
            o.set_interest(v_t=g)
        else: o.set_interest(i=i)
        objs.append(o)
    if vt: taps['v_t'] = vt
    return objs[0], objs[1], taps, (20, 60), f'{law!r}/{form}' + ('/v_t' if vt else '')


def wrap(rng, a, b):
    """the same overlay over model and twin"""
    k = rng.choice(['self', 'self', 'self', 'Mthly', 'UDD', 'Woolhouse', 'ExtraRisk'])
    m = rng.choice([2, 4])
    if k == 'self': return 'Reserves', a, b
    if k == 'Mthly': return k, Mthly(m=m, life=a), Mthly(m=m, life=b)
    if k == 'UDD': return k, UDD(m=m, life=a), UDD(m=m, life=b)
    if k == 'Woolhouse':
        t3, ap = rng.random() < .5, rng.random() < .7
        return k, Woolhouse(m=m, life=a, three_term=t3, approximate_mu=ap), Woolhouse(m=m, life=b, three_term=t3, approximate_mu=ap)
    r = rng.choice(ExtraRisk.risks)
    return k, ExtraRisk(life=a, risk=r, extra=1), ExtraRisk(life=b, risk=r, extra=1)


CHEAP = ('p_x', 'q_x', 'mu_x', 'f_x', 'l_x', 'd_x', 'term_insurance', 'temporary_annuity', 'A_x', 'a_x', 'E_x', 'e_x', 'p_r', 'q_r', 'E_r', 'net_premium', 'net_policy_value', 'gross_policy_value', 'endowment_insurance',
         'deferred_insurance', 'deferred_annuity', 'increasing_insurance', 'decreasing_insurance', 'increasing_annuity', 'decreasing_annuity', 'certain_life_annuity', 'immediate_annuity', 'Z_t', 'Y_t', 'Z_from_prob', 'L_from_prob',
         'FPT_premium', 'FPT_policy_value', 'whole_life_insurance', 'whole_life_annuity', 'Z_x', 'Y_x', 'e_r', 'mu_r', 'f_r', 'L_from_t', 'Z_to_prob', 'Y_to_prob', 'L_to_prob', 'q_m', 'p_m', 'Z_m', 'net_policy_variance', 'gross_policy_variance', 't_V', 'r_V_forward')


def ask(rng, cls, ages, n):
    out = []
    names = [m for m in sorted(p24.METHODS[cls]) if m in CHEAP]
    for m in rng.sample(names, min(n, len(names))):
        full, _ = p24.given(None, rng, cls, m, p24.METHODS[cls][m], ages)
        if full.get('t') == W and 't' in full and m not in ('e_x', 'net_premium'): full['t'] = rng.randint(2, 8)
        if rng.random() < .8 and 'discrete' in full: full['discrete'] = True
        out.append((m, full))
    return out


def faults(c, rng):
    a, b, taps, ages, desc = tapped(rng)
    cls, a, b = wrap(rng, a, b)
    qs = ask(rng, cls, ages, 3)
    bat = ask(rng, cls, ages, 3)
    c.note(model=desc, cls=cls, queries=[(m, {k: (vars(v) if isinstance(v, Contract) else 'function' if callable(v) else v) for k, v in kw.items()}) for m, kw in qs])
    want_bat = answers(c, b, bat)
    for m, kw in qs:
        for t in taps.values(): t.off()
        want = outcome(c, m, getattr(b, m), **kw)
        got = outcome(c, m, getattr(a, m), **kw)
        c.true('twins', alike(got, want), lambda: f'{m} {kw}: {got}, twin {want}')
        calls = {k: t.n for k, t in taps.items()}
        # the benefit function can fail too
        if callable(kw.get('benefit')):
            bt = Tap(kw['benefit']); kw2 = {**kw, 'benefit': bt}
            outcome(c, m, getattr(a, m), **kw2); calls['benefit'] = bt.n
        live = [k for k, n in calls.items() if n]
        if not live or want == ('refused',): continue
        k = rng.choice(live)
        n = calls[k]
        at = rng.choice([1, n, rng.randint(1, n)])
        exc = rng.choice([Fault, Fault, Stop, ZeroDivisionError, ValueError, AssertionError])
        c.dim(fault=k, at='first' if at == 1 else 'last' if at == n else 'middle', query=m)
        kw3 = dict(kw)
        if k == 'benefit': bt = Tap(kw['benefit']); kw3['benefit'] = bt; bt.arm(at, exc)
        else: taps[k].arm(at, exc)
        c.decided('surfaced'); c.stats.events += 1
        try:
            r = getattr(a, m)(**kw3)
        except (Exception, Stop) as e:
            c.log.append(f'fault in {k} at call {at} of {n} during {m}: surfaced as {type(e).__name__}')
        else:
            c.violate('surfaced', f'{m} {kw} answered {r} (without failure {want}) although {k} failed at its call {at} of {n}')
        for t in taps.values(): t.off()
        got = outcome(c, m, getattr(a, m), **kw)
        c.true('retry', alike(got, want), lambda: f'{m} {kw} after a failure in {k} at call {at} of {n}: {got}, never failed: {want}')
    got = answers(c, a, bat)
    for (m, kw), u, w in zip(bat, got, want_bat):
        c.true('unaffected', alike(u, w), lambda: f'{m} {kw} after failed queries {[q for q, _ in qs]}: {u}, never failed: {w}')


def helpers(c, rng):
    """an objective that fails inside the numerical helpers; a reconfiguration that fails"""
    k = rng.choice(['solve', 'mad', 'integral', 'derivative', 'model', 'SULT', 'table-integral'])
    c.note(kind=k); c.dim(helper=k)
    r = rng.uniform(5, 20); c.note(r=r)
    f = lambda t: 1.5 * float(t[0] if hasattr(t, '__len__') else t) - r
    exc = rng.choice([Fault, ValueError, ZeroDivisionError])
    lo, hi = 1., 30.
    calls = {'solve': lambda g: Actuarial.solve(g, 0., [lo, hi]), 'mad': lambda g: Actuarial.solve(g, 0., [lo, hi], mad=True), 'integral': lambda g: Premiums.integral(g, 0., 10.), 'derivative': lambda g: Premiums.derivative(g, 5.),
             'table-integral': lambda g: LifeTable.integral(g, 1, 6)}
    if k in calls:
        t = Tap(f); want = c.call(k, calls[k], t); n = t.n
        at = rng.choice([1, n, rng.randint(1, n)])
        t.arm(at, exc)
        refuses(c, 'surfaced.helper', calls[k], t)
        t.off()
        c.close('retry.helper', c.call(k, calls[k], t), want, rel=1e-12)
    elif k == 'SULT':
        S = Tap(lambda x, t: math.exp(-.01 * t - .0001 * t * t)); t = S
        want = norm_table(c.call(k, SULT, S=S)); n = S.n
        S.arm(rng.randint(1, n), exc)
        refuses(c, 'surfaced.helper', SULT, S=S)
        S.off()
        c.true('retry.helper', alike(norm_table(c.call(k, SULT, S=S)), want), 'table built after a failed construction')
        c.true('retry.helper', alike(norm_table(SULT()), norm_table(SULT())), '')
    else:
        # root finding that reconfigures a model, failing midway: the model is what the last completed call set
        life = Reserves().set_interest(i=.05); twin = Reserves().set_interest(i=.05)
        seen = []
        def setter(o, log=None):
            def g(w):
                w = float(w[0] if hasattr(w, '__len__') else w)
                o.set_survival(l=lambda x, s: max(0., 1 - (x + s) / w), maxage=int(w) + 1)
                if log is not None: log.append(w)
                return o.e_x(30, t=10, curtate=False)
            return g
        target = 9.
        t = Tap(setter(life, seen)); t_ = Tap(setter(twin))
        c.call(k, Actuarial.solve, t_, target, [60, 110])
        t.arm(rng.randint(2, t_.n), exc)
        refuses(c, 'surfaced.helper', Actuarial.solve, t, target, [60, 110])
        setter(twin)(seen[-1])
        for x in (35, 50):
            c.close('unaffected.helper', c.call('p', life.p_x, x, t=3), twin.p_x(x, t=3), rel=1e-12)
        c.close('unaffected.helper', c.call('A', life.term_insurance, 40, t=5), twin.term_insurance(40, t=5), rel=1e-12)


def norm_table(o): return [float(o.l_x(x)) for x in (20, 50, 90, 129)] + [float(o.whole_life_insurance(60))]


# ---- failing display ------------------------------------------------------------
class Broken(io.StringIO):
    def __init__(self, at): super().__init__(); self.n, self.at = 0, at
    def write(self, s):
        self.n += 1
        if self.n >= self.at: raise BrokenPipeError('closed')
        return super().write(s)


def display(c, rng):
    import random
    seed = rng.random()
    def mk():
        o = p24.recursion(random.Random(seed), depth=rng_depth)
        o._verbose = True
        return o
    rng_depth = rng.choice([1, 2])
    a, b = mk(), mk()
    names = ['q_x', 'p_x', 'E_x', 'e_x', 'term_insurance', 'whole_life_insurance', 'temporary_annuity', 'whole_life_annuity', 'endowment_insurance', 'increasing_insurance']
    qs = []
    for m in rng.sample(names, 4):
        full, _ = p24.given(None, rng, 'Recursion', m, p24.SPEC['Recursion'][m], (60, 62))
        if 't' in full and full['t'] > 0: full['t'] = rng.randint(1, 3)
        if m == 'e_x': full['t'] = rng.randint(1, 3)
        if 'u' in full: full['u'] = rng.randint(0, 1)
        qs.append((m, full))
    c.note(queries=qs)
    def shown(o, m, kw):
        f = io.StringIO()
        with contextlib.redirect_stdout(f): r = outcome(c, m, getattr(o, m), **kw)
        return r, f.getvalue()
    for m, kw in qs:
        w = Broken(1)
        with contextlib.redirect_stdout(w): outcome(c, m, getattr(a, m), **kw)
        c.dim(broken='struck' if w.n else 'nothing shown')
        u, v = shown(a, m, kw), shown(b, m, kw)
        c.true('display.answer', alike(u[0], v[0]), lambda: f'{m} {kw}: {u[0]} after the display failed, {v[0]} otherwise')
        c.true('display.steps', u[1] == v[1], lambda: f'{m} {kw} shows {u[1]!r} after the display failed, {v[1]!r} otherwise')


GROUPS = [('refusals', refusals, 400, 8000), ('faults', faults, 300, 6000), ('helpers', helpers, 150, 3000), ('display', display, 80, 1600)]
QUICK = 3
