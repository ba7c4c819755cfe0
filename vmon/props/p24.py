"""P24 calling convention: omitted arguments take their stated defaults; arguments bind by the documented name and position"""
import math
import actuarialmath as am
from actuarialmath import (Premiums, PolicyValues, Reserves, Contract, LifeTable, SelectLife, SULT, Recursion, Interest, Life, Actuarial,
                           ConstantForce, Uniform, Beta, Gompertz, Makeham, UDD, Woolhouse, Mthly, ExtraRisk)
from vmon import gens
from vmon.core import Skip
from vmon.props.p19 import norm

RULE = ('A case draws a model of some class and one public function of it, gives a random subset of the optional arguments random values, and asks three ways: every argument by name with the documented default written out; the same with '
        'defaulted arguments left out and names in random order; and a random number of leading arguments by position in the documented order. All three must have the same outcome (value, or refusal). Constructors and setters are compared '
        'through the answers of the objects they configure.')
ASSUMPTIONS = ['documented order and defaults are those of the published signatures, copied into this file']
W, VAR = -999, -2
ONE = lambda *a: 1                      # the documented default benefit

# documented order and defaults: name, or name=default.  A method is looked up in the class, then in its documented bases.
SPEC = {
    'Interest': dict(annuity='t=-1 m=1 due=True'),
    'Life': dict(bernoulli='p a=1 b=0 variance=False', binomial='p N variance=False', mixture='p p1 p2 N=1 variance=False', conditional_variance='p p1 p2 N=1', portfolio_percentile='mean variance prob N=1',
                 portfolio_cdf='mean variance value N=1', isclose='r target=0. abs_tol=1e-6', variance='a b var_a var_b cov_ab', covariance='a b ab', solve='fun target grid mad=False', integral='fun lower upper', derivative='fun x',
                 max_term='x t u=0', add_term='t n'),
    'Survival': dict(l_x='x s=0', d_x='x s=0', p_x='x s=0 t=1', q_x='x s=0 t=1 u=0', f_x='x s=0 t=0', mu_x='x s=0 t=0'),
    'Lifetime': dict(e_x='x s=0 t=W curtate=True moment=1'),
    'Fractional': dict(l_r='x s=0 r=0', p_r='x s=0 r=0 t=1', q_r='x s=0 r=0 t=1 u=0', mu_r='x s=0 r=0', f_r='x s=0 r=0 t=0', E_r='x s=0 r=0 t=1', e_r='x s=0 t=W', e_approximate='e_complete=None e_curtate=None variance=False'),
    'Insurance': dict(E_x='x s=0 t=1 endowment=1 moment=1', A_x='x s=0 t=W u=0 benefit=ONE endowment=0 moment=1 discrete=True', insurance_variance='A2 A1 b=1', whole_life_insurance='x s=0 moment=1 b=1 discrete=True',
                      term_insurance='x s=0 t=1 b=1 moment=1 discrete=True', deferred_insurance='x s=0 u=0 t=W b=1 moment=1 discrete=True', endowment_insurance='x s=0 t=1 b=1 endowment=-1 moment=1 discrete=True',
                      increasing_insurance='x s=0 t=W b=1 discrete=True', decreasing_insurance='x s=0 t=1 b=1 discrete=True', Z_x='x s=0 t=0 discrete=True', Z_t='x prob discrete=True', Z_from_t='t discrete=True',
                      Z_from_prob='x prob discrete=True', Z_to_t='Z', Z_to_prob='x Z'),
    'Annuity': dict(a_x='x s=0 t=W u=0 benefit=ONE discrete=True', immediate_annuity='x s=0 t=W b=1 variance=False', annuity_twin='A discrete=True', insurance_twin='a moment=1 discrete=True',
                    annuity_variance='A2 A1 b=1 discrete=True', whole_life_annuity='x s=0 b=1 variance=False discrete=True', temporary_annuity='x s=0 t=W b=1 variance=False discrete=True',
                    deferred_annuity='x s=0 u=0 t=W b=1 discrete=True', certain_life_annuity='x s=0 u=0 t=W b=1 discrete=True', increasing_annuity='x s=0 t=W b=1 discrete=True',
                    decreasing_annuity='x s=0 t=0 b=1 discrete=True', Y_t='x prob discrete=True', Y_x='x s=0 t=1 discrete=True', Y_from_t='t discrete=True', Y_from_prob='x prob discrete=True', Y_to_t='Y', Y_to_prob='x Y'),
    'Premiums': dict(net_premium='x s=0 t=W u=0 n=0 b=1 endowment=0 discrete=True return_premium=False annuity=False initial_cost=0', insurance_equivalence='premium b=1 discrete=True',
                     annuity_equivalence='premium b=1 discrete=True', premium_equivalence='A=None a=None b=1 discrete=True',
                     gross_premium='a=None A=None IA=0 discrete=True benefit=1 E=0 endowment=0 settlement_policy=0 initial_policy=0 initial_premium=0 renewal_policy=0 renewal_premium=0'),
    'PolicyValues': dict(net_future_loss='A A1 b=1', net_variance_loss='A1 A2 A=0 b=1', net_policy_variance='x s=0 t=0 b=1 n=W endowment=0 discrete=True', net_policy_value='x s=0 t=0 b=1 n=W endowment=0 discrete=True',
                         gross_future_loss='A=None a=None contract=CON', gross_variance_loss='A1 A2=0 contract=CON', gross_policy_variance='x s=0 t=0 n=W contract=CON', gross_policy_value='x s=0 t=0 n=W contract=CON',
                         L_from_t='t contract=CON', L_from_prob='x prob contract=CON', L_to_t='L contract=CON', L_to_prob='x L contract=CON'),
    'Reserves': dict(t_V_backward='x s=0 t=0 premium=0 benefit=ONE per_premium=0 per_policy=0 reserve_benefit=False', t_V_forward='x s=0 t=0 premium=0 benefit=ONE per_premium=0 per_policy=0 reserve_benefit=False',
                     t_V='x s=0 t=0 premium=0 benefit=ONE reserve_benefit=False per_premium=0 per_policy=0', r_V_backward='x s=0 r=0 benefit=1', r_V_forward='x s=0 r=0 premium=0 benefit=1',
                     FPT_premium='x s=0 n=W b=1 first=False', FPT_policy_value='x s=0 t=0 b=1 n=W endowment=0 discrete=True'),
    'Recursion': dict(q_x='x s=0 t=1 u=0', p_x='x s=0 t=1', e_x='x s=0 t=W curtate=False moment=1', E_x='x s=0 t=1 endowment=1 moment=1', increasing_insurance='x s=0 t=W b=1 discrete=True',
                      decreasing_insurance='x s=0 t=W b=1 discrete=True', whole_life_insurance='x s=0 b=1 discrete=True moment=1', term_insurance='x s=0 t=1 b=1 moment=1 discrete=True',
                      deferred_insurance='x s=0 b=1 u=0 t=W moment=1 discrete=True', endowment_insurance='x s=0 t=1 b=1 endowment=-1 moment=1 discrete=True', whole_life_annuity='x s=0 b=1 variance=False discrete=True',
                      temporary_annuity='x s=0 t=W b=1 variance=False discrete=True', deferred_annuity='x s=0 t=W u=0 b=1 discrete=True'),
    'LifeTable': dict(integral='fun lower upper', mu_x='x s=0 t=0', l_x='x s=0', d_x='x s=0 t=1', p_x='x s=0 t=1', q_x='x s=0 t=1 u=0', e_x='x s=0 t=W curtate=True moment=1', E_x='x s=0 t=1 moment=1 endowment=1'),
    'SULT': dict(frame='minage=20 maxage=100'),
    'SelectLife': dict(max_term='x t u=0', A_x='x s=0 moment=1 discrete=True', a_x='x s=0 moment=1 discrete=True', whole_life_insurance='x s=0 moment=1 b=1 discrete=True', whole_life_annuity='x s=0 b=1 variance=False discrete=True', l_x='x s=0', d_x='x s=0 t=1', p_x='x s=0 t=1',
                       q_x='x s=0 t=1 u=0', e_x='x s=0 t=W curtate=True', frame="table='l'"),
    'MortalityLaws': dict(l_r='x s=0 r=0', p_r='x s=0 r=0 t=1', q_r='x s=0 r=0 t=1 u=0', mu_r='x s=0 r=0', f_r='x s=0 r=0 t=0', e_r='x s=0 r=0 t=W'),
    'ConstantForce': dict(e_x='x s=0 t=W curtate=False moment=1', E_x='x s=0 t=W endowment=1 moment=1', whole_life_annuity='x s=0 b=1 variance=False discrete=True', temporary_annuity='x s=0 t=W b=1 variance=False discrete=True',
                          whole_life_insurance='x s=0 moment=1 b=1 discrete=True', term_insurance='x s=0 t=1 b=1 moment=1 discrete=True', Z_t='x prob discrete=True', Y_t='x prob discrete=True'),
    'Beta': dict(e_r='x s=0 t=W', e_x='x s=0 t=W curtate=False moment=1'),
    'Uniform': dict(e_x='x s=0 t=W curtate=False moment=1', E_x='x s=0 t=W moment=1 endowment=1', whole_life_insurance='x s=0 moment=1 b=1 discrete=True', term_insurance='x s=0 t=1 b=1 moment=1 discrete=False'),
    'Makeham': {}, 'Gompertz': {},
    'ExtraRisk': dict(p_x='x s=0', q_x='x s=0'),
    'Mthly': dict(v_m='k', q_m='x s_m=0 t_m=1 u_m=0', p_m='x s_m=0 t_m=1', Z_m='x s=0 t=1 benefit=ONE moment=1', E_x='x s=0 t=1 moment=1 endowment=1', A_x='x s=0 t=1 u=0 benefit=ONE moment=1', whole_life_insurance='x s=0 moment=1 b=1',
                  term_insurance='x s=0 t=1 b=1 moment=1', deferred_insurance='x s=0 u=0 b=1 t=W moment=1', endowment_insurance='x s=0 t=1 b=1 endowment=-1 moment=1', insurance_twin='a', annuity_twin='A', annuity_variance='A2 A1 b=1',
                  whole_life_annuity='x s=0 b=1 variance=False', temporary_annuity='x s=0 t=W b=1 variance=False', deferred_annuity='x s=0 u=0 t=W b=1', immediate_annuity='x s=0 t=W b=1'),
    'UDD': dict(alpha='m i', beta='m i', whole_life_insurance='x s=0 moment=1 b=1', endowment_insurance='x s=0 t=1 b=1 endowment=-1 moment=1', term_insurance='x s=0 t=1 b=1 moment=1', whole_life_annuity='x s=0 b=1 variance=False',
                temporary_annuity='x s=0 t=W b=1 variance=False', deferred_annuity='x s=0 u=0 t=W b=1 variance=False', interest_frame='i=0.05'),
    'Woolhouse': dict(mu_x='x s=0', whole_life_insurance='x s=0 b=1 mu=None', term_insurance='x s=0 t=W b=1 mu=None mu1=None', deferred_insurance='x s=0 u=0 t=W b=1 mu=None mu1=None',
                      endowment_insurance='x s=0 t=W b=1 endowment=-1 mu=None', whole_life_annuity='x s=0 b=1 mu=None', temporary_annuity='x s=0 t=W b=1 mu=None mu1=None', deferred_annuity='x s=0 t=W u=0 b=1 mu=None mu1=None'),
}
GEN = ['Reserves', 'PolicyValues', 'Premiums', 'Annuity', 'Insurance', 'Fractional', 'Lifetime', 'Survival', 'Life']
LAW = ['MortalityLaws'] + GEN
BASES = {'Interest': [], 'Recursion': GEN[:3] + ['Life'], 'LifeTable': GEN, 'SULT': ['LifeTable'] + GEN, 'SelectLife': ['LifeTable'] + GEN, 'ConstantForce': LAW, 'Beta': LAW, 'Uniform': ['Beta'] + LAW, 'Makeham': LAW, 'Gompertz': LAW,
         'ExtraRisk': [], 'Mthly': [], 'UDD': ['Mthly'], 'Woolhouse': ['Mthly'], 'Reserves': GEN[1:], 'Life': []}


def parse(spec):
    out = []
    for w in spec.split():
        n, _, d = w.partition('=')
        out.append((n, (eval(d, dict(W=W, ONE=ONE, CON=None, VAR=VAR)) if d != 'CON' else 'CON') if d else KeyError))
    return out


def methods(cls):
    out = {}
    for k in [cls] + BASES[cls]:
        for m, s in SPEC[k].items(): out.setdefault(m, s)
    # pieces that a class inherits without being meant for it
    for m in {'Recursion': ['Z_x', 'FPT_premium', 'FPT_policy_value'], 'SelectLife': ['E_r']}.get(cls, []): out.pop(m, None)
    return out


METHODS = {c: methods(c) for c in BASES}


# ---- objects ---------------------------------------------------------------
def build(cls, rng):
    """(object, ages) of the class"""
    i = rng.choice([.05, rng.uniform(.01, .12)])
    if cls == 'Interest': return Interest(i=i), None
    if cls == 'Life': return (Life() if rng.random() < .5 else Life), None
    if cls == 'Recursion': return recursion(rng), (60, 62)
    if cls == 'LifeTable':
        q = {50 + k: round(rng.uniform(.02, .3), 3) for k in range(rng.randint(8, 30))}
        q[50 + len(q)] = 1.
        o = LifeTable(udd=rng.random() < .8).set_table(q=q).set_interest(i=i)
        return o, (50, 50 + len(q) - 6)
    if cls == 'SULT': return SULT(i=i), (20, 100)
    if cls == 'SelectLife':
        q, n, lo, hi = gens.select_q(rng, n=10)
        q[hi] = {**q[hi], n: 1.}
        o = SelectLife(periods=n).set_table(q={x: list(r.values()) for x, r in q.items()}).set_interest(i=i)
        return o, (lo, hi - 4)
    if cls in ('Mthly', 'UDD', 'Woolhouse'):
        life, ages = build(rng.choice(['SULT', 'LifeTable', 'Makeham']) if cls != 'UDD' else rng.choice(['SULT', 'LifeTable']), rng)
        if cls == 'Woolhouse': return Woolhouse(m=rng.choice([2, 4, 12]), life=life, three_term=rng.random() < .5), ages
        return (Mthly if cls == 'Mthly' else UDD)(m=rng.choice([2, 4, 12]), life=life), ages
    if cls == 'ExtraRisk':
        life, ages = build(rng.choice(['SULT', 'LifeTable', 'Makeham']), rng)
        return ExtraRisk(life=life, risk=rng.choice(ExtraRisk.risks), extra=rng.choice([1, 2])), ages
    if cls == 'ConstantForce': o = ConstantForce(mu=rng.uniform(.02, .1))
    elif cls == 'Beta': o = Beta(omega=rng.randint(90, 120), alpha=rng.uniform(.5, 2))
    elif cls == 'Uniform': o = Uniform(omega=rng.randint(90, 120))
    elif cls == 'Makeham': o = Makeham(A=rng.uniform(.0001, .01), B=10 ** rng.uniform(-5, -4), c=rng.uniform(1.08, 1.12))
    elif cls == 'Gompertz': o = Gompertz(B=10 ** rng.uniform(-5, -4), c=rng.uniform(1.08, 1.12))
    else:
        w = rng.randint(90, 110)
        o = Reserves().set_survival(S=lambda x, s, t: max(0., 1 - t / (w - x - s)) ** 1.5 if x + s < w else float(t <= 0), maxage=w)
    return o.set_interest(i=i), (20, 70)


def recursion(rng, depth=2):
    o = Recursion(depth=depth, verbose=False).set_interest(i=rng.choice([.05, rng.uniform(.01, .12)]))
    for x in (60, 61, 62):
        o.set_q(rng.uniform(.01, .1), x=x)
    o.set_q(rng.uniform(.02, .1), x=62, t=2).set_q(rng.uniform(.02, .1), x=60, u=1, t=2)
    for _ in range(3):
        k = rng.choice('AAaaeE')
        x, t = rng.randint(60, 62), rng.choice([W, 2, 3])
        kw = dict(x=x, t=t)
        if k == 'A': o.set_A(rng.uniform(.1, .8), **kw, moment=rng.choice([1, 2]), endowment=rng.choice([0, 0, 1]) if t > 0 else 0, discrete=rng.random() < .7)
        elif k == 'a': o.set_a(rng.uniform(2, 15), **kw, discrete=rng.random() < .7)
        elif k == 'e': o.set_e(rng.uniform(2, 15), **kw, curtate=rng.random() < .5)
        elif t > 0: o.set_E(rng.uniform(.3, .9), **kw)
    return o


def contract(rng):
    return Contract(premium=rng.uniform(.01, .3), benefit=rng.uniform(1, 5), initial_policy=rng.uniform(0, 1), renewal_policy=rng.uniform(0, .01), settlement_policy=rng.uniform(0, .1),
                    initial_premium=rng.uniform(0, .5), renewal_premium=rng.uniform(0, .1), endowment=rng.choice([0, 0, rng.uniform(0, 2)]), T=rng.choice([W, 5, 10]), discrete=rng.random() < .7)


def draw(rng, cls, meth, name, ages):
    """a value for an argument"""
    lo, hi = ages or (30, 70)
    n_ = name
    if n_ == 'x': return rng.uniform(.5, 40) if meth == 'derivative' else rng.randint(lo, hi)
    if n_ == 's': return rng.randint(1, 3)
    if n_ in ('s_m', 'u_m'): return rng.randint(1, 8)
    if n_ == 't_m': return rng.randint(2, 20)
    if n_ == 't':
        if cls == 'Interest': return rng.choice([rng.randint(1, 30)])
        if meth in ('mu_x', 'f_x', 'f_r', 't_V', 't_V_backward', 't_V_forward', 'Z_x', 'Y_x'): return rng.randint(1, 4)
        if meth in ('Z_from_t', 'Y_from_t', 'L_from_t'): return rng.choice([rng.uniform(.1, 20), rng.randint(1, 9)])
        if meth in ('add_term', 'max_term'): return rng.choice([W, rng.randint(1, 120)])
        return rng.choice([rng.randint(2, 6), rng.randint(2, 6), rng.randint(1, 25)])
    if n_ in ('u',): return rng.randint(1, 4)
    if n_ == 'n' and meth == 'add_term': return rng.choice([W, rng.randint(1, 50)])
    if n_ == 'n': return rng.randint(5, 12)
    if n_ == 'm': return rng.choice([2, 4, 12])
    if n_ == 'i': return rng.uniform(.01, .2)
    if n_ == 'r': return rng.uniform(.1, .9)
    if n_ in ('b', 'benefit') and meth in ('A_x', 'a_x', 'Z_m', 't_V', 't_V_backward', 't_V_forward'):
        k, l = rng.uniform(.5, 3), rng.uniform(0, .3)
        return (lambda t: k + l * t) if meth.startswith('t_V') else (lambda x, t: k + l * t)
    if n_ == 'b' and meth == 'bernoulli': return rng.uniform(-3, -.1)
    if n_ == 'a' and meth == 'bernoulli': return rng.uniform(1.1, 4)
    if n_ in ('b', 'benefit', 'k'): return rng.uniform(1.5, 9) if n_ != 'k' else rng.randint(1, 20)
    if n_ == 'moment': return rng.choice([2, 2, VAR])
    if n_ in ('discrete', 'variance', 'curtate', 'due', 'return_premium', 'annuity', 'reserve_benefit', 'first', 'mad'):
        if cls == 'Life' and meth.startswith('portfolio'): return rng.uniform(.5, 9)
        return {'discrete': False, 'variance': True, 'due': False}.get(n_, None) if n_ != 'curtate' else ('flip')
    if n_ in ('p', 'p1', 'p2'): return rng.uniform(.05, .95)
    if n_ == 'prob': return rng.uniform(.05, .95)
    if n_ == 'N': return rng.randint(2, 50)
    if n_ in ('A', 'E', 'initial_premium', 'A1', 'Z'): return rng.uniform(.2, .6)
    if n_ == 'A2': return rng.uniform(.36, .9)
    if n_ == 'a' and cls in ('Mthly', 'UDD', 'Woolhouse'): return rng.uniform(5, 10)
    if n_ in ('a', 'Y'): return rng.uniform(1, 9)
    if n_ in ('premium', 'settlement_policy', 'initial_policy', 'renewal_policy', 'renewal_premium', 'per_policy', 'per_premium', 'initial_cost', 'IA'): return rng.uniform(.01, .3)
    if n_ == 'endowment': return rng.uniform(.5, 3)
    if n_ == 'contract': return contract(rng)
    if n_ in ('e_complete', 'e_curtate'): return rng.uniform(5, 20)
    if n_ in ('mean', 'value', 'target', 'L', 'ab', 'cov_ab', 'var_a', 'var_b'): return rng.uniform(.1, 3)
    if n_ in ('mu', 'mu1'): return rng.uniform(.01, .1)
    if n_ == 'abs_tol': return rng.choice([.5, 1e-9])
    if n_ == 'fun':
        k, l = rng.uniform(.5, 2), rng.uniform(.1, 1)
        return (lambda t: k * float(t[0] if hasattr(t, '__len__') else t) - l) if meth == 'solve' else (lambda t: k * math.exp(-.1 * t) + l)
    if n_ == 'grid': return rng.choice([(0., 5.), [0., 5.], 1.])
    if n_ == 'lower': return rng.randint(0, 3)
    if n_ == 'upper': return rng.randint(4, 9)
    if n_ == 'minage': return rng.randint(21, 60)
    if n_ == 'maxage': return rng.randint(61, 99)
    if n_ == 'table': return rng.choice(['q', 'd'])
    raise KeyError((cls, meth, name))


def outcome(c, key, f, *a, **k):
    """value, or refusal; a refusal is an outcome like any other here"""
    c.stats.events += 1
    try: r = f(*a, **k)
    except (AssertionError, Exception) as e:
        c.log.append(f'{key}: refused {type(e).__name__}: {e}')
        return ('refused',)
    c.log.append(f'{key}: {str(r)[:80]}')
    try: return norm(r)
    except Exception: return repr(type(r))


def alike(a, b):
    if isinstance(a, float) and isinstance(b, float): return a == b or (math.isnan(a) and math.isnan(b)) or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return len(a) == len(b) and all(alike(u, v) for u, v in zip(a, b))
    return a == b


def given(c, rng, cls, meth, spec, ages):
    """explicit arguments and the set of those left at their default"""
    full, omitted = {}, set()
    for n, d in parse(spec):
        if n == 'contract' and d == 'CON': d = Contract()
        keep = d is not KeyError and rng.random() < (.65 if meth not in ('gross_premium',) else .5)
        if n == 's' and cls in ('Interest',): keep = True
        if keep: full[n] = d; omitted.add(n)
        else:
            v = draw(rng, cls, meth, n, ages)
            if v is None or v == 'flip': v = not d
            full[n] = v
    if meth == 'e_approximate': full.update(e_complete=None, e_curtate=draw(rng, cls, meth, 'e_curtate', ages)) if rng.random() < .5 else full.update(e_complete=draw(rng, cls, meth, 'e_complete', ages), e_curtate=None)
    if meth == 'e_approximate': omitted -= {n for n in ('e_complete', 'e_curtate') if full[n] is not None}; omitted |= {n for n in ('e_complete', 'e_curtate') if full[n] is None}
    return full, omitted


def three_ways(c, rng, cls, obj, meth, spec, ages, group):
    full, omitted = given(c, rng, cls, meth, spec, ages)
    order = [n for n, _ in parse(spec)]
    c.note(cls=cls, meth=meth, args={k: (vars(v) if isinstance(v, Contract) else 'function' if callable(v) else v) for k, v in full.items()}, omitted=sorted(omitted)); c.dim(function=f'{cls}.{meth}')
    f = getattr(obj, meth)
    want = outcome(c, 'explicit', f, **full)
    c.dim(explicit='refused' if want == ('refused',) else 'answered')
    short = {k: v for k, v in full.items() if k not in omitted}
    names = list(short); rng.shuffle(names)
    got = outcome(c, 'omitted', f, **{n: short[n] for n in names})
    c.true('omitted', alike(got, want), lambda: f'{cls}.{meth} with {sorted(omitted)} left out: {got}, with their defaults written out: {want}')
    k = rng.randint(1, len(order))
    pos = [full[n] for n in order[:k]]; rest = {n: v for n, v in full.items() if n not in order[:k] and (n not in omitted or rng.random() < .5)}
    got = outcome(c, 'positional', f, *pos, **rest)
    c.true('positional', alike(got, want), lambda: f'{cls}.{meth} with {order[:k]} by position: {got}, by name: {want}')


def functions(c, rng):
    cls = rng.choice(sorted(BASES))
    meth = rng.choice(sorted(METHODS[cls]))
    obj, ages = build(cls, rng)
    if cls == 'SULT' and meth == 'frame' and rng.random() < .8: raise Skip('costly')
    three_ways(c, rng, cls, obj, meth, METHODS[cls][meth], ages, 'functions')


def own(c, rng):
    """the functions that a class defines itself"""
    cls = rng.choice(sorted(k for k in BASES if SPEC.get(k) and k not in GEN))
    meth = rng.choice(sorted(SPEC[cls]))
    obj, ages = build(cls, rng)
    if cls == 'SULT' and meth == 'frame' and rng.random() < .8: raise Skip('costly')
    three_ways(c, rng, cls, obj, meth, SPEC[cls][meth], ages, 'own')


def generic(c, rng):
    """every function of the class hierarchy from survival to reserves, on a model of the most general class"""
    cls = 'Reserves'
    k = rng.choice(GEN[:-1]); meth = rng.choice(sorted(SPEC[k]))
    obj, ages = build(cls, rng)
    if meth.startswith(('t_V', 'r_V')):
        n = rng.randint(5, 9)
        obj.set_reserves(T=n, endowment=rng.choice([0, 1]), V={t: rng.uniform(.1, .9) for t in range(0, n + 1)})
    three_ways(c, rng, cls, obj, meth, SPEC[k][meth], ages, 'generic')


# ---- constructors and setters -------------------------------------------------
def subset(rng, spec, values):
    """explicit keywords, the omitted ones at their defaults; and order"""
    full, omitted = {}, set()
    for n, d in spec:
        if d is not KeyError and rng.random() < .6: full[n] = d; omitted.add(n)
        else: full[n] = values(n)
    return full, omitted


def same_answers(c, key, a, b, asks):
    for name, f in asks:
        u, v = outcome(c, name, lambda: f(a)), outcome(c, name, lambda: f(b))
        c.true(key, alike(u, v), lambda: f'{name}: {v} when omitted, {u} with the defaults written out')


def constructors(c, rng):
    k = rng.choice(['Contract', 'LifeTable', 'SULT', 'SelectLife', 'ExtraRisk', 'Woolhouse', 'Recursion', 'Interest', 'mthly', 'double_force', 'Fractional', 'set_survival', 'set_table', 'set_reserves', 'fill_reserves', 'set_select',
                    'sel_table', 'renewals', 'quantiles'])
    c.dim(constructor=k)
    key = 'constructor.' + k
    if k == 'Contract':
        spec = parse('premium=1 initial_policy=0 initial_premium=0 renewal_policy=0 renewal_premium=0 settlement_policy=0 benefit=1 endowment=0 T=W discrete=True')
        full, om = subset(rng, spec, lambda n: getattr(contract(rng), n))
        c.note(kind=k, full=full, omitted=sorted(om))
        A, B = c.call(key, Contract, **full), c.call(key, Contract, **{n: v for n, v in full.items() if n not in om})
        asks = [(n, lambda o, n=n: getattr(o, n)) for n, _ in spec] + [(p, lambda o, p=p: getattr(o, p)) for p in ('premium_terms', 'initial_cost', 'claims_cost', 'renewal_profit')]
        same_answers(c, key, A, B, asks)
        j = rng.randint(1, len(spec))
        C = c.call(key, Contract, *[full[n] for n, _ in spec[:j]], **{n: full[n] for n, _ in spec[j:]})
        same_answers(c, key + '.positional', A, C, asks)
    elif k == 'renewals':
        con = contract(rng)
        c.note(kind=k)
        asks = [(n, lambda o, n=n: getattr(o, n)) for n in ('premium', 'initial_policy', 'initial_premium', 'renewal_policy', 'T', 'discrete')]
        same_answers(c, key, c.call(key, con.renewals, t=0), c.call(key, con.renewals), asks)
    elif k in ('LifeTable', 'Fractional'):
        q = {50 + j: rng.uniform(.02, .3) for j in range(8)}; q[58] = 1.
        c.note(kind=k, q=q)
        A, B = LifeTable(udd=True, verbose=False).set_table(q=q).set_interest(i=.06), LifeTable().set_table(q=q).set_interest(i=.06)
        if k == 'Fractional':
            A, B = [o.set_survival(l=lambda x, s: max(0., 1 - ((x + s) / 100)**2), maxage=100).set_interest(i=.06) for o in (Reserves(udd=True), Reserves())]
        asks = [('p_r', lambda o: o.p_r(51, r=.3, t=.9)), ('q_r', lambda o: o.q_r(52, r=.3, t=.9)), ('e_r', lambda o: o.e_r(52, t=3.5)), ('mu_r', lambda o: o.mu_r(52, r=.4)), ('A', lambda o: o.whole_life_insurance(51))]
        same_answers(c, key, A, B, asks)
    elif k == 'SULT':
        spec = parse('i=0.05 radix=100000 minage=20 maxage=130')
        full, om = subset(rng, spec, lambda n: {'i': rng.uniform(.02, .1), 'radix': rng.choice([1000, 10000]), 'minage': rng.randint(0, 30), 'maxage': rng.randint(110, 125)}[n])
        c.note(kind=k, full=full, omitted=sorted(om))
        Sx = lambda x, t: math.exp(-.00022 * t - .0000027 * 1.124**x * (1.124**t - 1) / math.log(1.124))
        A, B = c.call(key, SULT, S=Sx, **full), c.call(key, SULT, **{n: v for n, v in full.items() if n not in om})
        same_answers(c, key, A, B, [('l', lambda o: o.l_x(50)), ('l0', lambda o: o.l_x(full['minage'])), ('q', lambda o: o.q_x(109)), ('A', lambda o: o.whole_life_insurance(60)), ('max', lambda o: o.max_term(60, W)), ('p_r', lambda o: o.p_r(60, r=.5, t=.5))])
        if rng.random() < .3:
            C = c.call(key, SULT, full['i'], full['radix'], Sx, full['minage'], full['maxage'])
            same_answers(c, key + '.positional', A, C, [('l', lambda o: o.l_x(50)), ('A', lambda o: o.whole_life_insurance(60)), ('max', lambda o: o.max_term(60, W))])
    elif k in ('SelectLife', 'sel_table', 'set_select'):
        q, n, lo, hi = gens.select_q(rng, n=8)
        rows = {x: list(r.values()) for x, r in q.items()}
        c.note(kind=k, rows=rows)
        asks = [('l', lambda o: o.l_x(lo)), ('l1', lambda o: o.l_x(lo, s=1)), ('p', lambda o: o.p_x(lo, s=1, t=2)), ('q', lambda o: o.q_x(lo + 2, u=1)), ('frame', lambda o: o.frame('l')), ('p_r', lambda o: o.p_r(lo, r=.4, t=.5))]
        if k == 'SelectLife':
            A, B = SelectLife(periods=n, udd=True, verbose=False), SelectLife(periods=n)
            C = SelectLife(n, True, False)
            for o in (A, B, C): o.set_table(q=rows).set_interest(i=.05)
            same_answers(c, key + '.positional', A, C, asks)
            u = {50 + j: .05 + .01 * j for j in range(8)}
            D, E = SelectLife(periods=0), SelectLife()
            for o in (D, E): o.set_select(s=0, age_selected=False, q=u, fill=True)
            same_answers(c, key, D, E, [('p', lambda o: o.p_x(51, t=2)), ('l', lambda o: o.l_x(52))])
        elif k == 'sel_table':
            A, B = SelectLife(periods=n), SelectLife(periods=n)
            A.set_table(q=rows, fill=True, radix=100000, l=None, d=None, A=None, a=None, e=None); B.set_table(q=rows)
        else:
            A, B = SelectLife(periods=n), SelectLife(periods=n)
            for s in range(n + 1):
                col = {x: r[s] for x, r in q.items()}
                A.set_select(s=s, age_selected=True, q=col, radix=100000, fill=False); B.set_select(s, True, q=col)
            c.true(key, alike(outcome(c, 'unfilled', lambda: A.l_x(lo)), outcome(c, 'unfilled', lambda: B.l_x(lo))), 'a column set without asking to fill the table is not filled')
            A.fill_table(radix=100000); B.fill_table()
        same_answers(c, key, A, B, asks)
    elif k == 'ExtraRisk':
        life, ages = build(rng.choice(['SULT', 'Makeham']), rng)
        x = rng.randint(*ages); r = rng.choice(ExtraRisk.risks)
        c.note(kind=k, x=x, risk=r)
        asks = [('p', lambda o: o.p_x(x)), ('q', lambda o: o.q_x(x, s=1))]
        same_answers(c, key, ExtraRisk(life=life, risk='', extra=0.), ExtraRisk(life), asks)
        same_answers(c, key, ExtraRisk(life=life, risk=r, extra=0.), ExtraRisk(life, r), asks)
        same_answers(c, key + '.positional', ExtraRisk(life=life, risk=r, extra=1.5 if r != 'ADD_AGE' else 1), ExtraRisk(life, r, 1.5 if r != 'ADD_AGE' else 1), asks)
        c.close(key + '.neutral', outcome(c, 'p', ExtraRisk(life).p_x, x), life.p_x(x), rel=1e-9)
    elif k == 'Woolhouse':
        life, ages = build(rng.choice(['SULT', 'Makeham']), rng)
        x = rng.randint(*ages); m = rng.choice([2, 4, 12])
        c.note(kind=k, x=x, m=m)
        asks = [('a', lambda o: o.whole_life_annuity(x)), ('t', lambda o: o.temporary_annuity(x, t=5)), ('mu', lambda o: o.mu_x(x)), ('A', lambda o: o.whole_life_insurance(x))]
        same_answers(c, key, Woolhouse(m=m, life=life, three_term=False, approximate_mu=True), Woolhouse(m=m, life=life), asks)
        t3 = rng.random() < .5
        same_answers(c, key, Woolhouse(m=m, life=life, three_term=t3, approximate_mu=True), Woolhouse(m, life, t3), asks)
        same_answers(c, key, Woolhouse(m=m, life=life, three_term=True, approximate_mu=False), Woolhouse(m, life, True, False), asks)
    elif k == 'Recursion':
        c.note(kind=k)
        seed = rng.random()
        import random
        facts = rng.choice([0, 1, 2, 3])
        def mk(**kw):
            o = Recursion(**kw).set_interest(i=.05)
            for x in range(60, 62 + facts): o.set_q(.01 + .002 * (x - 60), x=x)
            return o.set_A(.6, x=62 + facts)
        A, B = mk(depth=3, verbose=False), mk(verbose=False)
        # how far it searches: facts 2, 3, 4, or 5 recursion steps away
        same_answers(c, key, A, B, [(f'A{x}', lambda o, x=x: o.whole_life_insurance(x)) for x in (60, 61)] + [('p', lambda o: o.p_x(60, t=3))])
        setters(c, rng)
    elif k == 'Interest':
        i = rng.uniform(.01, .1); m = rng.choice([2, 12])
        c.note(kind=k, i=i, m=m)
        form = rng.choice(['i', 'delta', 'd', 'v'])
        val = dict(i=i, delta=math.log1p(i), d=i / (1 + i), v=1 / (1 + i))[form]
        asks = [(n, lambda o, n=n: getattr(o, n)) for n in ('i', 'd', 'v', 'delta')] + [('v_t', lambda o: o.v_t(3.5)), ('annuity', lambda o: o.annuity(10, m=4))]
        full = dict(i=-1., delta=-1., d=-1., v=-1., i_m=-1., d_m=-1., m=0, v_t=None); full[form] = val
        A = c.call(key, Interest, **full)
        same_answers(c, key, A, c.call(key, Interest, **{form: val}), asks)
        order = list(full)
        same_answers(c, key + '.positional', A, c.call(key, Interest, *[full[n] for n in order[:order.index(form) + 1]]), asks)
    elif k in ('mthly', 'double_force'):
        i = rng.uniform(.01, .1); m = rng.choice([2, 12])
        c.note(kind=k, i=i, m=m)
        if k == 'mthly':
            for form, val in dict(i=i, d=i / (1 + i), i_m=i, d_m=i).items():
                full = dict(m=m, i=-1, d=-1, i_m=-1, d_m=-1); full[form] = val
                u = outcome(c, key, Interest.mthly, **full)
                c.true(key, alike(u, outcome(c, key, Interest.mthly, m=m, **{form: val})), f'{form}')
                order = list(full)
                c.true(key + '.positional', alike(u, outcome(c, key, Interest.mthly, *[full[n] for n in order[:order.index(form) + 1]])), f'{form}')
        else:
            for form, val in dict(i=i, delta=math.log1p(i), d=i / (1 + i), v=1 / (1 + i)).items():
                full = dict(i=-1., delta=-1., d=-1., v=-1.); full[form] = val
                u = outcome(c, key, Interest.double_force, **full)
                c.true(key, alike(u, outcome(c, key, Interest.double_force, **{form: val})), f'{form}')
                order = list(full)
                c.true(key + '.positional', alike(u, outcome(c, key, Interest.double_force, *[full[n] for n in order[:order.index(form) + 1]])), f'{form}')
    elif k == 'set_survival':
        w = rng.randint(80, 110)
        c.note(kind=k, w=w)
        S = lambda x, s, t: max(0., 1 - t / (w - x - s)) if x + s < w else float(t <= 0)
        A, B = Reserves().set_survival(S=S, f=None, l=None, mu=None, minage=0, maxage=1000), Reserves().set_survival(S=S)
        C = Reserves().set_survival(S, None, None, None, 0, w); D = Reserves().set_survival(S=S, maxage=w)
        asks = [('max', lambda o: o.max_term(50, W)), ('p', lambda o: o.p_x(50, t=3)), ('l', lambda o: o.l_x(30)), ('A', lambda o: o.term_insurance(50, t=8))]
        for o in (A, B, C, D): o.set_interest(i=.05)
        same_answers(c, key, A, B, asks)
        same_answers(c, key + '.positional', D, C, asks + [('A', lambda o: o.whole_life_insurance(60))])
    elif k == 'set_table':
        q = {50 + j: rng.uniform(.02, .3) for j in range(8)}
        c.note(kind=k, q=q)
        A = c.call(key, LifeTable().set_table, radix=100000, minage=-1, maxage=-1, fill=True, l=None, d=None, p=None, q=q)
        B = c.call(key, LifeTable().set_table, q=q)
        C = c.call(key, LifeTable().set_table, 1000, -1, -1, True, None, None, None, q); D = c.call(key, LifeTable().set_table, radix=1000, q=q)
        asks = [('l', lambda o: o.l_x(50)), ('l5', lambda o: o.l_x(55)), ('p', lambda o: o.p_x(52, t=2)), ('frame', lambda o: o.frame()), ('max', lambda o: o.max_term(50, W))]
        same_answers(c, key, A, B, asks); same_answers(c, key + '.positional', D, C, asks)
        E, F = LifeTable().set_table(q=q, fill=False), LifeTable().set_table(q=q, fill=False)
        E.fill_table(radix=100000); F.fill_table(100000)
        same_answers(c, key, A, E, asks[:4]); same_answers(c, key, A, F, asks[:4])
    elif k in ('set_reserves', 'fill_reserves'):
        life, ages = build('SULT', rng); n = rng.randint(3, 6); x = rng.randint(30, 70)
        c.note(kind=k, x=x, n=n)
        asks = [(f't{t}', lambda o, t=t: o.t_V(x=x, t=t, premium=.1)) for t in range(n + 1)] + [('frame', lambda o: o.reserves_frame())]
        A, B = SULT(), SULT()
        if k == 'set_reserves':
            V = {t: rng.uniform(.1, .9) for t in range(1, n)}
            A.set_reserves(T=0, endowment=0, V=V); B.set_reserves(V=V)
            same_answers(c, key, A, B, asks)
            A.set_reserves(T=n, endowment=0, V=None); B.set_reserves(n)
            same_answers(c, key, A, B, asks)
            A, B = SULT().set_reserves(T=n, endowment=2, V=V), SULT().set_reserves(n, 2, V)
        else:
            con = Contract(premium=rng.uniform(.01, .1), T=n, benefit=rng.uniform(1, 3), endowment=rng.choice([0, 1.5]))
            for o in (A, B): o.set_reserves(T=n, V={0: 0})
            r = rng.choice([A.fill_reserves, None])
            A.fill_reserves(x=x, s=0, reserve_benefit=False, contract=con); B.fill_reserves(x=x, contract=con)
            same_answers(c, key, A, B, asks)
            A, B = SULT().set_reserves(T=n, V={0: 0}), SULT().set_reserves(T=n, V={0: 0})
            A.fill_reserves(x=x, s=1, reserve_benefit=True, contract=con); B.fill_reserves(x, 1, True, con)
        same_answers(c, key + '.positional', A, B, asks)
    else:
        c.note(kind=k)
        same_answers(c, key, Life, Life(), [('q', lambda o: o.quantiles_frame())])
        c.true(key, alike(outcome(c, key, Life.quantiles_frame, quantiles=[.8, .85, .9, .95, .975, .99, .995]), outcome(c, key, Life.quantiles_frame)), 'default quantiles')


SETTERS = dict(set_q='val x s=0 t=1 u=0', set_p='val x s=0 t=1', set_e='val x s=0 t=W curtate=False moment=1', set_E='val x s=0 t=1 endowment=1 moment=1', set_IA='val x s=0 t=W b=1 discrete=True',
               set_DA='val x s=0 t=W b=1 discrete=True', set_A='val x s=0 t=W u=0 b=1 moment=1 endowment=0 discrete=True', set_a='val x s=0 t=W u=0 b=1 variance=False discrete=True')


def setters(c, rng):
    """facts recorded with arguments omitted, by name, by position: looked up by fully explicit queries"""
    m = rng.choice(sorted(SETTERS)); spec = parse(SETTERS[m])
    val = {n: v for n, v in [('val', rng.uniform(.1, .9)), ('x', 60), ('s', 1), ('t', rng.randint(2, 4)), ('u', rng.randint(1, 2)), ('b', rng.choice([2., 10.])), ('moment', 2), ('endowment', 1.), ('curtate', True), ('discrete', False), ('variance', True)]}
    full, om = subset(rng, spec, lambda n: val[n])
    c.note(setter=m, full=full, omitted=sorted(om)); c.dim(setter=m)
    mk = lambda: Recursion(depth=1, verbose=False).set_interest(i=.05)
    A = c.call('setter', getattr(mk(), m), **full)
    B = c.call('setter', getattr(mk(), m), **{n: v for n, v in full.items() if n not in om})
    j = rng.randint(1, len(spec))
    C = c.call('setter', getattr(mk(), m), *[full[n] for n, _ in spec[:j]], **{n: full[n] for n, _ in spec[j:]})
    f = {n: v for n, v in full.items() if n != 'val'}
    asks = []
    for x_ in {60, 60 + f.get('s', 0)}:
        for t in {f.get('t', 1), 1, W, 2}:
            for d in (True, False):
                g = dict(x=x_, t=t)
                h = dict(b=f.get('b', 1), discrete=d)
                g1 = {}
                if m in ('set_q',): asks.append(('q', lambda o, g=g: o.q_x(**g, u=f['u'])))
                elif m == 'set_p': asks.append(('p', lambda o, g=g: o.p_x(**g)))
                elif m == 'set_e': asks.append(('e', lambda o, g=g, d=d: o.e_x(**g, curtate=d, moment=f['moment'])))
                elif m == 'set_E': asks.append(('E', lambda o, g=g: o.E_x(**g, endowment=1, moment=f['moment'])))
                elif m == 'set_IA': asks.append(('IA', lambda o, g=g, d=d: o.increasing_insurance(**g, b=1, discrete=d)))
                elif m == 'set_DA': asks.append(('DA', lambda o, g=g, d=d: o.decreasing_insurance(**g, b=1, discrete=d)))
                elif m == 'set_A':
                    asks.append(('A', lambda o, g=g, d=d: o.whole_life_insurance(g['x'], moment=f['moment'], discrete=d, b=1)))
                    asks.append(('A1', lambda o, g=g, d=d: o.term_insurance(**g, moment=f['moment'], discrete=d, b=1)))
                    asks.append(('Ae', lambda o, g=g, d=d: o.endowment_insurance(**g, moment=f['moment'], discrete=d, b=1, endowment=1)))
                    asks.append(('Au', lambda o, g=g, d=d: o.deferred_insurance(**g, u=f['u'], moment=f['moment'], discrete=d, b=1)))
                elif m == 'set_a':
                    asks.append(('a', lambda o, g=g, d=d: o.whole_life_annuity(g['x'], discrete=d, b=1, variance=f['variance'])))
                    asks.append(('at', lambda o, g=g, d=d: o.temporary_annuity(**g, discrete=d, b=1, variance=f['variance'])))
                    asks.append(('au', lambda o, g=g, d=d: o.deferred_annuity(**g, u=f['u'], discrete=d, b=1)))
    same_answers(c, 'setter.omitted', A, B, asks)
    same_answers(c, 'setter.positional', A, C, asks)


GROUPS = [('own', own, 700, 14000), ('functions', functions, 500, 14000), ('generic', generic, 400, 10000), ('constructors', constructors, 300, 6000), ('setters', setters, 150, 3000)]
QUICK = 5
