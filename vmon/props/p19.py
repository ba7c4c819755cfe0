"""P19 purity and isolation over histories"""
import copy, math, os, pickle, select, signal, time
import numpy as np
import pandas as pd
import actuarialmath as am
from actuarialmath import (Premiums, PolicyValues, Reserves, Contract, LifeTable, SelectLife, SULT, Recursion, Interest, Life, Actuarial,
                           ConstantForce, Uniform, Beta, Gompertz, Makeham, UDD, Woolhouse, Mthly, ExtraRisk)
from vmon import ref, gens
from vmon.core import Skip

RULE = ('A case draws an interleaved history of queries and reconfigurations over several live models of different kinds that share argument objects, and executes it in a forked process, recording every answer. Each answer must equal the answer to '
        'the same question put, in a freshly forked process which has asked nothing else, to a newly built model with the same effective configuration and tracing switched the other way; re-running the same history must reproduce every answer; and every argument '
        'object must be unchanged at the end. Distinct by history.')
ASSUMPTIONS = ['a refused query is compared by its refusal only', 'answers agree within 1e-8 relative', 'filling a reserve or life table is a reconfiguration, not a query', 'recursion depth at most 2']
W = -999


# ---- forked execution -------------------------------------------------------
class Timeout(Exception): pass


def forked(fn, limit=90):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            os.close(r)
            try:
                out = pickle.dumps(('ok', fn()))
            except BaseException as e:
                import traceback
                out = pickle.dumps(('err', traceback.format_exc()))
            while out:
                out = out[os.write(w, out):]
        finally:
            os._exit(0)
    os.close(w)
    buf, end = b'', time.time() + limit
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                raise Timeout()
            b = os.read(r, 1 << 16)
            if not b: break
            buf += b
    finally:
        os.close(r)
        try: os.kill(pid, signal.SIGKILL)
        except ProcessLookupError: pass
        os.waitpid(pid, 0)
    kind, res = pickle.loads(buf)
    if kind == 'err': raise RuntimeError('harness: ' + res)
    return res


def norm(r):
    if r is None or isinstance(r, (str, bool)): return r
    if isinstance(r, (int, float, np.integer, np.floating)): return float(r)
    if isinstance(r, np.ndarray): return [norm(v) for v in r.tolist()]
    if isinstance(r, pd.DataFrame): return ('frame', [str(c) for c in r.columns], [norm(v) for v in r.index], [norm(v) for v in r.values.tolist()])
    if isinstance(r, dict): return ('dict', sorted([(str(k), norm(v)) for k, v in r.items()]))
    if isinstance(r, (list, tuple)): return [norm(v) for v in r]
    if isinstance(r, Contract): return ('contract', sorted((k, norm(getattr(r, k))) for k in TERMS))
    if isinstance(r, Interest): return ('interest', r.i, r.delta, r.v)
    return ('object', type(r).__name__)


def alike(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b)) or math.isclose(a, b, rel_tol=1e-8, abs_tol=1e-9)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(u, v) for u, v in zip(a, b))
    return a == b


TERMS = ('premium', 'benefit', 'discrete', 'initial_policy', 'initial_premium', 'renewal_policy', 'renewal_premium', 'settlement_policy', 'endowment', 'T')


# ---- configurations (plain data; nothing here runs library code) ----------------
def interest(rng):
    return gens.interest_kw(rng, rng.choice([.05, .06, rng.uniform(.01, .12), rng.uniform(.005, .2)]))


def law(rng):
    k = rng.random()
    if k < .3: return ref.Makeham(A=rng.uniform(.02, .08))
    if k < .6: return ref.Makeham(A=rng.uniform(0, .01), B=10 ** rng.uniform(-4.5, -3.5), c=rng.uniform(1.07, 1.12))
    if k < .8: return ref.Beta(rng.randint(80, 120), rng.choice([1., 2., 1.5]))
    return ref.Makeham(A=rng.uniform(0, .01), B=10 ** rng.uniform(-4.5, -3.5), c=rng.uniform(1.07, 1.12), D=.01, k=.5)


def survival(rng):
    L = law(rng)
    form = rng.choice(['S', 'S', 'mu', 'l'])
    if form == 'mu' and L.omega: form = 'S'
    return ('set_survival', dict(law=L, form=form, maxage=int(L.omega) if L.omega else rng.choice([110, 130])))


def qdict(rng, x0, n):
    q = gens.gompertz_q(rng, n, x0)
    q = [max(1e-5, round(v, 6)) for v in q]; q[-1] = 1.
    return {x0 + k: v for k, v in enumerate(q)}


def facts(rng, x):
    """a few facts that need not be mutually consistent are avoided: one-year rates and one whole-life value"""
    out = [('set_' + ('q' if rng.random() < .5 else 'p'), None)]
    ops = []
    for k in range(rng.randint(2, 4)):
        q = round(rng.uniform(.01, .1), 4)
        ops.append(rng.choice([('set_q', (q, x + k), {}), ('set_p', (1 - q, x + k), {})]))
    k = len(ops)
    for _ in range(rng.randint(0, 2)):
        ops.append(rng.choice([('set_A', (rng.uniform(.2, .5), x + k), {}), ('set_a', (rng.uniform(8, 15), x), {}), ('set_E', (rng.uniform(.5, .7), x), dict(t=rng.randint(5, 9))),
                               ('set_IA', (rng.uniform(1, 4), x), {}), ('set_e', (rng.uniform(10, 30), x + k), dict(curtate=True)), ('set_A', (rng.uniform(200, 500), x), dict(b=1000, t=10, endowment=1000))]))
    return ops


def new_config(rng, kind):
    """ordered list of configuration operations; the first constructs"""
    if kind == 'generic':
        return [('new', rng.choice(['Premiums', 'PolicyValues', 'Reserves']), {}), survival(rng), ('set_interest', interest(rng))]
    if kind == 'law':
        n, kw = rng.choice([('ConstantForce', dict(mu=rng.uniform(.02, .08))), ('Uniform', dict(omega=rng.randint(80, 120))), ('Beta', dict(omega=rng.randint(80, 120), alpha=rng.choice([2, .7]))),
                            ('Gompertz', dict(B=10 ** rng.uniform(-4.5, -3.5), c=rng.uniform(1.07, 1.12))), ('Makeham', dict(A=.0002, B=10 ** rng.uniform(-4.5, -3.5), c=rng.uniform(1.07, 1.12)))])
        return [('new', n, kw), ('set_interest', interest(rng))]
    if kind == 'table':
        return [('new', 'LifeTable', dict(udd=rng.random() < .6)), ('set_interest', interest(rng)), ('set_table', dict(q=qdict(rng, 40, rng.randint(8, 60))))]
    if kind == 'select':
        q, periods, x0, hi = gens.select_q(rng, n=rng.randint(6, 12))
        return [('new', 'SelectLife', dict(udd=rng.random() < .6, periods=periods)), ('set_interest', interest(rng)), ('set_select', q, periods)]
    if kind == 'sult':
        return [('new', 'SULT', dict(udd=rng.random() < .7))] + ([('set_interest', interest(rng))] if rng.random() < .5 else [])
    if kind == 'recursion':
        x = rng.choice([0, 40, 60])
        return [('new', 'Recursion', dict(depth=2)), ('set_interest', interest(rng)), ('facts', x, facts(rng, x))]
    raise ValueError(kind)


def reconfig(rng, kind, cfg):
    ops = ['interest'] * 2
    if kind == 'generic': ops += ['survival'] * 2
    if kind == 'table': ops += ['table']
    if kind in ('table', 'generic', 'sult'): ops += ['reserves', 'fill']
    if kind == 'recursion': ops += ['facts'] * 2
    if kind == 'select': return None
    k = rng.choice(ops)
    if k in ('reserves', 'fill') and cfg[0][1] in ('Premiums', 'PolicyValues'): k = 'interest'
    if k == 'interest': return ('set_interest', interest(rng))
    if k == 'survival': return survival(rng)
    if k == 'table':
        q = [o for o in cfg if o[0] == 'set_table'][0][1]['q']
        ages = sorted(q)[:-1]
        # entries of the mortality column replace those given before: only a table kept unfilled can be refilled
        lo = ages[0]
        return ('set_table', dict(q={lo - 1: round(rng.uniform(.001, .01), 5)})) if lo > 1 and len([o for o in cfg if o[0] == 'set_table']) == 1 else ('set_interest', interest(rng))
    if k == 'reserves': return ('set_reserves', dict(T=rng.randint(2, 8), endowment=rng.choice([0, 0, 1000])))
    if k == 'fill': return ('fill_reserves', dict(x=rng.choice([45, 50])), rng.randrange(2))
    if k == 'facts': return ('facts', None, facts(rng, rng.choice([0, 40, 60])))


def effective(cfg):
    """drop operations superseded by later ones"""
    if any(o[0] == 'fill_reserves' for o in cfg): return cfg
    last = {}
    for j, o in enumerate(cfg):
        if o[0] in ('set_interest', 'set_survival'): last[o[0]] = j
    keep = [o for j, o in enumerate(cfg) if o[0] not in last or last[o[0]] == j]
    return keep


# ---- execution of operations ------------------------------------------------------
def apply(obj, op, args, trace, alias=False):
    """perform a configuration operation on the live object; alias: pass the shared argument objects themselves"""
    k = op[0]
    cp = (lambda v: v) if alias else copy.deepcopy
    if k == 'new':
        kw = dict(op[2])
        if op[1] in ('LifeTable', 'SelectLife', 'Recursion'): kw['verbose'] = trace
        return getattr(am, op[1])(**kw)
    if k == 'set_interest': obj.set_interest(**op[1])
    elif k == 'set_survival':
        d = op[1]
        obj.set_survival(**gens.supply(d['law'], d['form']), minage=0, maxage=d['maxage'])
    elif k == 'set_table': obj.set_table(**cp(op[1]))
    elif k == 'set_select':
        for s in range(op[2] + 1):
            obj.set_select(s=s, age_selected=True, q={x: r[s] for x, r in op[1].items()})
        obj.fill_table()
    elif k == 'set_reserves': obj.set_reserves(**cp(op[1]))
    elif k == 'fill_reserves': obj.fill_reserves(**op[1], contract=args['contracts'][op[2]])
    elif k == 'facts':
        for m, a, kw in op[2]: getattr(obj, m)(*a, **kw)
    return obj


OVER = {'udd': lambda life, m: UDD(m=m, life=life), 'wool': lambda life, m: Woolhouse(m=m, life=life), 'wool3': lambda life, m: Woolhouse(m=m, life=life, three_term=True),
        'mthly': lambda life, m: Mthly(m=m, life=life), 'extraF': lambda life, m: ExtraRisk(life=life, risk='ADD_FORCE', extra=.01 * m), 'extraA': lambda life, m: ExtraRisk(life=life, risk='ADD_AGE', extra=2),
        'extraM': lambda life, m: ExtraRisk(life=life, risk='MULTIPLY_RATE', extra=1.1)}


def ask(obj, q, args, over):
    """put one question; answers and refusals are values"""
    target, name, kw = q['on'], q['name'], q['kw']
    try:
        if target == 'life': o = obj
        elif target == 'interest': o = obj.interest
        elif target == 'static': o = getattr(am, q['cls'])
        elif target == 'contract': o = args['contracts'][q['c']]
        else: o = over[target]
        kw = {k: (args['contracts'][v] if k == 'contract' else args['lists'][v] if k in ('p', 'p1') and isinstance(v, str) else v) for k, v in kw.items()}
        if name == '[]': return norm(dict(o[kw['col']]))
        if name == 'solve': return norm(o.solve(lambda P: P * o.whole_life_annuity(kw['x']) - 1000 * o.whole_life_insurance(kw['x']), target=0, grid=[10, 30]))
        if name == 'call_i': return norm([o.i, o.d, o.delta, o.v, o.v_t(2.5)])
        f = getattr(o, name)
        return norm(f(**kw) if callable(f) else f)
    except (AssertionError, Exception) as e:
        return ('refused',)


# ---- questions --------------------------------------------------------------------
def question(rng, kind, cfg, over):
    new = cfg[0][1]
    lo, hi = {'table': (39, 52), 'select': (20, 60), 'sult': (25, 95), 'recursion': (0, 62)}.get(kind, (0, 70))
    x = rng.choice([40, 50, rng.randint(lo, hi)])
    if kind == 'recursion': x = rng.choice([0, 40, 60]) + rng.randint(0, 3)
    if kind == 'select':
        xs = sorted(cfg[2][1]); x = rng.choice(xs)
    s = rng.choice([0, 0, 1, 2]); t = rng.choice([1, 2, 5, 10, W]); u = rng.choice([0, 1, 3]); b = rng.choice([1, 1, 1000])
    T = t if t > 0 else 7
    D = rng.random() < (.9 if kind in ('table', 'select', 'sult') else .75)
    mo = rng.choice([1, 1, 2, -2]); r = rng.choice([.25, .5, .8])
    A, a = rng.uniform(.2, .6), rng.uniform(5, 15)
    c = rng.randrange(2)
    k = rng.random()
    if over and k < .25:
        o = rng.choice(over)
        if o[0].startswith('extra'):
            return dict(on=o[0], **rng.choice([dict(name='p_x', kw=dict(x=x)), dict(name='q_x', kw=dict(x=x)), dict(name='[]', kw=dict(col='q'))]))
        return dict(on=o[0], **rng.choice([dict(name='whole_life_annuity', kw=dict(x=x, s=s, b=b)), dict(name='temporary_annuity', kw=dict(x=x, s=s, t=t, b=b)), dict(name='deferred_annuity', kw=dict(x=x, s=s, u=u, t=t, b=b)),
                                           dict(name='whole_life_insurance', kw=dict(x=x, s=s, b=b)), dict(name='term_insurance', kw=dict(x=x, s=s, t=t, b=b)), dict(name='annuity_twin', kw=dict(A=A)),
                                           dict(name='insurance_twin', kw=dict(a=a))]))
    if k < .29: return dict(on='interest', **rng.choice([dict(name='call_i', kw={}), dict(name='annuity', kw=dict(t=T, m=rng.choice([1, 12]), due=rng.random() < .5))]))
    if k < .33:
        return dict(on='static', **rng.choice([
            dict(cls='Life', name='mixture', kw=dict(p=rng.choice([.3, 'p']), p1=.2, p2=.4, N=3, variance=True)), dict(cls='Life', name='bernoulli', kw=dict(p=.3, a=2, b=1, variance=True)), dict(cls='Life', name='binomial', kw=dict(p=.3, N=5)),
            dict(cls='Life', name='quantiles_frame', kw={}), dict(cls='UDD', name='interest_frame', kw=dict(i=.05)), dict(cls='Interest', name='mthly', kw=dict(m=12, i=.05)), dict(cls='Interest', name='double_force', kw=dict(i=.05)),
            dict(cls='Life', name='portfolio_percentile', kw=dict(mean=3., variance=2., prob=.9, N=10))]))
    if k < .39:
        return dict(on='contract', c=c, **rng.choice([dict(name='premium_terms', kw={}), dict(name='renewals', kw=dict(t=rng.randint(0, 3))), dict(name='renewal_profit', kw={}), dict(name='initial_cost', kw={}), dict(name='claims_cost', kw={})]))
    Q = [('q_x', dict(x=x, s=s, t=T)), ('p_x', dict(x=x, s=s, t=T)), ('e_x', dict(x=x, s=s, t=t, curtate=D)), ('E_x', dict(x=x, s=s, t=T, moment=mo)), ('q_x', dict(x=x, s=s, t=T, u=u)),
         ('whole_life_insurance', dict(x=x, s=s, b=b, moment=mo, discrete=D)), ('term_insurance', dict(x=x, s=s, t=T, b=b, moment=mo, discrete=D)),
         ('deferred_insurance', dict(x=x, s=s, u=u, t=t, b=b, moment=mo, discrete=D)), ('endowment_insurance', dict(x=x, s=s, t=T, b=b, moment=mo, discrete=D)),
         ('increasing_insurance', dict(x=x, s=s, t=t, b=b, discrete=D)), ('decreasing_insurance', dict(x=x, s=s, t=T, b=b, discrete=D)),
         ('whole_life_annuity', dict(x=x, s=s, b=b, discrete=D, variance=rng.random() < .2)), ('temporary_annuity', dict(x=x, s=s, t=t, b=b, discrete=D)),
         ('deferred_annuity', dict(x=x, s=s, u=u, t=t, b=b, discrete=D)), ('certain_life_annuity', dict(x=x, s=s, u=u, t=t, b=b, discrete=D)),
         ('increasing_annuity', dict(x=x, s=s, t=t, b=b, discrete=D)), ('decreasing_annuity', dict(x=x, s=s, t=T, b=b, discrete=D)), ('immediate_annuity', dict(x=x, s=s, t=t, b=b)),
         ('annuity_twin', dict(A=A, discrete=D)), ('insurance_twin', dict(a=a, discrete=D)), ('net_premium', dict(x=x, s=s, t=t, u=u, b=b, discrete=D)), ('net_premium', dict(x=x, s=s, t=T, n=max(1, T - 1), b=b)),
         ('gross_premium', dict(a=a, A=A, benefit=1000, initial_policy=10, renewal_premium=.05)), ('premium_equivalence', dict(A=A, b=b, discrete=D)), ('insurance_equivalence', dict(premium=.05, discrete=D)), ('annuity_equivalence', dict(premium=.05, discrete=D)),
         ('Z_from_t', dict(t=3.7, discrete=D)), ('Y_from_t', dict(t=3.7, discrete=D)), ('solve', dict(x=x))]
    if kind != 'recursion':
        Q += [('f_x', dict(x=x, s=s, t=2)), ('mu_x', dict(x=x, s=s, t=1)), ('l_x', dict(x=x, s=s)), ('d_x', dict(x=x, s=s)), ('Z_t', dict(x=x, prob=.6, discrete=D)), ('Y_t', dict(x=x, prob=.6, discrete=D)), ('Z_from_prob', dict(x=x, prob=.3, discrete=D)),
              ('p_r', dict(x=x, s=s, r=r, t=r)), ('q_r', dict(x=x, s=s, r=r, t=r)), ('e_r', dict(x=x, s=s, r=r, t=2)), ('Z_x', dict(x=x, s=s, t=1)), ('l_r', dict(x=x, s=s, r=r))]
    if new != 'Premiums':
        Q += [('net_policy_value', dict(x=x, s=s, t=2, b=b)), ('net_policy_value', dict(x=x, s=s, t=2, n=5, b=b, endowment=b)), ('net_policy_variance', dict(x=x, s=s, t=2, b=b)),
              ('gross_policy_value', dict(x=x, s=s, t=rng.choice([0, 2]), contract=c)), ('gross_policy_value', dict(x=x, s=s, t=rng.choice([0, 2]), n=5, contract=c)), ('gross_policy_value', dict(x=x, s=s, t=2, n=5)), ('gross_policy_variance', dict(x=x, t=rng.choice([0, 3]), contract=c)),
              ('gross_future_loss', dict(A=A, contract=c)), ('gross_future_loss', dict(A=A)), ('gross_variance_loss', dict(A1=A, A2=A * .7, contract=c)), ('L_from_t', dict(t=4.5, contract=c)), ('L_from_t', dict(t=4.5)),
              ('L_to_t', dict(L=50., contract=c)), ('L_to_t', dict(L=.2)), ('net_future_loss', dict(A=.2, A1=A))]
        if kind != 'recursion': Q += [('L_from_prob', dict(x=x, prob=.4, contract=c)), ('L_from_prob', dict(x=x, prob=.4)), ('L_to_prob', dict(x=x, L=50., contract=c)), ('L_to_prob', dict(x=x, L=.2))]
        if new not in ('PolicyValues',):
            Q += [('FPT_premium', dict(x=x, s=s, n=T, b=b, first=rng.random() < .3)), ('FPT_policy_value', dict(x=x, s=s, t=2, n=8, b=b)), ('reserves_frame', {}), ('t_V', dict(x=x, t=2, premium=10.)), ('r_V_forward', dict(x=x, r=.5, premium=3.))]
    if kind in ('table',): Q += [('frame', {}), ('[]', dict(col=rng.choice(['q', 'p', 'l', 'd'])))] * 2
    if kind == 'select': Q += [('frame', dict(table=rng.choice(['l', 'q', 'd', 'A', 'a', 'e']))), ('[]', dict(col=rng.choice(['l', 'q', 'd'])))] * 2
    if kind == 'sult': Q += [('[]', dict(col=rng.choice(['q', 'a', 'A', '2A']))), ('frame', dict(minage=60, maxage=64))]
    if kind == 'select': Q = [(n, dict(kw, moment=1) if 'moment' in kw else kw) for n, kw in Q]
    name, kw = rng.choice(Q)
    return dict(on='life', name=name, kw=kw)


# ---- histories ---------------------------------------------------------------------
def contract_terms(rng):
    return dict(premium=rng.choice([30., rng.uniform(5, 60)]), benefit=rng.choice([1000., 500.]), endowment=rng.choice([0, 1000., 0]), discrete=rng.random() < .8, initial_policy=rng.choice([0, 15.]), initial_premium=rng.choice([0, .4]),
                renewal_policy=rng.choice([0, 3.]), renewal_premium=rng.choice([0, .05]), settlement_policy=rng.choice([0, 20.]), T=rng.choice([W, 5, 10]))


def rounds(rng, kinds, n):
    """the same questions before and after each reconfiguration"""
    live, cs = [], [contract_terms(rng), contract_terms(rng)]
    kind = kinds[0]
    cfg = new_config(rng, kind)
    over = [(o, rng.choice([2, 4, 12])) for o in rng.sample(sorted(OVER), 2)] if kind not in ('recursion', 'select') and rng.random() < .4 else []
    hist = [('new', 0, cfg, over)]
    qs = [question(rng, kind, cfg, over) for _ in range(n)]
    if kind in ('sult', 'table'): qs += [dict(on='life', name='frame', kw=rng.choice([{}, dict(minage=60, maxage=64)]) if kind == 'sult' else {}), dict(on='life', name='[]', kw=dict(col=rng.choice(['q', 'a', 'A', 'p'] if kind == 'sult' else ['q', 'l', 'd'])))]
    for r in range(rng.randint(2, 4)):
        if r:
            for _ in range(rng.choice([1, 1, 2])):
                op = reconfig(rng, kind, cfg)
                if op is None: op = ('set_interest', interest(rng))
                cfg = cfg + [op + (copy.deepcopy(cs),) if op[0] == 'fill_reserves' else op]
                hist.append(('cfg', 0, op))
        order = qs[:]; rng.shuffle(order)
        for q in order: hist.append(('ask', 0, q, effective(list(cfg)), over, copy.deepcopy(cs)))
    return hist, cs


def history(rng, kinds, n):
    """list of events: (event, effective question configuration needed to ask it of a fresh model)"""
    H, live, cs = [], [], [contract_terms(rng), contract_terms(rng)]
    for i, kind in enumerate(kinds):
        cfg = new_config(rng, kind)
        over = []
        if kind != 'recursion' and rng.random() < .6:
            over = [(o, rng.choice([2, 4, 12])) for o in rng.sample(sorted(OVER), 2)]
            if kind == 'select': over = [o for o in over if not o[0].startswith('extra')]
        live.append([kind, cfg, over])
    shared = [j for j, l in enumerate(live) if l[0] == 'table']
    if len(shared) > 1:      # two tables built from the same dictionary object
        live[shared[1]][1][2] = live[shared[0]][1][2]
    hist = [('new', j, live[j][1], live[j][2]) for j in range(len(live))]
    asked = []
    for _ in range(n):
        j = rng.randrange(len(live))
        kind, cfg, over = live[j]
        k = rng.random()
        if k < .14:
            op = reconfig(rng, kind, cfg)
            if op is None: continue
            live[j][1] = cfg = cfg + [op + (copy.deepcopy(cs),) if op[0] == 'fill_reserves' else op]
            hist.append(('cfg', j, op))
        elif k < .18:
            c = rng.randrange(2)
            upd = {kk: v for kk, v in contract_terms(rng).items() if rng.random() < .4}
            cs[c] = dict(cs[c], **upd)
            hist.append(('contract', c, upd))
        elif k < .2:
            hist.append(('options', rng.random() < .5))
        else:
            if asked and rng.random() < .35:
                j, q = rng.choice(asked)
                kind, cfg, over = live[j]
            else:
                q = question(rng, kind, cfg, over)
                asked.append((j, q))
            hist.append(('ask', j, q, effective(list(cfg)), over, copy.deepcopy(cs)))
    return hist, cs


def mkargs(cs):
    return dict(contracts=[Contract(**c) for c in cs], lists=dict(p=[.3]))


def run(hist, cs0, trace):
    args = mkargs(cs0)
    objs, overs, out = {}, {}, []
    given = []
    for ev in hist:
        if ev[0] == 'new':
            o = None
            for op in ev[2]:
                o = apply(o, op, args, trace, alias=True)
                given.append((op, copy.deepcopy(op)))
            objs[ev[1]] = o
            overs[ev[1]] = {n: OVER[n](o, m) for n, m in ev[3]}
        elif ev[0] == 'cfg':
            before = copy.deepcopy(ev[2])
            try: apply(objs[ev[1]], ev[2], args, trace, alias=True)
            except Exception as e: out.append(('reconfiguration refused', type(e).__name__, ev[2][0]))
            given.append((ev[2], before))
        elif ev[0] == 'contract': args['contracts'][ev[1]].set_contract(**ev[2])
        elif ev[0] == 'options': Recursion.blog_options(latex=ev[1], notebook=False)
        else:
            out.append(ask(objs[ev[1]], ev[2], args, overs[ev[1]]))
    touched = [(b[0], str(a)[:300], str(b)[:300]) for a, b in given if norm_op(a) != norm_op(b)]
    return out, [norm(c) for c in args['contracts']], touched, list(args['lists']['p'])


def norm_op(op):
    return [sorted(o.items(), key=str) if isinstance(o, dict) and all(not isinstance(v, dict) for v in o.values()) and 'law' not in o else repr(o) if isinstance(o, (dict, list)) and 'law' not in o else '' if isinstance(o, dict) else repr(o) for o in op]


def fresh(cfg, over, cs, q, trace):
    o = None
    for op in cfg:
        if op[0] == 'fill_reserves': a = mkargs(op[3])     # the contract as it stood when the table was filled
        else: a = mkargs(cs)
        o = apply(o, op, a, trace)
    return ask(o, q, mkargs(cs), {n: OVER[n](o, m) for n, m in over})


def first_contract(hist, cs):
    """contract terms at the start, recovered by the generator"""
    return cs


def case(c, rng, kinds, n, make=history):
    start = rng.getstate()
    hist, cs_end = make(rng, kinds, n)
    rng2 = type(rng)(); rng2.setstate(start)
    cs0 = [contract_terms(rng2), contract_terms(rng2)]
    c.note(models=[(l[2][0][1], len(l[2])) for l in hist if l[0] == 'new'], events=len(hist), history=[(e[1], e[2]['on'] + '.' + e[2]['name']) if e[0] == 'ask' else e[:3] if e[0] != 'new' else e[:2] for e in hist][:40])
    trace = rng.random() < .5
    try:
        out, cons, touched, lst = forked(lambda: run(hist, cs0, trace), 120)
        again = forked(lambda: run(hist, cs0, not trace), 120)
    except Timeout:
        raise Skip('history took too long')
    ix = 0
    refused = 0
    for ev in hist:
        if ev[0] == 'cfg' and ix < len(out) and isinstance(out[ix], tuple) and out[ix][0] == 'reconfiguration refused':
            if out[ix][2] == 'fill_reserves': raise Skip('reserves cannot be filled past the end of the table')
            c.violate('reconfigure', f'{out[ix][1:]}')
            return
        if ev[0] != 'ask': continue
        _, j, q, cfg, over, cs = ev
        got = out[ix]
        c.stats.events += 1
        kind = cfg[0][1]
        c.dim(question=f"{q['on']}.{q['name']}", model=kind)
        try: want = forked(lambda: fresh(cfg, over, cs, q, not trace), 60)
        except Timeout:
            ix += 1; continue
        key = {'life': 'life', 'interest': 'interest', 'static': 'static', 'contract': 'contract'}.get(q['on'], 'overlay')
        if want == ('refused',): refused += 1
        if not c.true('fresh-' + key, alike(got, want),
                      lambda: f"event {hist.index(ev)}: model {j} ({kind}) {q} answered {got!r:.200} in the history but {want!r:.200} on a fresh model with configuration {cfg!r:.500}"):
            c.log.append(f'history before: {[h for h in hist[:hist.index(ev)] if h[0] != "new" and (h[0] != "ask")][-6:]!r:.1500}')
            break
        ix += 1
    c.stats.dims['refused']['yes'] += refused
    c.stats.dims['refused']['no'] += ix - refused
    c.true('repeatable', alike(out, again[0]), lambda: f'second run of the same history differs: {[(a, b) for a, b in zip(out, again[0]) if not alike(a, b)][:1]!r:.400}')
    want = [('contract', sorted((k, norm(v)) for k, v in t.items())) for t in cs_end]
    c.true('contract-unchanged', alike(cons, want), lambda: f'contracts at the end {cons} instead of {want}')
    c.true('arguments-unchanged', not touched and lst == [.3], lambda: f'arguments modified: {touched} {lst}')


def mixed(c, rng):
    kinds = rng.choices(['generic', 'law', 'table', 'select', 'sult', 'recursion'], [4, 2, 3, 2, 1, 2], k=rng.randint(2, 4))
    case(c, rng, kinds, rng.randint(10, 30))


def twins(c, rng):
    """several models of the same kind"""
    k = rng.choice(['generic', 'law', 'table', 'select', 'recursion', 'recursion'])
    case(c, rng, [k] * rng.randint(2, 3), rng.randint(10, 30))


def deep(c, rng):
    """one model, long history"""
    k = rng.choice(['generic', 'law', 'table', 'select', 'sult', 'recursion', 'recursion'])
    case(c, rng, [k], rng.randint(20, 60))


def rounds_(c, rng):
    k = rng.choice(['generic', 'generic', 'law', 'table', 'table', 'sult', 'sult', 'recursion', 'recursion', 'select'])
    case(c, rng, [k], rng.randint(4, 9), rounds)


# ---- argument objects shared between models -----------------------------------------
def shared_inputs(c, rng):
    """several models built from the same argument objects, reconfigured and filled in turn: the objects stay as the caller made them, and
    each model answers like one which was given its own copies"""
    kind = rng.choice(['reserves', 'reserves', 'table', 'table', 'select', 'columns'])
    c.dim(shared=kind)
    i = rng.uniform(.01, .12)
    udd = rng.random() < .6
    plan, asks = [], []            # plan: list per model of (method, args) over names of shared objects
    objs = {}
    n_models = rng.randint(2, 3)
    x = rng.choice([40, 55])
    if kind == 'reserves':
        T = rng.randint(2, 7)
        V = {t: round(rng.uniform(-20, 300), 2) for t in rng.sample(range(T + 1), rng.randint(1, T))}
        if rng.random() < .6: V[0] = 0
        objs['V'] = V
        base = rng.choice(['ConstantForce', 'SULT', 'Gompertz', 'Reserves'])
        terms = dict(premium=rng.uniform(5, 60), benefit=rng.choice([500., 1000.]), T=T, endowment=rng.choice([0, 700.]))
        mu = rng.uniform(.02, .06)
        def make():
            if base == 'SULT': return SULT(udd=udd)
            if base == 'ConstantForce': return ConstantForce(mu=mu).set_interest(i=i)
            if base == 'Gompertz': return Gompertz(B=.0003, c=1.08).set_interest(i=i)
            return Reserves().set_interest(i=i).set_survival(mu=lambda x, s: mu, minage=0, maxage=120)
        for _ in range(n_models):
            ops = [('set_reserves', dict(V='V', **rng.choice([{}, dict(T=T), dict(T=T + 2), dict(T=T, endowment=250.)])))]
            for _ in range(rng.randint(1, 3)):
                ops.append(rng.choice([('fill_reserves', dict(x=x, contract='C')), ('fill_reserves', dict(x=x, contract='C', reserve_benefit=True)), ('set_reserves', dict(T=T + rng.randint(0, 3))), ('set_reserves', dict(T=T, endowment=rng.choice([100., 900.]))), ('set_reserves', dict(V='V2'))]))
            plan.append(ops)
        objs['V2'] = {T: 55.}
        objs['C'] = Contract(**terms)
        asks = [('reserves_frame', {}), ('t_V', dict(x=x, t=1, premium=12.)), ('t_V', dict(x=x, t=2, premium=12.)), ('T', None)]
    elif kind == 'table':
        q = qdict(rng, x, rng.randint(6, 25))
        ages = sorted(q)
        l, cur = {}, 100000.
        for a in ages: l[a] = cur; cur *= 1 - q[a]
        col = rng.choice(['q', 'p', 'l', 'd'])
        full = {'q': q, 'p': {a: 1 - v for a, v in q.items()}, 'l': {**l, ages[-1] + 1: 0.}, 'd': {a: l[a] * q[a] for a in ages}}
        cut = rng.randint(1, len(ages) - 1)
        objs['lo'] = {a: v for a, v in full[col].items() if a < ages[cut]}
        objs['hi'] = {a: v for a, v in full[col].items() if a >= ages[cut]}
        objs['all'] = dict(full[col])
        make = lambda: LifeTable(udd=udd, verbose=False).set_interest(i=i)
        for _ in range(n_models):
            plan.append(rng.choice([[('set_table', {col: 'all'})], [('set_table', {col: 'lo', 'fill': False}), ('set_table', {col: 'hi'})], [('set_table', {col: 'hi', 'fill': False}), ('set_table', {col: 'lo'})],
                                    [('set_table', {col: 'all', 'fill': False}), ('fill_table', dict(radix=1000.))], [('set_table', {col: 'all'}), ('set_table', {'q': 'extra'})]]))
        objs['extra'] = {ages[0] - 1: .01}
        asks = [('frame', {})] + [('[]', k) for k in 'qpld'] + [('q_x', dict(x=ages[0], t=2)), ('whole_life_insurance', dict(x=ages[0] + 1)), ('_MINAGE', None), ('_MAXAGE', None)]
    else:
        q, periods, x0, hi = gens.select_q(rng, n=rng.randint(5, 9))
        make = lambda: SelectLife(udd=udd, verbose=False, periods=periods).set_interest(i=i)
        if kind == 'select':
            objs['rows'] = {a: list(r) for a, r in q.items()}
            for _ in range(n_models):
                plan.append(rng.choice([[('set_table', dict(q='rows'))], [('set_table', dict(q='rows', fill=False)), ('fill_table', {})], [('set_table', dict(q='rows', fill=False)), ('set_select', dict(s=0, age_selected=True, q='col')), ('fill_table', {})]]))
            objs['col'] = {a: r[0] * .9 for a, r in list(q.items())[:3]}
        else:
            by = rng.random() < .5
            for s in range(periods + 1): objs[f'c{s}'] = {a + (0 if by else s): r[s] for a, r in q.items()}
            for _ in range(n_models):
                order = list(range(periods + 1)); rng.shuffle(order)
                plan.append([('set_select', dict(s=s, age_selected=by, q=f'c{s}')) for s in order] + [('fill_table', rng.choice([{}, dict(radix=1000.)]))])
        asks = [('frame', dict(table=k)) for k in 'qld'] + [('[]', k) for k in 'qld'] + [('q_x', dict(x=x0 + 1, t=2)), ('whole_life_insurance', dict(x=x0 + 1)), ('_MINAGE', None), ('_MAXAGE', None)]
    c.note(kind=kind, plan=plan, objects={k: v for k, v in objs.items() if k != 'C'})
    def perform(o, op, given):
        kw = {k: given[v] if isinstance(v, str) and v in given else v for k, v in op[1].items()}
        try: return getattr(o, op[0])(**kw) is not None
        except (AssertionError, KeyError, TypeError, ZeroDivisionError, ValueError) as e: return type(e).__name__
    def answers(o):
        out = []
        for name, kw in asks:
            try:
                if name == '[]': out.append(norm(dict(o[kw])))
                elif kw is None: out.append(norm(getattr(o, name)))
                else: out.append(norm(getattr(o, name)(**kw)))
            except Exception: out.append('refused')
        return out
    before = copy.deepcopy(objs)
    live = [make() for _ in plan]
    done = [[] for _ in plan]
    steps = [j for j, ops in enumerate(plan) for _ in ops]
    if rng.random() < .6: rng.shuffle(steps)
    at = [0] * len(plan)
    for j in steps:
        done[j].append(perform(live[j], plan[j][at[j]], objs)); at[j] += 1
        c.stats.events += 1
    same = all(norm(objs[k]) == norm(before[k]) if not isinstance(objs[k], dict) else objs[k] == before[k] for k in objs)
    c.true('arguments-unchanged', same, lambda: f'{kind}: the caller\'s objects changed: {[(k, before[k], objs[k]) for k in objs if norm(objs[k]) != norm(before[k])]!r:.500} by {plan}')
    for j, ops in enumerate(plan):
        own = make()
        mine = copy.deepcopy(before)
        ref_done = [perform(own, op, mine) for op in ops]
        c.true('fresh-life', done[j] == ref_done, lambda: f'{kind} model {j}: {ops} went {done[j]} but {ref_done} for a model with its own arguments')
        a, b = answers(live[j]), answers(own)
        c.true('fresh-life', alike(a, b), lambda: f'{kind} model {j} of {plan}: answers {[(q, u, v) for q, u, v in zip(asks, a, b) if not alike(u, v)][:1]!r:.500} (shared arguments, own arguments)')
    # the caller changes an argument object afterwards: the models keep their answers
    j = rng.randrange(len(plan))
    a = answers(live[j])
    for v in objs.values():
        if isinstance(v, dict):
            for k in list(v):
                if isinstance(v[k], list): v[k][0] = .9
                else: v[k] = .4321
            v[max(v) + 1] = .77
    b = answers(live[j])
    c.true('own-copy', alike(a, b), lambda: f'{kind} model {j} {plan[j]}: after the caller reused its argument object {[(q, u, v) for q, u, v in zip(asks, a, b) if not alike(u, v)][:1]!r:.500}')
    # the caller changes a returned frame
    for name, kw in asks:
        if 'frame' not in name: continue
        try: f = getattr(live[j], name)(**kw)
        except Exception: continue
        try: f.iloc[:, :] = 0
        except Exception: continue
    d = answers(live[j])
    c.true('own-frame', alike(b, d), lambda: f'{kind} model {j}: after the caller changed a returned frame {[(q, u, v) for q, u, v in zip(asks, b, d) if not alike(u, v)][:1]!r:.500}')


# ---- objects handed over by the caller and default argument objects -------------------
def defaults():
    """every default argument object of the library that could be changed in place"""
    out = {}
    for cn in dir(am):
        cls = getattr(am, cn)
        if not isinstance(cls, type): continue
        for fn, f in vars(cls).items():
            f = getattr(f, '__func__', f)
            for k, v in enumerate((getattr(f, '__defaults__', None) or ())):
                if v is not None and not isinstance(v, (int, float, str, bool, tuple)) and not callable(v): out[f'{cn}.{fn}#{k}'] = repr(sorted(vars(v).items())) if hasattr(v, '__dict__') else repr(v)
    return out


def caller_objects(c, rng):
    before = defaults()
    c.dim(mutable_defaults=len(before))
    if 'Life.quantiles_frame#0' in before: c.dim(default='quantiles')
    fresh_default = c.call('quantiles', Life.quantiles_frame)
    qs = [round(rng.uniform(.01, .995), 3) for _ in range(rng.randint(1, 6))]
    if rng.random() < .4: qs.append(qs[0])
    given = rng.choice([list, tuple])(qs)
    c.note(quantiles=qs)
    first = c.call('quantiles', Life.quantiles_frame, given)
    c.true('caller-object', list(given) == qs, lambda: f'quantiles {qs} became {given}')
    again = c.call('quantiles', Life.quantiles_frame, given)
    c.true('caller-repeat', alike(norm(first), norm(again)), lambda: f'{first} then {again}')
    first.iloc[:, :] = 0
    c.true('own-frame', alike(norm(c.call('quantiles', Life.quantiles_frame, list(qs))), norm(again)), 'a changed frame shows up later')
    # guesses of the solver
    lo, hi = sorted((rng.uniform(.1, 3), rng.uniform(3, 9)))
    grid = [rng.uniform(lo, hi) for _ in range(rng.choice([2, 2, 3, 5]))]; g0 = list(grid); k = rng.uniform(.5, 4)
    f = lambda x: x ** 3 + k * x
    a = c.call('solve', Life.solve, f, target=f(2.), grid=grid); b = c.call('solve', Life.solve, f, target=f(2.), grid=grid)
    c.true('caller-object', grid == g0, lambda: f'guesses {g0} became {grid}')
    c.close('caller-repeat.solve', b, a, rel=1e-12)
    br = [lo, hi]; c.call('solve', Life.solve, lambda x: (x - 2) ** 2, target=0., grid=br, mad=True)
    c.true('caller-object', br == [lo, hi], lambda: f'bracket {[lo, hi]} became {br}')
    # arrays
    ts = np.array([rng.uniform(0, 20) for _ in range(4)]); t0 = ts.copy()
    I = Interest(i=rng.uniform(.01, .2))
    r1 = c.call('v_t', I.v_t, ts); r2 = c.call('v_t', I.v_t, ts)
    c.true('caller-object', (ts == t0).all(), lambda: f'times {t0} became {ts}')
    c.true('caller-repeat', np.array_equal(r1, r2), 'discount factors')
    w = np.array([rng.uniform(-3, 3) for _ in range(3)]); w0 = w.copy()
    r1 = c.call('variance', Life.variance, w, 2., var_a=3., var_b=1., cov_ab=.5); r2 = c.call('variance', Life.variance, w, 2., var_a=3., var_b=1., cov_ab=.5)
    c.true('caller-object', (w == w0).all(), lambda: f'weights {w0} became {w}')
    c.true('caller-repeat', np.array_equal(r1, r2), 'variances')
    # terms of a contract are handed out by value
    con = Contract(premium=rng.uniform(1, 9), benefit=100., initial_policy=3., renewal_premium=.1, T=5)
    d = con.premium_terms; d0 = dict(d)
    for key in d: d[key] = -1
    c.true('own-copy', con.premium_terms == d0, lambda: f'{d0} became {con.premium_terms}')
    v0 = dict(vars(con)); n = con.renewals(2); n.set_contract(benefit=1., premium=2., T=1)
    c.true('own-copy', vars(con) == v0, lambda: f'{v0} became {vars(con)}')
    # defaults left out, after all of that
    for name, kw in (('L_from_t', dict(t=3.5)), ('gross_future_loss', dict(A=.4)), ('gross_policy_value', dict(x=50, t=2)), ('L_to_prob', dict(x=50, L=.1)), ('fill_reserves', dict(x=50))):
        try: getattr(SULT().set_reserves(T=2) if name == 'fill_reserves' else SULT(), name)(**kw)
        except Exception: pass
    after = defaults()
    c.true('defaults-unchanged', after == before, lambda: f'{[(k, before.get(k), after[k]) for k in after if after[k] != before.get(k)]!r:.400}')
    c.true('defaults-unchanged', alike(norm(c.call('quantiles', Life.quantiles_frame)), norm(fresh_default)), 'default quantiles changed')


GROUPS = [('rounds', rounds_, 130, 2000), ('mixed', mixed, 110, 1600), ('twins', twins, 110, 1600), ('deep', deep, 110, 1600), ('shared-inputs', shared_inputs, 800, 12000), ('caller-objects', caller_objects, 60, 1500)]
REQUIRED = ['fresh-life', 'fresh-overlay', 'fresh-interest', 'fresh-contract', 'fresh-static', 'repeatable', 'contract-unchanged', 'arguments-unchanged', 'own-copy', 'own-frame']
QUICK = 1      # scale of the quick tier
