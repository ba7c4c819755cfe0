"""P11 policy values and future losses"""
import math
from actuarialmath import Contract
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip
from vmon.products import Val
from vmon.props.p06 import scene, amount
from vmon.props.p07 import vtol
from vmon.props.p10 import rough

RULE = ('A case draws a mortality basis of any kind, an interest rate, an age, select duration, a policy (whole life, term, endowment with any amount; premium, expenses) and a duration, and '
        'compares net, gross, expense and full-preliminary-term policy values and variances with the remaining cash flows valued from the reference law, losses by time of death with the '
        'discounted cash flows of that policy, and contract objects with the terms given. Distinct by model, rate, policy and duration.')
ASSUMPTIONS = ['whole life and equal endowment values are obtained by the insurance-annuity shortcut, which needs a positive interest rate',
               'continuous contracts charge the excess of initial over renewal expenses at issue, as the contract terms define them']
EX = ('settlement_policy', 'initial_policy', 'initial_premium', 'renewal_policy', 'renewal_premium')


def terms(rng, b, prem):
    ex = {}
    for n, f in (('settlement_policy', .1 * b), ('initial_policy', .2 * b), ('initial_premium', .9), ('renewal_policy', .3 * prem), ('renewal_premium', .3)):
        if rng.random() < .65: ex[n] = rng.uniform(0, 1) * f
    return ex


def policy(rng, m, x, s, v, i, frac=False):
    """term n (whole life if negative), endowment amount relative to the benefit, duration t"""
    whole_ok = (m.natural or m.law.omega is None or m.law.S(x, s, v.N) < 1e-9) and i > 0
    kind = rng.choice(['whole', 'endowment', 'term', 'unequal', 'pure'])
    if kind == 'whole' and not whole_ok: kind = 'term'
    if kind == 'endowment' and not i: kind = 'unequal'
    if v.N < 3: raise Skip
    hi = min(v.N - 1, 60)
    n = -999 if kind == 'whole' else rng.choice([rng.randint(1, hi), hi, v.N if m.natural and v.N <= 60 else hi])
    top = hi - 1 if n < 0 else n
    if n > 0 and m.natural and v.N <= 80 and rng.random() < .2:        # a term which runs past the last age
        n = v.N + rng.randint(0, 9)
        top = v.N - 1
    t = rng.choice([0, 0, 1, rng.randint(0, top), rng.randint(0, top), n if n > 0 else 1, top, max(0, top - 1)])
    t = min(t, top)
    if x + s + t > (m.live_to() if m.law.omega is None or isinstance(m.law, ref.Table) else m.maxage): t = 0
    if frac and t + 1 < (n if n > 0 else top) and rng.random() < .4: t += rng.choice([.5, .25, rng.uniform(.05, .95)])
    return kind, n, t


def at(m, x, s, t, i): return Val(m, x, s + t, i)


def remaining(v, n, disc): return (v.ins(n, disc=disc), v.ann(n, disc=disc), v.E(n) if n >= 0 else 0.) if n else (0., 0., 1.)


def net(c, rng, disc=True, weights=None, sel=None):
    if sel: m, x, s, i, v, k, tol = sel
    else:
        m, x, s, i, v, k, tol = scene(c, rng, disc, weights)
        if m.cls == 'Premiums': raise Skip
    kind, n, t = policy(rng, m, x, s, v, i, frac=not disc and m.cls != 'LifeTable' and m.cls != 'SULT')
    if sel and n < 0: raise Skip
    o = m.obj
    b = amount(rng)
    e = {'whole': 0, 'term': 0, 'endowment': b, 'unequal': amount(rng), 'pure': b * rng.uniform(.1, 2)}[kind]
    if e == b and kind != 'endowment': e *= 1.5
    c.note(kind=kind, n=n, t=t, b=b, e=e); c.dim(policy=kind, duration=min(int(t), 3), part_year=t != int(t), disc=disc)
    w = at(m, x, s, t, i)
    A0, a0, E0 = remaining(v, n, disc)
    left = n if n < 0 else n - t
    A1, a1, E1 = remaining(w, left, disc)
    if a0 < .05: raise Skip
    P = (b * A0 + e * E0) / a0
    V = b * A1 + e * E1 - P * a1
    T = rough(tol, i, disc)
    sc = max(b, e)
    if v.S(t) < 1e-6: raise Skip
    key = f"net.{kind}.{'d' if disc else 'c'}.{k}"
    kw = {} if kind == 'whole' else dict(n=n)
    if e: kw['endowment'] = e
    # a shortcut divides by 1-A
    amp = 1 / max(1e-9, 1 - (A0 + E0)) if kind in ('whole', 'endowment') else (1 + a1 / a0)
    c.value(key, V, o.net_policy_value, x, s=s, t=t, b=b, discrete=disc, **kw, rel=tol['rel'] * 20, abs=(T['abs'] + tol['rel']) * sc * 10 * (1 + amp))
    if disc and t == 0: c.close(key + '.issue', c.call(key, o.net_policy_value, x, s=s, b=b, **kw), 0., abs=(T['abs'] + tol['rel']) * sc * 10 * (1 + amp))
    if sel: return          # select tables reject second moments
    if kind in ('whole', 'endowment'):
        # variance of b Z - P Y over the remaining lifetime
        m2 = w.ins(left, mom=2, disc=disc) if left else 0.
        if n >= 0: m2 += w.E(left, 1, 2) if left else 1.
        m1 = A1 + (E1 if n >= 0 else 0.)
        d = i / (1 + i) if disc else math.log1p(i)
        var = b * b * max(0, m2 - m1 * m1) * (1 + (P / b) / d) ** 2
        c.value(f'net-variance.{kind}.{"d" if disc else "c"}.{k}', var, o.net_policy_variance, x, s=s, t=t, b=b, discrete=disc, **kw,
                rel=max(1e-6, tol['rel'] * 50) * (1 + amp), abs=(tol['abs'] + 4 * tol['rel']) * b * b * (1 + (P / b) / d) ** 2 * 3)
    elif t < n:
        c.raises('net-variance.unsupported', o.net_policy_variance, x, s=s, t=t, b=b, **kw)


def net_discrete(c, rng): net(c, rng, True)
def net_continuous(c, rng): net(c, rng, False, dict(generic=2, law=5, table=2, sult=1))


def select_scene(c, rng):
    q, n, lo, hi = gens.select_q(rng, n=rng.randint(6, 16))
    i = gens.rate(rng)
    o = SelectLife(periods=n).set_interest(**gens.interest_kw(rng, i))
    c.call('select.build', o.set_table, q={y: [q[y][r] for r in range(n + 1)] for y in q})
    law = ref.SelectTable(q, n, lo, hi)
    x = rng.randint(lo, hi - 2); s = rng.choice([0, rng.randint(0, n)])
    m = Model(o, law, hi + n + 1, 'SelectLife', minage=lo, natural=False)
    c.note(periods=n, ages=(lo, hi), x=x, s=s, i=i, q=q); c.dim(kind='select', periods=n)
    return m, x, s, i, Val(m, x, s, i), 'SelectLife', dict(rel=1e-7, abs=1e-7)


def net_select(c, rng): net(c, rng, True, sel=select_scene(c, rng))


def outgo(v, P, b, ex, n, e, disc, first):
    """EPV of benefits and expenses less premiums from this duration"""
    g = lambda k: ex.get(k, 0)
    if disc:        # year by year
        z = 0.
        for j in range(v.cap(n) if n else 0):
            z += v.v(j + 1) * (v.S(j) - v.S(j + 1)) * (b + g('settlement_policy'))
            z -= v.v(j) * v.S(j) * P
            new = first and j == 0
            z += v.v(j) * v.S(j) * ((g('initial_policy') + P * g('initial_premium')) if new else (g('renewal_policy') + P * g('renewal_premium')))
    else:
        A, a, _ = remaining(v, n, False)
        z = A * (b + g('settlement_policy')) - a * (P - P * g('renewal_premium') - g('renewal_policy'))
        if first: z += g('initial_policy') - g('renewal_policy') + P * (g('initial_premium') - g('renewal_premium'))
    if e and n >= 0: z += e * (v.E(n) if n else 1.)
    return z


def gross(c, rng, disc=True, weights=None, sel=None):
    if sel: m, x, s, i, v, k, tol = sel
    else:
        m, x, s, i, v, k, tol = scene(c, rng, disc, weights)
        if m.cls == 'Premiums': raise Skip
    kind, n, t = policy(rng, m, x, s, v, i, frac=not disc and m.cls != 'LifeTable' and m.cls != 'SULT')
    if sel and n < 0: raise Skip
    o = m.obj
    b = amount(rng)
    P = b * rng.uniform(.005, .3)
    ex = terms(rng, b, P)
    if n == t and not disc and t > 0: t -= 1
    e = {'whole': 0, 'term': 0, 'endowment': b + ex.get('settlement_policy', 0), 'unequal': b, 'pure': b * rng.uniform(.1, 2)}[kind]
    if kind == 'unequal' and 'settlement_policy' not in ex: e = b / 2
    con = Contract(premium=P, benefit=b, discrete=disc, **ex, **({} if not e else dict(endowment=e)), **({} if n < 0 or rng.random() < .5 else dict(T=n)))
    c.note(kind=kind, n=n, t=t, b=b, P=P, ex=ex, e=e); c.dim(policy=kind, duration=min(int(t), 3), part_year=t != int(t), disc=disc, expenses=len(ex))
    if v.S(t) < 1e-6: raise Skip
    w = at(m, x, s, t, i)
    left = n if n < 0 else n - t
    T = rough(tol, i, disc)
    sc = (b + e + ex.get('initial_policy', 0) + P * 3) * 10
    key = f"gross.{kind}.{'d' if disc else 'c'}.{k}"
    kw = dict(n=n) if n >= 0 else {}
    want = outgo(w, P, b, ex, left, e, disc, t == 0)
    if t == 0 and left == 0: raise Skip
    before = dict(vars(con))
    c.value(key, want, o.gross_policy_value, x, s=s, t=t, contract=con, **kw, rel=tol['rel'] * 20, abs=(T['abs'] + tol['rel']) * sc)
    if sel: pass
    elif kind in ('whole', 'endowment'):
        A, a, E = remaining(w, left, disc)
        m2 = (w.ins(left, mom=2, disc=disc) if left else 0.) + ((w.E(left, 1, 2) if left else 1.) if n >= 0 else 0.)
        m1 = A + (E if n >= 0 else 0.)
        g = lambda q: ex.get(q, 0)
        d = i / (1 + i) if disc else math.log1p(i)
        f = b + g('settlement_policy') + (P * (1 - g('renewal_premium')) - g('renewal_policy')) / d
        c.value(f'gross-variance.{kind}.{"d" if disc else "c"}.{k}', f * f * max(0, m2 - m1 * m1), o.gross_policy_variance, x, s=s, t=t, contract=con, **kw,
                rel=tol['rel'] * 50, abs=(tol['abs'] + 4 * tol['rel']) * f * f * 3)
    elif left:
        c.raises('gross-variance.unsupported', o.gross_policy_variance, x, s=s, t=t, contract=con, **kw)
    c.same('contract.unchanged', dict(vars(con)), before)
    if kind in ('whole', 'term', 'endowment') and disc:
        # premium by the equivalence principle makes the value at issue zero
        A, a, E = remaining(v, n, True)
        den = a * (1 - ex.get('renewal_premium', 0)) - ex.get('initial_premium', 0) + ex.get('renewal_premium', 0)
        if den > .1:
            G = c.call('gross.equivalence', o.gross_premium, A=A, a=a, E=E, **(dict(endowment=e) if kind == 'endowment' and E > 0 else {}), **con.premium_terms)
            if kind == 'endowment' and not E > 0: return
            con.set_contract(premium=G)
            c.value(f'gross.issue.{kind}.{k}', 0., o.gross_policy_value, x, s=s, contract=con, **kw, abs=(T['abs'] + tol['rel']) * (sc + 10 * abs(G)))


def gross_discrete(c, rng): gross(c, rng, True)
def gross_continuous(c, rng): gross(c, rng, False, dict(generic=1, law=5, table=2, sult=1))
def gross_select(c, rng): gross(c, rng, True, sel=select_scene(c, rng))


def shortcuts(c, rng):
    """factor shortcuts"""
    i = rng.uniform(.005, .12); disc = rng.random() < .6
    o = rng.choice([PolicyValues, Reserves, SULT])()
    c.call('set_interest', o.set_interest, **gens.interest_kw(rng, i))
    d = i / (1 + i) if disc else math.log1p(i)
    A, A1 = rng.uniform(.02, .7), rng.uniform(.02, .95); A2 = rng.uniform(A1 * A1, A1)
    b = amount(rng); P = b * rng.uniform(.01, .3); ex = terms(rng, b, P)
    nb = rng.random() < .2      # nothing paid at death but settlement expenses
    ew = rng.choice([{}, dict(endowment=amount(rng)), dict(T=rng.randint(1, 30))])
    con = Contract(premium=P, benefit=0 if nb else b, discrete=disc, **ex, **ew)
    c.note(i=i, disc=disc, nothing=nb, extra=ew, A=A, A1=A1, A2=A2, b=b, P=P, ex=ex)
    g = lambda q: ex.get(q, 0)
    a, a1 = (1 - A) / d, (1 - A1) / d
    pn = b * A / a
    c.value('shortcut.net', b * A1 - pn * a1, o.net_future_loss, A, A1, b=b, rel=1e-7, abs=1e-8 * b)
    c.value('shortcut.net-variance', (b + pn / d) ** 2 * (A2 - A1 * A1), o.net_variance_loss, A1=A1, A2=A2, A=A, b=b, rel=1e-6)
    c.value('shortcut.net-variance.issue', b * b * (A2 - A1 * A1) / (1 - A1) ** 2, o.net_variance_loss, A1=A1, A2=A2, b=b, rel=1e-6)
    net = P * (1 - g('renewal_premium')) - g('renewal_policy')
    init = g('initial_policy') - g('renewal_policy') + P * (g('initial_premium') - g('renewal_premium'))
    gb = 0 if nb else b
    L = lambda A, a: A * (gb + g('settlement_policy')) + init - a * net
    c.value('shortcut.gross.A', L(A, a), o.gross_future_loss, A=A, contract=con, rel=1e-7, abs=1e-7 * b)
    c.value('shortcut.gross.a', L(A, a), o.gross_future_loss, a=a, contract=con, rel=1e-7, abs=1e-7 * b)
    a2 = rng.uniform(1, 20)
    c.value('shortcut.gross.both', L(A, a2), o.gross_future_loss, A=A, a=a2, contract=con, rel=1e-7, abs=1e-7 * b)
    c.value('shortcut.gross-variance', (gb + g('settlement_policy') + net / d) ** 2 * (A2 - A1 * A1), o.gross_variance_loss, A1=A1, A2=A2, contract=con, rel=1e-6)
    c.value('shortcut.gross.default', A - a2, o.gross_future_loss, A=A, a=a2, rel=1e-7, abs=1e-9)


def losses(c, rng):
    """loss by time of death for whole life, term and endowment policies; its expectation is the policy value at issue"""
    m, x, s, i, v, k, tol = scene(c, rng, True, dict(law=3, table=4, sult=2))
    o = m.obj
    disc = rng.random() < .7
    d = (i / (1 + i) if disc else math.log1p(i))
    if v.N < 4: raise Skip
    n = rng.choice([-1, rng.randint(1, min(v.N - 1, 40))]); b = amount(rng); P = b * rng.uniform(.01, .3); ex = terms(rng, b, P)
    e = 0 if n < 0 else rng.choice([0, b, amount(rng)])
    con = Contract(premium=P, benefit=b, discrete=disc, **ex, **({} if n < 0 else dict(T=n)), **(dict(endowment=e) if e else {}))
    g = lambda q: ex.get(q, 0)

    def L(t):
        died = n < 0 or t < n
        pays = (math.floor(t) + 1 if disc else t) if died else n
        y = sum(v.v(j) for j in range(pays)) if disc else ((1 - v.v(pays)) / d if d else pays)
        z = (b + g('settlement_policy')) * v.v(math.floor(t) + 1 if disc else t) if died else e * v.v(n)
        return z - P * y + g('initial_policy') + g('initial_premium') * P + (g('renewal_policy') + g('renewal_premium') * P) * (y - 1)
    ts = [0, rng.randint(0, v.N), rng.uniform(0, v.N)] + ([n, n - .01, n + .01, n - 1, n + 5] if n > 0 else [])
    c.note(n=n, b=b, P=P, ex=ex, e=e, ts=ts, disc=disc); c.dim(policy='whole' if n < 0 else 'endowment' if e else 'term', disc=disc)
    sc = (b + P * v.N + e) * 1e-7
    small = 0 < i < 2e-6
    for t in ts:
        if t < 0: continue
        c.value(f"loss.{'whole' if n < 0 else 'term'}.{disc}", L(t), o.L_from_t, t, contract=con, rel=1e-6 if not small else 1e-3, abs=sc)
    if disc and n > 0 and not small:
        tot = math.fsum((v.S(j) - v.S(j + 1)) * c.call('loss', o.L_from_t, j, contract=con) for j in range(n)) + v.S(n) * c.call('loss', o.L_from_t, n, contract=con)
        if i or e != b + g('settlement_policy'):
            c.value(f'loss.expectation.{k}', tot, o.gross_policy_value, x, s=s, n=n, contract=con, rel=1e-5, abs=sc * 100)


DEFAULTS = dict(premium=1, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0, settlement_policy=0, benefit=1, endowment=0, T=-999, discrete=True)


def contracts(c, rng):
    vals = {k: (rng.uniform(0, 100) if k not in ('T', 'discrete') else (rng.randint(1, 40) if k == 'T' else rng.random() < .5)) for k in DEFAULTS}
    given = {k: vals[k] for k in DEFAULTS if rng.random() < .5}
    con = c.call('contract', Contract, **given)
    c.note(given=given)
    rec = lambda o: {k: getattr(o, k) for k in DEFAULTS}
    want = dict(DEFAULTS, **given)
    c.same('contract.terms', rec(con), want)
    for _ in range(rng.choice([1, 1, 2, 3])):
        upd = {k: rng.choice([0, rng.uniform(0, 9), rng.uniform(0, 9), -rng.random(), 1]) for k in DEFAULTS if k not in ('T', 'discrete') and rng.random() < .4}
        if rng.random() < .4: upd['T'] = rng.choice([-999, rng.randint(1, 40)])
        if rng.random() < .4: upd['discrete'] = rng.random() < .5
        r = c.call('contract.set', con.set_contract, **upd, **({'no_such_term': 3} if rng.random() < .3 else {}))
        c.true('contract.set.returns-self', r is con)
        want.update(upd)
        c.same('contract.set', rec(con), want)
    c.true('contract.set.unknown-ignored', not hasattr(con, 'no_such_term'))
    W = want
    c.same('contract.premium_terms', c.call('contract.premium_terms', lambda: con.premium_terms),
           {k: W[k] for k in ('benefit', 'initial_policy', 'initial_premium', 'renewal_policy', 'renewal_premium', 'settlement_policy')})
    c.close('contract.renewal_profit', con.renewal_profit, W['premium'] - W['premium'] * W['renewal_premium'] - W['renewal_policy'], rel=1e-9)
    c.close('contract.initial_cost', con.initial_cost, W['initial_policy'] - W['renewal_policy'] + W['premium'] * W['initial_premium'] - W['premium'] * W['renewal_premium'], rel=1e-9)
    c.close('contract.claims_cost', con.claims_cost, W['benefit'] + W['settlement_policy'], rel=1e-12)
    t = rng.choice([0, rng.randint(0, 10)])
    if W['T'] > 0: t = min(t, W['T'] - 1)
    ren = c.call('contract.renewals', con.renewals, t) if t else c.call('contract.renewals', con.renewals)
    w2 = dict(W, initial_policy=W['renewal_policy'], initial_premium=W['renewal_premium'], T=W['T'] - t if W['T'] > 0 else -999)
    c.same('contract.renewals', rec(ren), w2)
    c.same('contract.renewals.original-unchanged', rec(con), W)
    c.true('contract.renewals.no-initial-cost', abs(ren.initial_cost) < 1e-12)
    other = Contract()
    c.same('contract.isolated', rec(other), DEFAULTS)


def fpt(c, rng, dc=True):
    """full preliminary term: first year pays for itself, the rest is a policy issued one year later"""
    m, x, s, i, v, k, tol = scene(c, rng, dc) if dc else scene(c, rng, dc, dict(law=2, table=1, sult=1))
    if m.cls not in ('Reserves', 'LifeTable', 'SULT') and not isinstance(m.obj, Reserves): raise Skip
    o = m.obj
    kind, n, t = policy(rng, m, x, s, v, i)
    if n > 0 and n < 3 or v.N < 5: raise Skip
    b = amount(rng); e = {'whole': 0, 'term': 0, 'endowment': b, 'unequal': b * 1.5, 'pure': b / 2}[kind]
    c.note(kind=kind, n=n, t=t, b=b, e=e); c.dim(policy='fpt-' + kind)
    w1, w = at(m, x, s, 1, i), at(m, x, s, t, i)
    if v.S(max(t, 1)) < 1e-6: raise Skip
    T = rough(tol, i, dc)
    r = n - 1 if n > 0 else n
    A, a, E = remaining(w1, r, dc)
    if a < .05: raise Skip
    beta = (b * A + e * E) / a
    if e == 0 and dc:
        c.value(f'fpt.first.{k}', b * v.v(1) * (1 - v.S(1)), o.FPT_premium, x, s=s, b=b, first=True, **({} if n < 0 else dict(n=n)), rel=1e-6, abs=T['abs'] * b)
        c.value(f'fpt.renewal.{k}', beta, o.FPT_premium, x, s=s, b=b, **({} if n < 0 else dict(n=n)), rel=tol['rel'] * 20, abs=T['abs'] * b * 20 * (1 + 1 / a))
    A1, a1, E1 = remaining(w, n if n < 0 else n - t, dc)
    want = 0. if t < 2 else b * A1 + e * E1 - beta * a1
    amp = 1 / max(1e-9, 1 - A - E) if kind in ('whole', 'endowment') else 1 + a1 / a
    c.value(f'fpt.value.{"" if dc else "continuous."}{kind}.{k}', want, o.FPT_policy_value, x, s=s, t=t, b=b, **({} if n < 0 else dict(n=n)), **(dict(endowment=e) if e else {}), **({} if dc else dict(discrete=False)),
            rel=tol['rel'] * 20, abs=(T['abs'] + tol['rel']) * max(b, e) * 10 * (1 + amp))


def fpt_continuous(c, rng): fpt(c, rng, False)


def expense(c, rng):
    """expense policy value = gross less net, from the expense loading alone"""
    m, x, s, i, v, k, tol = scene(c, rng, True, dict(law=2, table=3, sult=2))
    if not i or v.N < 4: raise Skip
    if not (m.natural or m.law.omega is None or m.law.S(x, s, v.N) < 1e-9): raise Skip
    o = m.obj
    b = amount(rng); t = rng.randint(1, min(v.N - 2, 30))
    if v.S(t) < 1e-5: raise Skip
    ex = terms(rng, b, .02 * b); ex.pop('settlement_policy', None); ex['initial_premium'] = min(.5, ex.get('initial_premium', 0))
    A, a, _ = remaining(v, -1, True)
    den = a * (1 - ex.get('renewal_premium', 0)) - ex.get('initial_premium', 0) + ex.get('renewal_premium', 0)
    if den < .3: raise Skip
    P = b * A / a
    con = Contract(benefit=b, **ex)
    G = c.call('expense.premium', o.gross_premium, A=A, a=a, **con.premium_terms)
    con.set_contract(premium=G)
    c.note(b=b, t=t, ex=ex)
    gv = c.call('expense', o.gross_policy_value, x, s=s, t=t, contract=con)
    nv = c.call('expense', o.net_policy_value, x, s=s, t=t, b=b)
    load = Contract(benefit=0, premium=G - P, renewal_policy=ex.get('renewal_policy', 0) + ex.get('renewal_premium', 0) * G)
    T = rough(tol, i, True)
    c.value(f'expense.value.{k}', gv - nv, o.gross_policy_value, x, s=s, t=t, contract=load, rel=1e-5, abs=(T['abs'] + tol['rel']) * b * 30 / min(1, 1 - A))


THOROUGH = 4      # scale of the thorough tier
GROUPS = [('net_discrete', net_discrete, 1500, 20000), ('net_continuous', net_continuous, 250, 4000), ('net_select', net_select, 300, 5000),
          ('gross_discrete', gross_discrete, 1500, 20000), ('gross_continuous', gross_continuous, 250, 4000), ('gross_select', gross_select, 300, 5000), ('shortcuts', shortcuts, 300, 4000),
          ('losses', losses, 500, 8000), ('contracts', contracts, 300, 4000), ('fpt', fpt, 400, 6000), ('fpt_continuous', fpt_continuous, 60, 1000), ('expense', expense, 200, 3000)]
