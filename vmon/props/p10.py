"""P10 premiums and the equivalence principle"""
import math
from actuarialmath import Contract
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip
from vmon.products import Val
from vmon.props.p06 import scene, amount

RULE = ('A case draws a mortality basis of any kind, an interest rate, an age, select duration, a contract (insurance or annuity, term, deferral, premium term, endowment, return of premium, '
        'expenses) and asks the library for its premium; the oracle values every premium, benefit and expense cash flow from the reference law and requires the expected loss at issue to '
        'be zero. Distinct by model, rate and contract.')
ASSUMPTIONS = ['return of premium is decided for policies whose premiums are paid throughout the period in which deaths refund them (n = t, or n = u for deferred benefits)',
               'discrete=None (semi-discrete) is not exercised: its meaning is not documented']


def balance(c, key, P, income, outgo, scale, tol, size=1.):
    """P * income = outgo"""
    if P is None: return
    c.close(key, P * income, outgo, rel=tol['rel'] * 20, abs=tol['abs'] * scale * size * 20, what=f'(premium {P!r}, EPV of premiums per unit {income!r})')


def rough(tol, i, disc):
    d = (i / (1 + i) if disc else math.log1p(i))
    return dict(rel=tol['rel'], abs=tol['abs'] * (1 + (1 / d if d else 50)))


def plan(rng, m, v):
    hi = max(1, min(v.N - 1, 50))
    kind = rng.choice(['whole', 'term', 'endowment', 'deferred', 'deferred-term', 'deferred-endowment', 'annuity', 'temp-annuity', 'limited', 'limited-term'])
    t, u, n = -999, 0, 0
    if kind in ('term', 'endowment'): t = rng.randint(1, hi)
    if kind.startswith(('deferred', 'annuity', 'temp')): u = rng.randint(1, hi)
    if kind in ('deferred-term', 'deferred-endowment', 'temp-annuity'): t = rng.randint(1, max(1, min(v.N - u, 40)))
    if kind == 'limited': n = rng.randint(1, hi)
    if kind == 'limited-term': t = rng.randint(1, hi); n = rng.randint(1, t)
    if kind.startswith(('deferred', 'annuity', 'temp')) and rng.random() < .3: n = rng.randint(1, hi)
    if m.natural and rng.random() < .15:        # terms which run past the last age
        far = v.N + rng.randint(0, 8)
        if t > 0: t = far - u if far > u else t
        if n and (t < 0 or n <= t) and rng.random() < .5: n = far if t < 0 else t
    return kind, t, u, n


def net(c, rng, disc=True, weights=None, sel=None):
    if sel:
        m, x, s, i, v, k, tol = sel
    else:
        m, x, s, i, v, k, tol = scene(c, rng, disc, weights)
    if v.N < 3: raise Skip
    o = m.obj
    kind, t, u, n = plan(rng, m, v)
    whole_ok = m.natural or m.law.omega is None or m.law.S(x, s, v.N) < 1e-9
    if not whole_ok and t < 0:
        t = v.N - u
        if t < 1: raise Skip
        if sel and n == 0 and u == 0: n = t
    b = amount(rng)
    ann = 'annuity' in kind
    pays = n if n else (u if u else t)
    kw = {}
    e = 0
    if kind.endswith('endowment'): e = rng.choice([b, amount(rng), b / 2]); kw['endowment'] = e
    ret = not ann and n == 0 and rng.random() < .3
    if ret: kw['return_premium'] = True
    ic = rng.choice([0, 0, amount(rng) * .1])
    if ic: kw['initial_cost'] = ic
    if n: kw['n'] = n
    if u: kw['u'] = u
    if t >= 0: kw['t'] = t
    if ann: kw['annuity'] = True
    c.note(kind=kind, t=t, u=u, n=n, b=b, **{'ret': ret, 'e': e, 'ic': ic}); c.dim(contract=kind, refund=ret, limited=n > 0)
    T = rough(tol, i, disc)
    a = v.ann(pays, disc=disc)
    if ret:
        a -= v.ins(pays, b=lambda y: y, disc=disc)
    if a < .05: raise Skip
    A = v.ann(t, u=u, disc=disc) if ann else v.ins(t, u=u, disc=disc)
    out = lambda b, e: b * A + (e * v.E(u + t) if e else 0) + ic
    key = f"net.{kind}{'.refund' if ret else ''}.{'d' if disc else 'c'}.{k}"
    P = c.call(key, o.net_premium, x, s=s, b=b, discrete=disc, **kw)
    balance(c, key, P, a, out(b, e), max(b, e, ic, P * v.N if ret else 0), T)
    # linear in the insured amount
    f = rng.choice([2, .5, 1000])
    if e: kw['endowment'] = e * f
    if ic: kw['initial_cost'] = ic * f
    P2 = c.call(key, o.net_premium, x, s=s, b=b * f, discrete=disc, **kw)
    c.close('net.linear', P2, f * P, rel=1e-9 if disc else 1e-6, abs=1e-12 if disc else T['abs'] * f * max(b, 1))   # adaptive quadrature is not exactly scale invariant
    if kind == 'whole' and t < 0 and not ret and not ic and disc:
        P1 = c.call('net.default', o.net_premium, x, s)
        balance(c, f'net.default.{k}', P1, v.ann(pays), v.ins(t), 1, T)


def net_discrete(c, rng): net(c, rng, True)
def net_continuous(c, rng): net(c, rng, False, dict(generic=2, law=5, table=2, sult=1))


def net_select(c, rng):
    q, n, lo, hi = gens.select_q(rng)
    i = gens.rate(rng)
    o = SelectLife(periods=n).set_interest(**gens.interest_kw(rng, i))
    c.call('select.build', o.set_table, q={y: [q[y][r] for r in range(n + 1)] for y in q})
    law = ref.SelectTable(q, n, lo, hi)
    if hi - lo < 5: raise Skip
    x = rng.randint(lo, hi - 2); s = rng.randint(0, n)
    m = Model(o, law, hi + n + 1, 'SelectLife', minage=lo, natural=False)
    v = Val(m, x, s, i)
    c.note(periods=n, ages=(lo, hi), x=x, s=s, i=i, q=q); c.dim(kind='select', periods=n)
    net(c, rng, True, sel=(m, x, s, i, v, 'SelectLife', dict(rel=1e-7, abs=1e-7)))


def equivalence(c, rng):
    i = rng.uniform(.001, .15)
    o = rng.choice([Premiums, PolicyValues, Reserves, SULT])()
    c.call('set_interest', o.set_interest, **gens.interest_kw(rng, i))
    disc = rng.random() < .5
    d = i / (1 + i) if disc else math.log1p(i)
    A = rng.uniform(.01, .97); a = (1 - A) / d; b = amount(rng)
    c.note(i=i, A=A, b=b, disc=disc)
    P = b * A / a
    T = dict(rel=1e-7)
    c.value('equivalence.P.A', P, o.premium_equivalence, A=A, b=b, discrete=disc, **T)
    c.value('equivalence.P.a', P, o.premium_equivalence, a=a, b=b, discrete=disc, rel=1e-6, abs=1e-8 * b)
    a2 = rng.uniform(1, 20)
    c.value('equivalence.P.both', b * A / a2, o.premium_equivalence, A=A, a=a2, b=b, discrete=disc, **T)
    c.value('equivalence.A', A, o.insurance_equivalence, P, b=b, discrete=disc, **T)
    c.value('equivalence.a', a, o.annuity_equivalence, P, b=b, discrete=disc, **T)
    if disc:
        c.value('equivalence.default', A / a, o.premium_equivalence, A, **T)
        c.value('equivalence.default', A, o.insurance_equivalence, A / a, **T)
        c.value('equivalence.default', a, o.annuity_equivalence, A / a, **T)


def expenses(rng, b):
    kw = {}
    for n, f in (('settlement_policy', .1 * b), ('initial_policy', .2 * b), ('initial_premium', .9), ('renewal_policy', .02 * b), ('renewal_premium', .3)):
        if rng.random() < .7: kw[n] = rng.uniform(0, 1) * f
    return kw


def flows(v, P, b, ex, t, n, e=0., refund=False, u=0):
    """expected value of outgo less income, year by year, for a discrete contract"""
    g = lambda k: ex.get(k, 0)
    z = 0.
    for j in range(v.cap(n)):
        alive = v.v(j) * v.S(j)
        z -= P * alive
        z += (g('initial_policy') + g('initial_premium') * P if j == 0 else g('renewal_policy') + g('renewal_premium') * P) * alive
    for j in range(u, u + v.cap(t, u)):
        die = v.v(j + 1) * (v.S(j) - v.S(j + 1))
        z += (b + g('settlement_policy')) * die
    if refund:
        for j in range(v.cap(n)):
            z += P * (j + 1) * v.v(j + 1) * (v.S(j) - v.S(j + 1))
    if e: z += e * v.E(t)
    return z


def gross(c, rng):
    """gross premium from the library's own factors makes the expected loss zero"""
    m, x, s, i, v, k, tol = scene(c, rng, True)
    if v.N < 3: raise Skip
    o = m.obj
    whole_ok = m.natural or m.law.omega is None or m.law.S(x, s, v.N) < 1e-9
    kind = rng.choice(['whole', 'whole-twin', 'whole-twin-a', 'endow-twin', 'term', 'endowment', 'limited', 'refund', 'refund-whole'])
    if 'twin' in kind and not i: raise Skip
    if 'whole' in kind and not whole_ok: raise Skip
    hi = max(1, min(v.N - 1, 50))
    t = -999 if 'whole' in kind else rng.randint(1, hi)
    n = rng.randint(1, t) if kind == 'limited' else t
    b = amount(rng); ex = expenses(rng, b)
    C = lambda f, *a, **kw: c.call('factors', getattr(o, f), *a, **({} if f == 'E_x' else dict(discrete=True)), **kw)
    whole = t < 0
    T = rough(tol, i, True)
    kw = dict(ex); e = 0.; refund = False
    if kind == 'whole-twin': kw['A'] = C('whole_life_insurance', x, s=s)
    elif kind == 'whole-twin-a': kw['a'] = C('whole_life_annuity', x, s=s)
    elif kind == 'endow-twin': kw['A'] = C('endowment_insurance', x, s=s, t=t); e = b + ex.get('settlement_policy', 0)
    else:
        kw['a'] = C('whole_life_annuity', x, s=s) if whole else C('temporary_annuity', x, s=s, t=n)
        kw['A'] = C('whole_life_insurance', x, s=s) if whole else C('term_insurance', x, s=s, t=t)
        if kind == 'endowment':
            e = rng.choice([b, amount(rng)]); kw['endowment'] = e; kw['E'] = C('E_x', x, s=s, t=t)
            if not kw['E'] > 0: raise Skip
        if kind.startswith('refund'):
            refund = True; kw['IA'] = C('increasing_insurance', x, s=s, t=t)
            if not whole and rng.random() < .4:      # and something at maturity
                e = rng.choice([b, amount(rng)]); kw['endowment'] = e; kw['E'] = C('E_x', x, s=s, t=t)
                if not kw['E'] > 0: raise Skip
                kind = 'refund-endowment'
    c.note(kind=kind, t=t, n=n, b=b, ex=ex, e=e); c.dim(contract=kind, expenses=len(ex))
    per = v.ann(n)
    denom = per * (1 - ex.get('renewal_premium', 0)) - (ex.get('initial_premium', 0) - ex.get('renewal_premium', 0)) - (v.ins(t, b=lambda y: y) if refund else 0)
    if denom < .05: raise Skip
    P = c.call(f'gross.{kind}.{k}', o.gross_premium, benefit=b, **kw)
    z = flows(v, P, b, ex, t, n, e, refund)
    c.close(f'gross.{kind}.{k}', z, 0., abs=(b * 3 + e + P * v.N * (1 if refund else .2)) * (T['abs'] + T['rel']) * 20, what=f'expected loss at issue with premium {P}')
    f = 3.
    kf = {a: (w * f if a in ('settlement_policy', 'initial_policy', 'renewal_policy', 'endowment') else w) for a, w in kw.items()}
    c.value('gross.linear', f * P, o.gross_premium, benefit=f * b, **kf, rel=1e-9)


def gross_continuous(c, rng):
    i = rng.uniform(.005, .12); dl = math.log1p(i)
    o = rng.choice([Premiums, PolicyValues])().set_interest(**gens.interest_kw(rng, i))
    b = amount(rng); ex = expenses(rng, b)
    A = rng.uniform(.05, .8); a = (1 - A) / dl
    c.note(i=i, A=A, b=b, ex=ex)
    g = lambda k: ex.get(k, 0)
    denom = a * (1 - g('renewal_premium')) - (g('initial_premium') - g('renewal_premium'))
    if denom < .05: raise Skip
    want = ((b + g('settlement_policy')) * A + g('renewal_policy') * a + g('initial_policy') - g('renewal_policy')) / denom
    c.value('gross.continuous.A', want, o.gross_premium, A=A, benefit=b, discrete=False, **ex, rel=1e-7)
    c.value('gross.continuous.a', want, o.gross_premium, a=a, benefit=b, discrete=False, **ex, rel=1e-6)
    c.value('gross.default', (A + 0) / a, o.gross_premium, a=a, A=A, rel=1e-9)
    c.raises('gross.missing-E', o.gross_premium, a=a, A=A, endowment=b)


def gross_factors(c, rng):
    """any combination of factors, benefits and expenses: income equals outgo"""
    o = rng.choice([Premiums, PolicyValues])().set_interest(i=rng.choice([0., rng.uniform(.005, .12)]))
    b = rng.choice([amount(rng), amount(rng), 0.]); ex = expenses(rng, b or 100.)
    a, A = rng.uniform(1, 25), rng.uniform(.01, .9)
    kw = dict(a=a, A=A, benefit=b, discrete=rng.random() < .5)
    IA = rng.choice([0., rng.uniform(.01, .3) * a]); E = rng.choice([0., rng.uniform(.01, .95)])
    if IA or rng.random() < .3: kw['IA'] = IA
    if E or rng.random() < .3: kw['E'] = E
    e = rng.choice([0., amount(rng), b]) if E else 0.
    if e or rng.random() < .3: kw['endowment'] = e
    g = lambda k: ex.get(k, 0)
    if a * (1 - g('renewal_premium')) - g('initial_premium') + g('renewal_premium') - IA < .05: raise Skip
    c.note(kw=kw, ex=ex); c.dim(refund=IA > 0, maturity=e > 0, benefit=b > 0)
    G = c.call('gross.factors', o.gross_premium, **kw, **ex)
    income = G * a
    outgo = A * (b + g('settlement_policy')) + E * e + G * IA + g('initial_policy') + g('renewal_policy') * (a - 1) + G * (g('initial_premium') + g('renewal_premium') * (a - 1))
    c.close('gross.factors', income, outgo, rel=1e-8, abs=1e-9 * (b + e + sum(ex.values()) + abs(G) * a), what=f'premiums less outgo with premium {G}')


def portfolio(c, rng):
    """premium solved for a probability of loss on a portfolio attains it under the normal approximation"""
    m = gens.any_model(rng, dict(law=2, table=3, sult=2))
    if not m.natural and m.law.omega is not None and m.kind != 'SULT-udd': raise Skip
    x, _ = m.pick_age(rng, room=8, smax=0); i = rng.uniform(.02, .1)
    o = m.obj
    c.call('set_interest', o.set_interest, **gens.interest_kw(rng, i))
    v = Val(m, x, 0, i)
    b = rng.choice([1, 1000, 100000]); ex = expenses(rng, b)
    ex['initial_premium'] = min(ex.get('initial_premium', 0), .5)
    N = rng.choice([20, 100, 500]); pr = rng.choice([.9, .95, .8])
    G0 = c.call('portfolio', o.gross_premium, a=c.call('a', o.whole_life_annuity, x), A=c.call('A', o.whole_life_insurance, x), benefit=b, **ex)
    c.note(model=m, x=x, i=i, b=b, ex=ex, N=N, prob=pr)
    con = Contract(benefit=b, **ex)

    def lib(P):
        con.set_contract(premium=float(P[0]) if hasattr(P, '__len__') else float(P))
        mu = o.gross_policy_value(x, contract=con); va = o.gross_policy_variance(x, contract=con)
        return o.portfolio_percentile(mu, va, prob=pr, N=N)
    P = c.call('portfolio.solve', o.solve, lib, 0, [G0, 1.5 * G0])
    P = float(P)
    # independent mean and variance of one loss, normal approximation of the sum
    g = lambda k: ex.get(k, 0)
    m1 = m2 = 0.
    fixed = g('initial_policy') + g('initial_premium') * P - g('renewal_policy') - g('renewal_premium') * P
    ann = 0.
    for j in range(v.N):
        ann += v.v(j)
        l = (b + g('settlement_policy')) * v.v(j + 1) + fixed - (P * (1 - g('renewal_premium')) - g('renewal_policy')) * ann
        w = v.S(j) - v.S(j + 1)
        m1 += l * w; m2 += l * l * w
    sd = math.sqrt(m2 - m1 * m1)
    c.close('portfolio.probability', ref.ncdf(-m1 * N / (sd * math.sqrt(N))), pr, abs=2e-3)
    c.same('portfolio.premium-recorded', con.premium, P)


THOROUGH = 5      # scale of the thorough tier
GROUPS = [('net_discrete', net_discrete, 1200, 20000), ('net_continuous', net_continuous, 250, 4000), ('net_select', net_select, 300, 6000), ('equivalence', equivalence, 300, 4000),
          ('gross', gross, 900, 15000), ('gross_continuous', gross_continuous, 200, 3000), ('gross_factors', gross_factors, 500, 8000), ('portfolio', portfolio, 120, 2000)]
