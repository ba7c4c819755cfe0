"""P12 reserve recursions, schedules, interim and modified reserves"""
import math
import matplotlib.pyplot as plt
from actuarialmath import Contract
from vmon import ref, gens
from vmon.gens import *
from vmon.core import Skip
from vmon.products import Val
from vmon.props.p06 import amount
from vmon.props.p11 import select_scene, terms

RULE = ('A case draws a mortality basis of any kind (select tables included), an interest rate and a policy: term, endowment, yearly premiums and death benefits, expenses, benefits with or without the reserve. '
        'The prospective reserve at every duration is valued from the reference law; the monitor watches single and multi-year forward and backward steps, interim (mid-year) reserves, schedules filled from every kind of '
        'subset of given reserves (also twice, and in another order of entry), full-preliminary-term values stepped through their balance, and the schedule as displayed.')
ASSUMPTIONS = ['forward recursion divides by survival and discount each year: tolerances grow with that factor and policies where it exceeds 1e4 are not drawn',
               'user-specified survival functions use uniform deaths within a year for interim reserves, as the library documents']


def scene(c, rng, interim=False):
    if rng.random() < .2:
        m, x, s, i, v, k, tol = select_scene(c, rng)
        s0 = s
    else:
        m = gens.any_model(rng, dict(generic=3, law=3, table=4, sult=2))
        if not isinstance(m.obj, Reserves): m = gens.generic_model(rng, base=Reserves)
        x, s = m.pick_age(rng, room=5)
        i = gens.rate(rng)
        c.call('set_interest', m.obj.set_interest, **gens.interest_kw(rng, i))
        v = Val(m, x, s, i)
        k = m.kind.split('-')[0]
        c.note(model=m, x=x, s=s, i=i); c.dim(kind=m.kind, zero_interest=i == 0)
    hi = min(v.N if m.natural else v.N - 1, 40)
    while hi > 1 and v.S(hi - 1) * v.v(hi - 1) < 1e-4: hi -= 1
    if hi < 2 or v.S(1) < 1e-3: raise Skip
    return m, x, s, i, v, k, rng.choice([rng.randint(2, hi), hi, min(hi, rng.randint(2, 6))])


def one(v, t):
    """survival over policy year t+1"""
    a = v.S(t)
    return v.S(t + 1) / a if a > 0 else 0.


def prospective(v, T, E, b, prem, net, reserve_benefit):
    """reserve at each duration just before the premium: sum of discounted benefits less net premiums while in force"""
    out = []
    for t in range(T + 1):
        z, surv = 0., 1.
        for j in range(t, T):
            p = one(v, j)
            z -= surv * v.v(j - t) * net(j, prem(j))
            z += surv * v.v(j - t + 1) * (1 - p) * b(j + 1)
            if not reserve_benefit: surv *= p
        out.append(z + surv * v.v(T - t) * E)
    return out


def amp(v, t0, t1, rb):
    """growth of an error from duration t0 forward to t1"""
    g = 1 / max(1e-300, v.v(t1) / v.v(t0))
    return g if rb else g * v.S(t0) / max(1e-300, v.S(t1))


def policy(c, rng, v, T, settle=True):
    b0 = amount(rng)
    kind = rng.choice(['level', 'level', 'decreasing', 'increasing', 'arbitrary', 'none'])
    tbl = [rng.uniform(0, 2) * b0 for _ in range(T + 2)]
    b = {'level': lambda t: b0, 'decreasing': lambda t: b0 * (T + 1 - t) / T, 'increasing': lambda t: b0 * t, 'arbitrary': lambda t: tbl[t], 'none': lambda t: 0}[kind]
    E = rng.choice([0, b0, amount(rng)])
    pr = [rng.uniform(0, .2) * b0 for _ in range(T + 1)]
    if rng.random() < .5: pr = [pr[0]] * (T + 1)
    pp, fl = (rng.uniform(0, .3) if rng.random() < .6 else 0), (rng.uniform(0, .05) * b0 if rng.random() < .6 else 0)
    rb = rng.random() < .3
    c.note(T=T, benefit=kind, b0=b0, E=E, prem=pr[:3], per_premium=pp, per_policy=fl, reserve_benefit=rb); c.dim(benefit=kind, reserve_benefit=rb, term=min(T, 10))
    return b, b0, E, pr, pp, fl, rb


def grain(m, x, s, T):
    """relative error that rounding the number of lives to 7 decimals leaves in a life table's last survival probability"""
    if not isinstance(m.law, ref.Table) or m.kind.startswith('SULT'): return 0.
    radix = 1e5 if m.kind[10] in 'qp' else 1e3
    return 2e-7 / (radix * max(1e-12, m.law.S(m.minage, 0, x + s + T - 1 - m.minage)))


def scale(b0, E, pr, T): return max(b0, E, sum(pr)) * 3


def steps(c, rng):
    m, x, s, i, v, k, T = scene(c, rng)
    b, b0, E, pr, pp, fl, rb = policy(c, rng, v, T)
    o = m.obj
    net = lambda j, P: P * (1 - pp) - fl
    V = prospective(v, T, E, b, lambda j: pr[j], net, rb)
    sc = scale(b0, E, pr, T) * T
    ab = (2e-8 + grain(m, x, s, T)) * sc
    kw = dict(benefit=b, reserve_benefit=rb, **({} if not pp else dict(per_premium=pp)), **({} if not fl else dict(per_policy=fl)))
    t = rng.randint(1, T - 1)
    # one step each way from the true reserve at t
    c.call('set', o.set_reserves, T=T, endowment=E, V={t: V[t]})
    key = f"{k}{'.with-reserve' if rb else ''}"
    if t > 1: c.value('backward.' + key, V[t - 1], o.t_V_backward, x, s=s, t=t - 1, premium=pr[t - 1], **kw, rel=1e-7, abs=ab)
    if t > 2: c.value('t_V.backward.' + key, V[t - 1], o.t_V, x, s=s, t=t - 1, premium=pr[t - 1], **kw, rel=1e-7, abs=ab)   # year before is not known
    if t < T - 2: c.value('t_V.backward.maturity.' + key, V[T - 1], o.t_V, x, s=s, t=T - 1, premium=pr[T - 1], **kw, rel=1e-7, abs=ab)
    if t < T - 1:
        f = amp(v, t, t + 1, rb)
        if f < 1e4:
            c.value('forward.' + key, V[t + 1], o.t_V_forward, x, s=s, t=t + 1, premium=pr[t], **kw, rel=1e-7, abs=ab * f)
            c.value('t_V.forward.' + key, V[t + 1], o.t_V, x, s=s, t=t + 1, premium=pr[t], **kw, rel=1e-7, abs=ab * f)
    c.value('backward.maturity.' + key, V[T - 1], o.t_V_backward, x, s=s, t=T - 1, premium=pr[T - 1], **kw, rel=1e-7, abs=ab)
    c.same('t_V.given', c.call('t_V', o.t_V, x, s=s, t=t, premium=1, benefit=b), V[t])
    if T >= 4 and 1 < t < T - 2:
        far = t + 2 if t + 3 < T else None
        if far: c.same('t_V.unreachable', c.call('t_V', o.t_V, x, s=s, t=far, premium=pr[far], **kw), None)
    # chain of steps, recorded in the schedule: backward from maturity, and forward from t
    lo = rng.randint(1, T - 1)
    for j in range(T - 1, lo - 1, -1):
        w = c.call('chain', o.t_V_backward, x, s=s, t=j, premium=pr[j], **kw)
        c.call('set', o.set_reserves, V={j: w})
    c.close('chain.backward.' + key, w, V[lo], rel=1e-7, abs=ab)
    hi = rng.randint(t, T)
    if amp(v, t, hi, rb) < 1e4 and hi > t:
        c.call('set', o.set_reserves, V={t: V[t]})
        w = V[t]
        for j in range(t + 1, hi + 1):
            w = c.call('chain', o.t_V_forward, x, s=s, t=j, premium=pr[j - 1], **kw)
            c.call('set', o.set_reserves, V={j: w})
        c.close('chain.forward.' + key, w, V[hi], rel=1e-6, abs=ab * amp(v, t, hi, rb) * 3)
        # undo
        for j in range(hi - 1, t - 1, -1):
            w = c.call('chain', o.t_V_backward, x, s=s, t=j, premium=pr[j], **kw)
            c.call('set', o.set_reserves, V={j: w})
        c.close('chain.undo.' + key, w, V[t], rel=1e-7, abs=ab)


def contract(c, rng, m, x, s, v, T, k):
    """a level policy and its prospective gross reserves"""
    b = amount(rng); E = rng.choice([0, 0, b, amount(rng)]); rb = rng.random() < .25
    ex = terms(rng, b, b * .1)
    g = lambda q: ex.get(q, 0)
    def net(j, P): return P * (1 - g('initial_premium')) - g('initial_policy') if j == 0 else P * (1 - g('renewal_premium')) - g('renewal_policy')
    bf = lambda t: b + g('settlement_policy')
    P = b * rng.uniform(.01, .3)
    equiv = rng.random() < .7
    if equiv:       # premium that makes the value at issue zero (linear in P)
        V0 = prospective(v, T, E, bf, lambda j: 0., net, rb)[0]
        V1 = prospective(v, T, E, bf, lambda j: 1., net, rb)[0]
        if V0 - V1 < .3: raise Skip
        P = V0 / (V0 - V1)
    V = prospective(v, T, E, bf, lambda j: P, net, rb)
    con = Contract(premium=P, benefit=b, **ex, **(dict(endowment=E) if E else {}), **(dict(T=T) if rng.random() < .5 else {}))
    c.note(T=T, b=b, E=E, P=P, equivalence=equiv, ex=ex, reserve_benefit=rb)
    c.dim(reserve_benefit=rb, equivalence=equiv, expenses=len(ex), endowment=bool(E), term=min(T, 10))
    return con, b, E, P, ex, rb, V, equiv


def fill(c, rng):
    m, x, s, i, v, k, T = scene(c, rng)
    con, b, E, P, ex, rb, V, equiv = contract(c, rng, m, x, s, v, T, k)
    o = m.obj
    how = rng.choice(['none', 'some', 'some', 'all', 'alternate', 'last'])
    mid = range(1, T)
    given = {'none': [], 'all': list(mid), 'alternate': [t for t in mid if t % 2], 'last': [T - 1]}.get(how, [t for t in mid if rng.random() < .4])
    rng.shuffle(given)
    gv = {t: V[t] for t in given}
    if not equiv: gv[0] = V[0]
    viaV = E and rng.random() < .3 and len(gv)         # maturity value supplied as an entry
    if viaV: gv[T] = E
    c.note(given=sorted(gv), how=how); c.dim(given=how, maturity='entry' if viaV else 'endowment')
    parts = [gv]
    if len(gv) > 1 and rng.random() < .4:
        ks = list(gv); rng.shuffle(ks); h = rng.randint(1, len(ks) - 1)
        parts = [{t: gv[t] for t in ks[:h]}, {t: gv[t] for t in ks[h:]}]
    c.call('set', o.set_reserves, T=T, **(dict(endowment=E) if E and not viaV else {}), **(dict(V=parts[0]) if parts[0] else {}))
    for p in parts[1:]: c.call('set', o.set_reserves, V=p)
    before = dict(vars(con))
    r = c.call('fill', o.fill_reserves, x, s=s, contract=con, **(dict(reserve_benefit=True) if rb else {}))
    c.true('fill.returns-self', r is o)
    c.same('fill.contract-unchanged', dict(vars(con)), before)
    got = {t: o._reserves['V'].get(t) for t in range(T + 1)}
    sc = max(b, E, P * T, sum(ex.values())) * 3 * T
    c.true('fill.complete', all(got[t] is not None for t in got), lambda: f'{got}')
    for t in gv: c.same('fill.given-kept', got[t], gv[t], f't={t}')
    full = {t: V[t] for t in range(T + 1)}
    last = 0
    for t in range(1, T):
        if t in gv: last = t
        f = amp(v, last, t, rb)
        if f > 1e4: continue
        c.close(f"fill.{k}{'.with-reserve' if rb else ''}", got[t], V[t], rel=1e-6, abs=(3e-8 + grain(m, x, s, T)) * sc * f, what=f't={t}')
    c.same('fill.maturity', got[T], E)
    c.same('fill.extra', {t for t in o._reserves['V'] if t > T}, set())
    # again: nothing changes
    snap = dict(o._reserves['V'])
    c.call('fill.again', o.fill_reserves, x, s=s, contract=con, **(dict(reserve_benefit=True) if rb else {}))
    c.same('fill.idempotent', dict(o._reserves['V']), snap)
    # display
    df = c.call('frame', o.reserves_frame)
    c.same('frame', {int(t): float(z) for t, z in df['V_t'].items()}, {t: float(z) for t, z in snap.items()})
    c.same('frame.index', df.index.name, 't')
    if rng.random() < .05:
        fig, ax = plt.subplots()
        c.call('plot', o.V_plot, ax=ax, title='t')
        xs, ys = ax.lines[0].get_data()
        c.same('plot', [float(z) for z in ys], [float(snap[t]) for t in range(T + 1)])
        plt.close(fig)
    # one-period balance of the filled schedule, by the library's own step in the other direction
    t = rng.randint(1, T - 2) if T > 2 else None
    if t is not None and amp(v, 0, t + 1, rb) < 1e3:
        w = c.call('fill.balance', o.t_V_backward, x, s=s, t=t, premium=P, benefit=lambda _: b + ex.get('settlement_policy', 0), per_premium=ex.get('renewal_premium', 0),
                   per_policy=ex.get('renewal_policy', 0), reserve_benefit=rb)
        c.close('fill.balance', w, got[t], rel=1e-6, abs=(1e-7 + grain(m, x, s, T)) * sc * amp(v, 0, t + 1, rb))


def schedule(c, rng):
    """entry of reserves"""
    o = rng.choice([Reserves, LifeTable, SULT])()
    T = rng.randint(1, 12)
    c.same('schedule.initial', (dict(o._reserves['V']), o.T), ({}, 0))
    V = {t: rng.uniform(-5, 100) for t in range(T + 1) if rng.random() < .5}
    E = rng.choice([0, rng.uniform(1, 500)])
    if E: V.pop(T, None)
    c.note(T=T, V=V, E=E)
    arg = dict(V)
    r = c.call('schedule.set', o.set_reserves, T=T, **(dict(endowment=E) if E else {}), **(dict(V=arg) if V else {}))
    c.true('schedule.set.returns-self', r is o)
    want = {0: 0, T: E}; want.update(V)
    c.same('schedule.entries', dict(o._reserves['V']), want)
    c.same('schedule.T', o.T, T)
    c.same('schedule.arg-unchanged', arg, V)
    # a later entry leaves the others, and the caller's dictionary is not shared
    arg[1] = 77777.
    more = {t: rng.uniform(200, 300) for t in range(T + 1) if rng.random() < .3}
    if more and len(more) <= T + 1:
        c.call('schedule.set', o.set_reserves, V=more)
        want.update(more)
        c.same('schedule.later', dict(o._reserves['V']), want)
        c.same('schedule.T.later', o.T, T)
    # isolated
    c.same('schedule.isolated', dict(Reserves()._reserves['V']), {})


def separate(c, rng):
    """reserves known at separate years only: the latest is the term, and none is made up"""
    m, x, s, i, v, k, T = scene(c, rng)
    o = m.obj
    years = sorted(rng.sample(range(1, T + 1), rng.randint(1, min(3, T))))
    V = {t: rng.uniform(1, 100) for t in years}
    if rng.random() < .5: V[0] = rng.choice([0, rng.uniform(1, 50)])
    items = list(V); rng.shuffle(items)
    c.note(model=m, x=x, V=V); c.dim(years=len(V), gap=max(years) >= len(V))
    o._reserves, o.T = {'V': {}}, 0
    if rng.random() < .5 or len(items) == 1: c.call('separate.set', o.set_reserves, V={t: V[t] for t in items})
    else:
        h = rng.randint(1, len(items) - 1)
        if max(items[h:]) < max(items[:h]): items = items[h:] + items[:h]; h = len(items) - h
        c.call('separate.set', o.set_reserves, V={t: V[t] for t in items[:h]}); c.call('separate.set', o.set_reserves, V={t: V[t] for t in items[h:]})
    have = {t: float(w) for t, w in o._reserves['V'].items()}
    c.same('separate.T', o.T, max(years))
    c.same('separate.kept', {t: w for t, w in have.items() if t}, {t: float(w) for t, w in V.items() if t})
    c.same('separate.initial', have.get(0), float(V.get(0, 0)))
    # a missing year follows from its neighbour
    P, b = rng.uniform(0, 20), rng.uniform(1, 200)
    for t in range(1, max(years)):
        if t in V: continue
        p = v.S(t + 1) / v.S(t) if v.S(t) > 1e-3 else None
        q0 = v.S(t) / v.S(t - 1) if v.S(t - 1) > 1e-3 else None
        if p is None or q0 is None or q0 < .05: continue
        if t - 1 in have: want = ((have[t - 1] + P) * (1 + i) - (1 - q0) * b) / q0
        elif t + 1 in have: want = (p * have[t + 1] + (1 - p) * b) / (1 + i) - P
        else:
            c.same('separate.unknown', c.call('separate.t_V', o.t_V, x, s=s, t=t, premium=P, benefit=lambda _: b), None); continue
        c.value('separate.t_V', want, o.t_V, x, s=s, t=t, premium=P, benefit=lambda _: b, rel=1e-5, abs=1e-4 + 400 * grain(m, x, s, T))


def frac(m, k, x, s, t):
    """survival from [x]+s (integer) for t years within one year, on the library's documented fractional basis"""
    law = m.law
    if isinstance(law, (ref.Table, ref.SelectTable)) or k in ('CF', 'Uniform', 'Beta', 'Gompertz', 'Makeham'): return law.S(x, s, t)
    return 1 - t * (1 - law.S(x, s, 1))


def interim(c, rng):
    m, x, s, i, v, k, T = scene(c, rng)
    o = m.obj
    s = 0 if k != 'SelectLife' or rng.random() < .5 else s      # the schedule counts from selection
    v = Val(m, x, 0, i)
    if k != 'SelectLife': s = rng.randint(0, T - 1)
    b = amount(rng)
    if v.S(s) < 1e-3: raise Skip
    p, p1 = one(v, s), None
    if p < .02: raise Skip
    V0, P = rng.uniform(0, 1) * b, rng.choice([0, rng.uniform(0, .3) * b])
    V1 = ((V0 + P) / v.v(1) - b * (1 - p)) / p
    r = rng.choice([0, .5, .25, rng.random(), 1e-6, rng.uniform(.9, .999)])
    S = lambda t: frac(m, k, x, s, t)
    if k in ('generic',) and p < .05: raise Skip
    rq = 1 - S(r); rp = S(r)
    want = v.v(1 - r) * (p * V1 + (rp - p) * b) / rp
    c.note(x=x, s=s, r=r, b=b, V0=V0, V1=V1, P=P); c.dim(r=round(r, 1))
    sc = (b + V0 + abs(V1) + P)
    c.call('set', o.set_reserves, T=T + s + 2, V={s: V0, s + 1: V1} if s else {1: V1})
    if not s:  # value at issue is an ordinary entry
        c.call('set', o.set_reserves, V={0: V0})
    kw = {} if b == 1 else dict(benefit=b)
    tol = dict(rel=1e-6, abs=(3e-7 + grain(m, x, s, 3)) * sc / rp)
    # the fractional part may be given in r, and whole years in either argument
    s1, r1 = (s, r) if rng.random() < .7 or s == 0 else (s - 1, r + 1)
    c.value('interim.backward.' + k, want, o.r_V_backward, x, s=s1, r=r1, **kw, **tol)
    c.value('interim.forward.' + k, want, o.r_V_forward, x, s=s1, r=r1, premium=P, **kw, **tol)
    c.value('interim.just-before-anniversary.' + k, V1, o.r_V_backward, x, s=s, r=1 - 1e-7, **kw, rel=1e-4, abs=1e-5 * sc)
    c.same('interim.unknown', c.call('interim', o.r_V_backward, x, s=T + s + 5, r=r, **kw), None)
    c.same('interim.unknown', c.call('interim', o.r_V_forward, x, s=T + s + 5, r=r, **kw), None)


def modified(c, rng):
    """full preliminary term values satisfy the one-year balance with the renewal premium"""
    m, x, s, i, v, k, T = scene(c, rng)
    if T < 4: raise Skip
    o = m.obj
    b = amount(rng); whole = rng.random() < .3 and i > 0 and (m.natural or m.law.omega is None or v.S(v.N) < 1e-9) and k != 'SelectLife'
    n = -999 if whole else T
    E = 0
    kw = {} if whole else dict(n=T)
    c.note(T=n, b=b); c.dim(fpt='whole' if whole else 'term')
    t = rng.choice([rng.randint(1, T - 2), T - 1]) if not whole else rng.randint(1, T - 2)
    if v.S(t + 1) < 1e-3: raise Skip
    beta = c.call('fpt.premium', o.FPT_premium, x, s=s, b=b, **kw)
    V0 = c.call('fpt.value', o.FPT_policy_value, x, s=s, t=t, b=b, **kw)
    V1 = c.call('fpt.value', o.FPT_policy_value, x, s=s, t=t + 1, b=b, **kw)
    p = one(v, t)
    A = v.ins(-1 if whole else T)
    tol = 2e-6 * b * 20 / max(1e-3, (1 - A) if whole else .1) * (1 + (1 / i if i else 50))
    c.close('fpt.balance.' + k, (V0 + beta) / v.v(1), p * V1 + (1 - p) * b, rel=1e-6, abs=tol)
    o.set_reserves(T=T, V={t + 1: V1})
    c.value('fpt.backward.' + k, V0, o.t_V_backward, x, s=s, t=t, premium=beta, benefit=lambda _: b, rel=1e-6, abs=tol)
    if t + 1 == T and not whole: c.close('fpt.maturity.' + k, V1, 0., abs=tol)
    c.same('fpt.zero', [c.call('fpt.value', o.FPT_policy_value, x, s=s, t=j, b=b, **kw) for j in (0, 1)], [0, 0])
    alpha = c.call('fpt.premium', o.FPT_premium, x, s=s, b=b, first=True, **kw)
    c.close('fpt.first.' + k, alpha, b * v.v(1) * (1 - v.S(1)), rel=1e-6, abs=2e-6 * b)


THOROUGH = 4      # scale of the thorough tier
GROUPS = [('separate', separate, 400, 6000), ('steps', steps, 1500, 25000), ('fill', fill, 2500, 40000), ('schedule', schedule, 300, 3000), ('interim', interim, 1000, 15000), ('modified', modified, 400, 6000)]
