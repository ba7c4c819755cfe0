"""P22 plots draw the functions they name"""
import math
import re
import warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
import numpy as np
from actuarialmath import Reserves, PolicyValues
from vmon import ref, gens
from vmon.core import Skip
from vmon.props import p05, p09

warnings.filterwarnings('ignore', module='matplotlib')
QUICK = 2
RULE = ('A case draws a mortality basis, age and duration since selection, interest rate, benefit function or policy, plotting range, annotated lifetime and display options, draws the insurance, annuity, loss or reserve plot on real axes, '
        'and reads back every drawn artist: heights of all bars against the discounted value of the benefit at each time, points of the second axis against the survival probability of [x]+s, annotation marker, labels and returned value. Distinct by scenario.')
ASSUMPTIONS = ['only the plotted data, annotations and titles are judged, not appearance']


def bars(ax):
    """centre -> height of the bars drawn"""
    return [(r.get_x() + r.get_width() / 2, r.get_height()) for cont in ax.containers for r in cont.patches]


def nums(text):
    return [float(w) for w in re.findall(r'-?\d+\.?\d*(?:e[+-]?\d+)?', text)]


def labels(ax):
    g = ax.get_legend()
    return [w.get_text() for w in g.get_texts()] if g else []


def draw(c, rng, fn, o, kw, need_axes=True):
    """draw on own axes or let the library create them; returns (result, axes)"""
    plt.close('all')
    own = rng.random() < .5
    if own:
        fig, ax = plt.subplots(*rng.choice([(1, 1), (1, 2)]))
        if not hasattr(ax, 'bar'): ax = ax[rng.randint(0, 1)]
        r = c.call('plot', fn, **kw, ax=ax)
        c.true('plot.axes', ax.has_data(), 'nothing drawn on the axes given')
        others = [a for a in fig.axes if a is not ax and a.bbox.bounds != ax.bbox.bounds and a.has_data()]
        c.true('plot.other-axes', not others, 'drawn on other axes')
    else:
        r = c.call('plot', fn, **kw)
        ax = plt.gcf().axes[0]
    twin = [a for a in ax.figure.axes if a is not ax and a.bbox.bounds == ax.bbox.bounds]
    return r, ax, (twin[0] if twin else None)


def base(c, rng):
    if rng.random() < .2:
        m, n = p05.select_model(rng, rng.random() < .6)
        x = rng.randint(m.minage, m.maxage); s = rng.choice([0, 0, rng.randint(0, n + 1)])
        if x + s > m.maxage: s = 0
        room = m.maxage + n - x - s - 1     # a year short of the end of the table
    else:
        m = gens.any_model(rng, dict(generic=4, law=3, table=4, sult=2))
        x, s = m.pick_age(rng)
        room = m.maxage - x - s
    if room < 1: raise Skip
    i = rng.choice([0., rng.uniform(.005, .12), rng.uniform(.005, .12)])
    c.call('set_interest', m.obj.set_interest, **gens.interest_kw(rng, i))
    return m, x, s, i, room


def times(rng, m, room, disc):
    """stop argument, last time drawn, step"""
    full = room <= 120 and not m.kind.startswith('SelectLife')
    stop = 0 if full and rng.random() < .35 else rng.randint(1, min(room, rng.choice([5, 20, 60])))
    if rng.random() < .05 and not disc and not stop == 0: stop = min(stop, room) * .75
    last = stop or room
    return stop, last, 1 if disc else last / 1000


def compare(c, key, got, want, last, step, scale):
    """every time 0, step, .. last is drawn with the wanted height"""
    got = sorted(got)
    n = int(round(last / step))
    c.true(key + '.times', len(got) in (n + 1, n + 2) and all(abs(t - k * step) < 1e-6 * max(1, last) for k, (t, _) in enumerate(got)),
           lambda: f'{len(got)} drawn at {[round(t, 4) for t, _ in got[:4]]} .. {got[-1][0] if got else None}, expected 0 to {last} by {step}')
    bad = [(t, h, want(k)) for k, (t, h) in enumerate(got[:n + 1]) if not math.isclose(h, want(k), rel_tol=1e-6, abs_tol=1e-7 * scale)]
    c.true(key + '.heights', not bad, lambda: f'{len(bad)} of {len(got)} wrong, first (time, drawn, reference) {bad[0]}')


def survival(c, key, bx, m, x, s, last, step, K, T, disc):
    if not c.true(key + '.dual', bx is not None, 'no second axis'): return
    S = m.law if m.kind.startswith('SelectLife') else None
    p = (lambda t: S.S(x, s, t)) if S else m.S(x, s)
    lines = [l for l in bx.lines if len(l.get_xdata()) > 1]
    if not c.true(key + '.dual.line', len(lines) == 1, f'{len(lines)} curves on the second axis'): return
    X, Y = map(np.asarray, lines[0].get_data())
    n = int(round(last / step))
    bad = [(float(t), float(y), p(t)) for k, (t, y) in enumerate(zip(X, Y)) if k < n and not math.isclose(y, p(min(k * step, t)), rel_tol=1e-6, abs_tol=2e-6)]
    c.true(key + '.dual.survival', len(X) >= n and not bad, lambda: f'{len(bad)} of {len(X)} wrong, first (time, drawn, reference) {bad[0] if bad else None}')
    if T is not None and T < last:
        want = p(T)
        marks = [l.get_data() for l in bx.lines if len(l.get_xdata()) == 1]
        c.true(key + '.dual.mark', len(marks) == 1 and abs(marks[0][0][0] - T) < 1e-9 and abs(marks[0][1][0] - want) < 2e-6, lambda: f'marked {marks} expected {(T, want)}')
        got = [nums(w) for w in labels(bx)]
        c.true(key + '.dual.label', len(got) == 1 and len(got[0]) == 2 and abs(got[0][0] - T) < .006 and abs(got[0][1] - want) < 6e-5, lambda: f'{labels(bx)} expected {(T, want)}')


def annotate(c, key, r, ax, T, want, color, scale):
    marks = [l.get_data() for l in ax.lines if len(l.get_xdata()) == 1]
    if T is None:
        c.true(key + '.return', r is None, f'returned {r}'); c.true(key + '.no-mark', not marks and not labels(ax), f'{marks}')
        return
    c.close(key + '.return', r, want, rel=1e-6, abs=1e-7 * scale)
    c.true(key + '.mark', len(marks) == 1 and abs(marks[0][0][0] - T) < 1e-9 and math.isclose(marks[0][1][0], want, rel_tol=1e-6, abs_tol=1e-7 * scale), lambda: f'marked {marks} expected {(T, want)}')
    got = [nums(w) for w in labels(ax)]
    c.true(key + '.label', len(got) == 1 and len(got[0]) == 2 and abs(got[0][0] - T) < .006 and math.isclose(got[0][1], want, rel_tol=1e-6, abs_tol=6e-5), lambda: f'{labels(ax)} expected {(T, want)}')


def pv(c, rng, which):
    m, x, s, i, room = base(c, rng)
    o = m.obj
    disc = rng.random() < .8
    stop, last, step = times(rng, m, room, disc)
    T = rng.choice([None, 0, rng.randint(0, int(last)), rng.uniform(0, last), rng.uniform(0, last)])
    dual = rng.random() < .5
    kw = dict(x=x, discrete=disc)
    if s or rng.random() < .3: kw['s'] = s
    if stop: kw['stop'] = stop
    if T is not None: kw['T'] = T
    if dual: kw['dual'] = True
    b = lambda x, t: 1.
    how = rng.choice(['default', 'default', 'level', 'age', 'time', 'term'])
    if how != 'default':
        B = rng.choice([1000., rng.uniform(.2, 5)]); n = x + s + rng.randint(1, max(1, int(last)))
        b = dict(level=lambda x, t: B, age=lambda x, t: B * (x + t), time=lambda x, t: B * (1 + t), term=lambda x, t: B if x + t < n + .5 * disc - .25 else 0.)[how]
        kw['benefit'] = b
    title, color = rng.choice([None, '', ' ', 'Some title']), rng.choice([None, 'g', 'C1'])
    if title is not None: kw['title'] = title
    if color: kw['color'] = color
    c.note(plot=which, model=m, i=i, args={k: v for k, v in kw.items() if k != 'benefit'}, benefit=how)
    c.dim(plot=which, kind=m.kind, discrete=disc, dual=dual, annotated='no' if T is None else 'zero' if T == 0 else 'yes', benefit=how, interest=i > 0, stop=bool(stop), select=s > 0)
    f = p09.z_value if which == 'Z' else p09.y_value
    scale = max(1, abs(b(x, s + last))) * (1 if which == 'Z' else 10)
    r, ax, bx = draw(c, rng, getattr(o, which + '_plot'), o, kw)
    key = f'{which}_plot.{"discrete" if disc else "continuous"}'
    at = lambda t: b(x, s + t) * f(i, t, disc)
    if how == 'term' and not disc:        # benefit jumps: keep away from the boundary
        compare(c, key, [(t, h) for t, h in bars(ax)], lambda k: b(x, s + k * step) * f(i, k * step, disc), last, step, scale)
    else: compare(c, key, bars(ax), lambda k: at(k * step), last, step, scale)
    if T is not None: annotate(c, key, r, ax, T, at(T), color, scale)
    else: annotate(c, key, r, ax, None, None, color, scale)
    if dual: survival(c, key, bx, m, x, s, last, step, 'K', T, disc)
    else: c.true(key + '.single', bx is None, 'second axis drawn')
    if title is not None: c.same(key + '.title', ax.get_title(), title)
    else: c.true(key + '.title', which in ax.get_title() and str(x or 'x') in ax.get_title(), f'{ax.get_title()!r}')
    if color: c.true(key + '.color', all(to_rgba(p.get_facecolor())[:3] == to_rgba(color)[:3] for p in ax.containers[0].patches[:3]), 'bars not in the colour given')
    plt.close('all')


def z_plot(c, rng): pv(c, rng, 'Z')
def y_plot(c, rng): pv(c, rng, 'Y')


def l_plot(c, rng):
    m, x, s, i, room = base(c, rng)
    o = m.obj
    if not isinstance(o, PolicyValues): raise Skip
    disc = rng.random() < .8
    stop, last, step = times(rng, m, room, disc)
    T = rng.choice([None, 0, rng.randint(0, int(last)), rng.uniform(0, last)])
    dual = rng.random() < .5
    kt, con = p09.contract(rng, disc)
    kw = dict(x=x, contract=con)
    if rng.random() < .08: kt = dict(premium=1, benefit=1, discrete=True); del kw['contract']; disc = True; step = 1
    if isinstance(stop, float) and disc: raise Skip
    if s or rng.random() < .3: kw['s'] = s
    if stop: kw['stop'] = stop
    if T is not None: kw['T'] = T
    if dual: kw['dual'] = True
    title, color = rng.choice([None, '', 'Some title']), rng.choice([None, 'g'])
    if title is not None: kw['title'] = title
    if color: kw['color'] = color
    c.note(plot='L', model=m, i=i, args={k: v for k, v in kw.items() if k != 'contract'}, contract=kt)
    c.dim(plot='L', kind=m.kind, discrete=disc, dual=dual, annotated='no' if T is None else 'zero' if T == 0 else 'yes', interest=i > 0, stop=bool(stop), select=s > 0)
    r, ax, bx = draw(c, rng, o.L_plot, o, kw)
    key = f'L_plot.{"discrete" if disc else "continuous"}'
    scale = kt['benefit'] * 10
    compare(c, key, bars(ax), lambda k: p09.loss(i, k * step, kt), last, step, scale)
    annotate(c, key, r, ax, T, None if T is None else p09.loss(i, T, kt), color, scale)
    if dual: survival(c, key, bx, m, x, s, last, step, 'K', T, disc)
    else: c.true(key + '.single', bx is None, 'second axis drawn')
    if title is not None: c.same(key + '.title', ax.get_title(), title)
    plt.close('all')


def v_plot(c, rng):
    """the reserves in the table, at their times, unknown ones missing"""
    T = rng.randint(1, 30)
    V = {t: rng.uniform(-500, 2000) for t in range(T + 1) if rng.random() < rng.choice([.5, 1])}
    how = rng.choice(['set', 'set', 'fill'])
    o = Reserves()
    E = rng.choice([0, 1000])
    kw = dict(T=T)
    c.note(T=T, V=V, how=how); c.dim(plot='V', how=how, term=T, known=len(V))
    if how == 'set':
        c.call('set_reserves', o.set_reserves, T=T, V=dict(V))
        want = {t: V.get(t) for t in range(T + 1)}
        if 0 not in V: want[0] = None
    else:
        m = gens.table_model(rng)
        if m.maxage - m.minage < 3: raise Skip
        o = m.obj
        T = rng.randint(1, min(T, m.maxage - m.minage - 1))
        c.call('set_interest', o.set_interest, i=rng.uniform(.01, .1))
        c.call('set_reserves', o.set_reserves, T=T, endowment=E)
        con = p09.Contract(premium=rng.uniform(1, 50), benefit=1000, endowment=E, T=T)
        c.call('fill_reserves', o.fill_reserves, m.minage, contract=con)
        f = c.call('reserves_frame', o.reserves_frame)
        want = {t: (float(f['V_t'][t]) if t in f.index and f['V_t'][t] is not None and not math.isnan(f['V_t'][t]) else None) for t in range(T + 1)}
    kw = {}
    title, color = rng.choice([None, 'Some title']), rng.choice([None, 'g'])
    if title is not None: kw['title'] = title
    if color: kw['color'] = color
    r, ax, bx = draw(c, rng, o.V_plot, o, kw)
    got = {}
    for l in ax.lines:
        for t, y in zip(*l.get_data()):
            if y is not None and not math.isnan(float(y)): got[float(t)] = float(y)
    frame = c.call('reserves_frame', o.reserves_frame)
    if how == 'set':       # time 0 of a new table may be known as zero
        fr = {t: float(frame['V_t'][t]) for t in frame.index if frame['V_t'][t] is not None and not math.isnan(frame['V_t'][t])}
        want = {t: fr.get(t, want[t]) if t not in V else V[t] for t in want}
    for t in range(T + 1):
        if want[t] is None: c.true('V_plot.unknown', t not in got, f'unknown reserve at {t} drawn as {got.get(t)}')
        else: c.true('V_plot.point', t in got and math.isclose(got[t], want[t], rel_tol=1e-9, abs_tol=1e-9), f'reserve at {t} drawn as {got.get(t)}, is {want[t]}')
    c.true('V_plot.range', all(t in range(T + 1) for t in got), f'{sorted(got)} outside 0..{T}')
    if title is not None: c.same('V_plot.title', ax.get_title(), title)
    plt.close('all')


GROUPS = [('Z', z_plot, 100, 2500), ('Y', y_plot, 100, 2500), ('L', l_plot, 100, 2500), ('V', v_plot, 100, 2000)]
REQUIRED = ['Z_plot.discrete.heights', 'Z_plot.continuous.heights', 'Z_plot.discrete.dual.survival', 'Z_plot.continuous.dual.survival', 'Y_plot.discrete.heights', 'Y_plot.continuous.heights', 'Y_plot.continuous.dual.survival',
            'L_plot.discrete.heights', 'L_plot.continuous.heights', 'L_plot.continuous.dual.survival', 'V_plot.point']
