"""P23 displayed recursion steps"""
import contextlib
import io
import math
import re
from actuarialmath import Recursion
from vmon.core import Skip
from vmon.props import p15
from vmon.props.p15 import W, VAR, Truth, amount, put, split, fact, queries, rule_table, neighbours

RULE = ('A case supplies true facts to the recursion solver as for P15 (random collections, or the facts of one documented rule with distractions) with display of steps on in raw text, captures everything printed by each query, '
        'parses every displayed line and evaluates both sides in the generating model; titles must name the kind of quantity, nothing may be printed when display is off, and display never changes the answer; the typeset display of the same query is parsed and must denote the same steps. Distinct by facts and queries.')
ASSUMPTIONS = ['the text display is judged for truth, the typeset display by denoting the same steps as the text (it does not tell endowment amounts of insurances)', 'the display does not tell annual from continuous payment: a line must be true for one of the two', 'b and endow denote the benefit and endowment amounts of the left-hand side']
QUICK = 3
TERM = re.compile(r'(IA|DA|A|a|E|e|q|p)_(-?\d+)(?:\(([^)]*)\))?')
TOKEN = re.compile(r'\s*(?:(?P<term>(?:IA|DA|A|a|E|e|q|p)_-?\d+(?:\([^)]*\))?)|(?P<num>\d+(?:\.\d+)?(?:e[+-]?\d+)?)|(?P<name>endow|v|d|b)|(?P<op>[-+*/^\[\]()]))')
LABEL = dict(zip(('Mortality', 'Survival', 'Lifetime', 'Pure Endowment', 'Increasing Insurance', 'Decreasing Insurance', 'Whole Life Insurance', 'Term Insurance', 'Deferred Insurance', 'Endowment Insurance',
                  'Whole Life Annuity', 'Temporary Annuity', 'Deferred Annuity'), ('q', 'p', 'e', 'E', 'IA', 'DA', 'A', 'A', 'A', 'A', 'a', 'a', 'a')))


class Bad(Exception): pass


def term(text):
    """kind, age and arguments of a displayed quantity"""
    m = TERM.fullmatch(text.strip())
    if not m: raise Bad(f'not a quantity: {text!r}')
    k, x, rest = m.group(1), int(m.group(2)), [w.strip() for w in (m.group(3) or '').split(',') if w.strip()]
    a = {}
    for w in rest:
        if '=' in w:
            n, v = w.split('=')
            a[n] = W if v == 'WL' else float(v) if '.' in v or 'e' in v else int(v)
        else: a[w] = True
    allowed = dict(q={'t', 'defer'}, p={'t'}, e={'t', 'mom', 'curtate', 'complete'}, E={'t', 'mom', 'endow'}, IA={'t', 'b'}, DA={'t', 'b'}, A={'t', 'u', 'b', 'endow', 'mom'}, a={'t', 'u', 'b', 'var'})[k]
    if set(a) - allowed: raise Bad(f'unknown argument in {text!r}')
    return k, x, a


class Early(Exception): pass


def val(T, text, disc):
    k, x, a = term(text)
    if x < T.x0: raise Early
    t, b, m = a.get('t'), a.get('b', 1), a.get('mom', 1)
    if k == 'q':
        t, u = a.get('t', 1), a.get('defer', 0)
        return T.p(x, u) - T.p(x, u + t)
    if k == 'p': return T.p(x, a.get('t', 1))
    if k == 'e':
        if 'curtate' in a and 'complete' in a: raise Bad(text)
        return T.e(x, a.get('t', W), 'curtate' in a, m)
    if k == 'E': return 0. if a.get('t', 1) < 0 else T.E(x, a.get('t', 1), a.get('endow', 1), m)
    t = a.get('t', W)
    if k == 'IA': return T.IA(x, t, b, disc)
    if k == 'DA': return T.DA(x, t, b, disc)
    if k == 'A': return T.A(x, t, a.get('u', 0), b, m, a.get('endow', 0), disc)
    return T.a(x, t, a.get('u', 0), b, disc, 'var' in a)


def tokens(text):
    out, pos = [], 0
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m or m.end() == pos: raise Bad(f'cannot read {text[pos:]!r}')
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


class Expr:
    """value of a displayed expression; juxtaposition multiplies"""
    def __init__(self, T, toks, disc, env): self.T, self.k, self.i, self.disc, self.env = T, toks, 0, disc, env

    def peek(self): return self.k[self.i] if self.i < len(self.k) else (None, None)

    def all(self):
        r = self.sum()
        if self.i != len(self.k): raise Bad(f'unexpected {self.peek()[1]!r}')
        return r

    def sum(self):
        r = self.product()
        while self.peek()[1] in ('+', '-'):
            o = self.peek()[1]; self.i += 1
            q = self.product(); r = r + q if o == '+' else r - q
        return r

    def product(self):
        r = self.power()
        while True:
            kind, w = self.peek()
            if w in ('*', '/'):
                self.i += 1; q = self.power(); r = r * q if w == '*' else r / q
            elif kind in ('term', 'name') or w in ('[', '('): r *= self.power()
            else: return r

    def power(self):
        r = self.atom()
        if self.peek()[1] == '^':
            self.i += 1; r = r ** self.atom()
        return r

    def atom(self):
        kind, w = self.peek(); self.i += 1
        if kind == 'num': return float(w)
        if kind == 'term': return val(self.T, w, self.disc)
        if kind == 'name':
            if w == 'v': return self.T.v
            if w == 'd': return self.T.d if self.disc else self.T.delta
            return self.env[w]
        if w in ('[', '('):
            r = self.sum()
            if self.peek()[1] != (']' if w == '[' else ')'): raise Bad('brackets do not match')
            self.i += 1
            return r
        raise Bad(f'unexpected {w!r}')


def sides(T, line):
    """values of the two sides of a displayed equation, when annual and when continuous"""
    # the equals sign outside argument lists
    depth, cut = 0, []
    for j, ch in enumerate(line):
        depth += (ch == '(') - (ch == ')')
        if ch == '=' and depth == 0: cut.append(j)
    if len(cut) != 1: raise Bad('not one equation')
    left, right = line[:cut[0]].strip(), line[cut[0] + 1:]
    k, x, a = term(left)
    env = dict(b=a.get('b', 1), endow=a.get('endow', 0 if k == 'A' else 1))
    toks = tokens(right)
    return left, [(val(T, left, d), Expr(T, toks, d, env).all()) for d in (True, False)]


def blocks(out):
    """[(title, [(line, rule)])]"""
    r = []
    for line in out.split('\n'):
        if not line.strip(): continue
        if line.startswith(' *') and line.rstrip().endswith(':='): r.append((line.strip()[1:-2].strip(), []))
        else:
            if not r: raise Bad(f'step without title: {line!r}')
            j = line.rfind('~')
            if j < 0: raise Bad(f'no rule named: {line!r}')
            r[-1][1].append((line[:j].strip(), line[j + 1:].strip()))
    return r


def check(c, T, out, name):
    try: B = blocks(out)
    except Bad as e:
        c.true('trace.readable', False, f'{name}: {e}'); return 0
    n = 0
    for title, lines in B:
        lab = max((l for l in LABEL if title.startswith(l + ' ')), key=len, default=None)
        if c.true('trace.title', lab is not None, f'title {title!r}'):
            try:
                k, _, a = term(title[len(lab):])
                c.true('trace.title-kind', k == LABEL[lab], f'title {title!r}')
            except Bad as e: c.true('trace.title-kind', title[len(lab):].strip() in '01', f'title {title!r}: {e}')
        for line, rule in lines:
            n += 1
            try: left, pairs = sides(T, line)
            except Early: continue
            except ZeroDivisionError: continue
            except Bad as e:
                c.true('trace.readable', False, f'{line!r} ({rule}): {e}'); continue
            c.dim(step=rule)
            key = 'trace.equation.' + rule.replace(' ', '-')
            ok = any(math.isclose(l, r, rel_tol=1e-6, abs_tol=1e-7) for l, r in pairs)
            c.true(key, ok, lambda: f'{line!r}: the left side is {pairs[0][0]}, the right side is {pairs[0][1]} (continuous: {pairs[1]})')
    return n


def titled(c, out, name, kw, y):
    """a single trace names the quantity asked for"""
    try: B = blocks(out)
    except Bad: return
    if len(B) != 1: return
    lab = max((l for l in LABEL if B[0][0].startswith(l + ' ')), key=len, default=None)
    if lab is None or kw.get('moment') == VAR or kw.get('variance'): return
    try: k, x, a = term(B[0][0][len(lab):])
    except Bad: return
    want = dict(q_x='Mortality', p_x='Survival', e_x='Lifetime', E_x='Pure Endowment').get(name, name.replace('_', ' ').title())
    if lab != want: return                       # trace of a question asked along the way
    c.same('trace.title-age', x, y)
    t = kw.get('t', W if name.split('_')[0] in ('whole', 'deferred', 'increasing', 'decreasing', 'e') else 1)
    if k in ('q', 'p'): c.same('trace.title-term', a.get('t', 1), t)
    elif k == 'e': c.same('trace.title-term', a.get('t', W), t)
    else: c.same('trace.title-term', a.get('t', W), t if t >= 0 else W)
    c.same('trace.title-deferral', a.get('u', a.get('defer', 0)), kw.get('u', 0))
    if k in ('A', 'a', 'IA', 'DA'): c.same('trace.title-benefit', float(a.get('b', 1)), float(kw.get('b', 1)))
    if k in ('A', 'E', 'e'): c.same('trace.title-moment', a.get('mom', 1), kw.get('moment', 1))
    if name == 'endowment_insurance':
        e = kw.get('endowment', -1)
        c.same('trace.title-endowment', float(a.get('endow', 0)), float(kw.get('b', 1) if e < 0 else e))


def listen(life, name, x, s, kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try: r = getattr(life, name)(x, s=s, **kw)
        except (NameError, AttributeError, KeyError, IndexError): raise
        except Exception: r = None
    return r, out.getvalue()


def solve(c, rng, T, F, Q, depth):
    """one verbose and one quiet solver given the same facts"""
    Recursion.blog_options(latex=False, notebook=rng.random() < .3)
    try:
        loud, quiet = (Recursion(depth=depth, verbose=vb).set_interest(i=T.i) for vb in (True, False))
        st = rng.getstate()
        for life in (loud, quiet):
            rng.setstate(st)
            for k, v, y, kw in F: put(c, life, rng, T, (k, v, kw), y)
        steps = 0
        for name, kw, y in Q:
            X, s = split(rng, y)
            c.stats.events += 2
            r, out = listen(loud, name, X, s, kw)
            r2, out2 = listen(quiet, name, X, s, kw)
            c.log.append(f'{name}({X},s={s},{kw}) -> {r}\n{out}')
            c.true('trace.quiet', not out2.strip(), f'printed with display off: {out2!r}')
            c.true('trace.harmless', r == r2 or (r is not None and r2 is not None and math.isclose(r, r2, rel_tol=1e-12)), f'{name} {kw}: {r} with steps displayed, {r2} without')
            steps += check(c, T, out, name)
            if r is not None: titled(c, out, name, kw, y)
        c.dim(steps=min(20, steps))
    finally: Recursion.blog_options(latex=False, notebook=False)


def rules(c, rng):
    T = Truth(rng)
    x = T.x0 + rng.randint(3, 5)
    R = rule_table(rng, T, x)
    for rule in rng.sample(sorted(R), 8):
        F, name, kw, want = R[rule]
        F = list(F)
        if rng.random() < .4: F += neighbours(rng, T, F)
        rng.shuffle(F)
        c.note(i=T.i, x=x, q=T.q[:12], rule=rule, facts=F, query=name, kw=kw); c.dim(rule=rule)
        solve(c, rng, T, F, [(name, kw, x)], 1 if name == 'e_x' else rng.choice([2, 3, 3]))


def facts(c, rng):
    T = Truth(rng)
    x = T.x0 + rng.randint(3, 6)
    F = []
    if rng.random() < .4: F += [('q', T.qq(x + j), x + j, dict(t=1, u=0)) for j in range(rng.randint(3, 8))]
    for y in [x + rng.choice([0, 0, 1, 1, -1, 2, 3]) for _ in range(rng.choice([2, 3, 4, 6, 10]))]:
        k, v, kw = fact(rng, T, y)
        F.append((k, v, y, kw))
    rng.shuffle(F)
    depth = rng.choice([3, 3, 3, 2, 4])
    Q = []
    for y in (x, x + rng.choice([1, 1, -1, 2])):
        Q += [(name, kw, y) for name, kw, _ in queries(T, y, rng) if name != 'e_x' or depth < 3 and rng.random() < .1]
    c.note(i=T.i, x=x, q=T.q[:12], facts=F, depth=depth)
    solve(c, rng, T, F, Q, depth)


def lifetimes(c, rng):
    T = Truth(rng)
    x = T.x0 + 2
    F, Q, depth = p15.lifetime_facts(rng, T, x, .12)
    c.note(i=T.i, x=x, q=T.q[:10], facts=F, queries=Q, depth=depth)
    solve(c, rng, T, F, Q, depth)


NUM = r'(?:\d+(?:\.\d+)?(?:e[+-]?\d+)?)'
AGE = r'(?:x\+(?P<x>-?\d+)|x)'
SPAN = rf'\{{\{{{AGE}(?::\\overline\{{(?P<t>\d+)\|\}})?\}}\}}'
LATEX = [(k, re.compile(rx)) for k, rx in (
    ('q', rf'(?:_\{{\{{(?:(?P<u>\d+)\|)?(?P<t>\d+)?\}}\}})?q_\{{{AGE}\}}'),
    ('p', rf'(?:_\{{(?P<t>\d+)\}})?p_\{{{AGE}\}}'),
    ('e', rf'(?P<wrap>E\[|Var\[)?(?P<circ>\\overset\{{\{{\\circ\}}\}}\{{\{{e\}}\}}|e)_{SPAN}(?:\^\{{(?P<m>\d+)\}})?\]?'),
    ('E', rf'(?:\^(?P<m>\d+))?(?:_\{{(?P<t>\d+|\\infty)\}})?E_\{{{AGE}\}}(?:\* (?P<b>{NUM}))?'),
    ('IA', rf'\(IA\)_{SPAN}(?:\* (?P<b>{NUM}))?'),
    ('DA', rf'\(DA\)_{SPAN}(?:\* (?P<b>{NUM}))?'),
    ('A', rf'(?:_\{{(?P<u>\d+)\|\}})?(?:\^(?P<m>\d+))?(?P<bar>\\overline\{{\{{A\}}\}}|A)(?P<one>\^1)?_{SPAN}(?:\* (?P<b>{NUM}))?'),
    ('a', rf'(?P<wrap>Var\[)?(?:_\{{(?P<u>\d+)\|\}})?(?P<bar>\\ddot\{{a\}}|a)_{SPAN}(?:\* (?P<b>{NUM}))?\]?'))]
LWORD = re.compile(r'\s*(?:(?P<num>\d+(?:\.\d+)?(?:e[+-]?\d+)?)|(?P<name>endow|v|d|b)|(?P<op>\\left\(|\\right\)|[-+*/^=\[\](){}]))')


def canon(k, x, t, u, m, b, extra=None):
    return (k, x, t, u, m, float(b), extra)


def text_tokens(line):
    """a displayed message with its quantities reduced to what typeset notation tells"""
    out, pos = [], 0
    word = re.compile(r'\s*(?:(?P<term>(?:IA|DA|A|a|E|e|q|p)_-?\d+(?:\([^)]*\))?)|(?P<num>\d+(?:\.\d+)?(?:e[+-]?\d+)?)|(?P<name>endow|v|d|b)|(?P<op>[-+*/^=\[\]()]))')
    line = line.rstrip()
    while pos < len(line):
        m = word.match(line, pos)
        if not m: raise Bad(f'cannot read {line[pos:]!r}')
        pos = m.end()
        if m.lastgroup == 'term':
            k, x, a = term(m.group('term'))
            t, u, mo, b = a.get('t'), a.get('u', a.get('defer', 0)), a.get('mom', 1), a.get('b', 1)
            ex = None
            if k in ('q', 'p', 'E'): t = 1 if t is None else t
            elif t is None or t < 0: t = W
            if k == 'E': b = a.get('endow', 1)
            if k == 'e': ex = 'curtate' in a
            if k == 'A': ex = t < 0 or a.get('endow', 0) != 0
            if k == 'a': mo = VAR if 'var' in a else 1
            if k == 'A' and mo < 0: mo = 1                  # not told
            out.append(canon(k, x, t, u, mo, b, ex))
        else: out.append(float(m.group('num')) if m.lastgroup == 'num' else m.group(m.lastgroup))
    return out


def latex_tokens(line):
    out, pos = [], 0
    line = line.rstrip()
    while pos < len(line):
        if line[pos] in ' ': pos += 1; continue
        if line[pos] == '~':
            pos += 1
            if pos == len(line): break
            got = None
            for k, rx in LATEX:
                m = rx.match(line, pos)
                if m and (got is None or m.end() > got[1].end()): got = (k, m)
            if got:
                k, m = got; g = m.groupdict(); pos = m.end()
                x = int(g['x'] or 0)
                t = W if g.get('t') == '\\infty' else int(g['t']) if g.get('t') else (1 if k in ('q', 'p', 'E') else W)
                mo = int(g.get('m') or 1)
                if g.get('wrap') == 'Var[': mo = VAR
                ex = None
                if k == 'e': ex = g['circ'] == 'e'
                if k == 'A': ex = t < 0 or not g['one']
                out.append(canon(k, x, t, int(g.get('u') or 0), mo, g.get('b') or 1, ex))
                continue
        m = LWORD.match(line, pos)
        if not m: raise Bad(f'cannot read {line[pos:]!r}')
        pos = m.end()
        if m.lastgroup == 'num': out.append(float(m.group('num')))
        elif m.lastgroup == 'name': out.append(m.group('name'))
        elif m.group('op') not in ('{', '}'): out.append({'\\left(': '(', '\\right)': ')'}.get(m.group('op'), m.group('op')))
    return out


def latex_blocks(out):
    r = []
    for part in out.split('\\begin{array}{llll}\n')[1:]:
        body, end = part.split('\\end{array}') if part.count('\\end{array}') == 1 else (None, None)
        if body is None: raise Bad('array not closed')
        lines = body.split('\\\\\n')
        m = re.fullmatch(r'~\\texttt\{([^}]*)\}(.*)~:=', lines[0])
        if not m: raise Bad(f'title {lines[0]!r}')
        steps = []
        for l in lines[1:]:
            n = re.fullmatch(r'(.*)& \\quad \\texttt\{([^}]*)\}', l)
            if not n: raise Bad(f'step {l!r}')
            steps.append((n.group(1).lstrip('~'), n.group(1), n.group(2)))
        r.append((m.group(1), m.group(2), steps))
    return r


def typeset(c, rng):
    """the typeset display denotes the same steps as the text display"""
    T = Truth(rng)
    x = T.x0 + rng.randint(3, 5)
    R = rule_table(rng, T, x)
    for rule in rng.sample(sorted(R), 8):
        F, name, kw, want = R[rule]
        F = list(F)
        if rng.random() < .4: F += neighbours(rng, T, F)
        rng.shuffle(F)
        c.note(i=T.i, x=x, q=T.q[:12], rule=rule, facts=F, query=name, kw=kw); c.dim(rule=rule)
        depth = 1 if name == 'e_x' else rng.choice([2, 3, 3])
        X, s = split(rng, x)
        st = rng.getstate()
        got = []
        try:
            for lx in (False, True):
                Recursion.blog_options(latex=lx)
                rng.setstate(st)
                life = Recursion(depth=depth, verbose=True).set_interest(i=T.i)
                for k, v, y, fkw in F: put(c, life, rng, T, (k, v, fkw), y)
                c.stats.events += 1
                got.append(listen(life, name, X, s, kw))
        finally: Recursion.blog_options(latex=False)
        (r, text), (r2, tex) = got
        c.log.append(f'{name}({X},s={s},{kw}) -> {r}\n{text}\n{tex}')
        c.true('typeset.harmless', r == r2 or (r is not None and r2 is not None and math.isclose(r, r2, rel_tol=1e-12)), f'{name} {kw}: {r} displayed in text, {r2} typeset')
        try: A, B = blocks(text), latex_blocks(tex)
        except Bad as e:
            c.true('typeset.readable', False, str(e)); continue
        if not c.same('typeset.traces', len(B), len(A)): continue
        for (title, lines), (label, what, steps) in zip(A, B):
            lab = max((l for l in LABEL if title.startswith(l + ' ')), key=len, default=None)
            c.same('typeset.label', label, lab)
            try:
                if lab and title[len(lab):].strip() not in ('0', '1') and '(u=' not in title:
                    c.same('typeset.title', latex_tokens(what), text_tokens(title[len(lab):]))
                want = [(text_tokens(l), r) for l, r in lines]
                if len({repr(w) for w, _ in want}) < len(want): continue       # told apart only in text
                have = [(latex_tokens('~' + l if not l.startswith('~') else l), r) for l, _, r in steps]
            except Bad as e:
                c.true('typeset.readable', False, str(e)); continue
            if not c.same('typeset.steps', len(have), len(want)): continue
            for (h, hr), (w, wr), (l, _) in zip(have, want, lines):
                c.true('typeset.step', h == w and hr == wr, lambda: f'{l!r} ({wr}) is typeset as {h} ({hr})')


GROUPS = [('lifetimes', lifetimes, 50, 1500), ('rules', rules, 300, 8000), ('facts', facts, 100, 3000), ('typeset', typeset, 150, 4000)]
REQUIRED = ['trace.equation.' + r for r in ('defer-mortality', 'limit-mortality', 'complement-survival', 'complement-of-mortality', 'survival-chain-rule', 'one-year-pure-endowment', 'annuity-recursion', 'insurance-recursion',
            'temporary-lifetime', 'forward-recursion', 'backward-recursion', 'moments-of-pure-endowment', 'pure-endowment', 'endowment-insurance-minus-term', 'pure-endowment-chain-rule', 'varying-insurance-identity',
            'term-plus-pure-endowment', 'endowment-insurance---pure', 'one-year-discrete-insurance', 'backward-deferred-annuity', 'forward-deferred-annuity', 'insurance-twin', 'annuity-twin', '1-year-curtate-shortcut')] + ['trace.title', 'trace.quiet']
