"""Monitor plumbing: monitored calls, verdicts, known findings, evidence.

A *case* is one randomly generated execution of the real library. Inside a case
every call on the library goes through Case.call(), which appends an event
(operation, arguments, outcome) to the case's log; the oracle functions
close()/true()/... then decide on observed outcomes. Verdicts are three-valued:
violated (with log and replay seed), held, inconclusive (deciding monitor never reached).
"""
import collections, hashlib, io, contextlib, json, math, os, random, re, signal, sys, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT_S = 150        # CPU seconds that one case may burn (normal: milliseconds)


class Abort(Exception):
    """the current case cannot continue (a violation was already recorded)"""


class CpuBudget(BaseException):
    pass


class Skip(Exception):
    """the generated case lies outside the property's domain"""


def short(v, n=300):
    try:
        if callable(v) and not isinstance(v, type):
            r = getattr(v, '__name__', 'callable')
            return f'<{r}>'
        r = repr(v)
    except Exception as e:                       # repr of library object failed
        r = f'<unrepresentable {type(v).__name__}: {e}>'
    return r if len(r) <= n else r[:n] + '...'


class Stats:
    """what was observed; mergeable between shards"""

    def __init__(self):
        self.evals = 0            # cases
        self.events = 0           # monitored library calls
        self.checks = 0           # oracle decisions
        self.skipped = 0
        self.keys = collections.Counter()     # oracle decisions per mechanism key
        self.distinct = set()
        self.samples = []
        self.violations = []      # dicts
        self.groups = collections.Counter()
        self.slowest = 0.         # CPU seconds of the slowest case
        self.stuck = False        # a case ran out of its CPU budget
        self.dims = collections.defaultdict(collections.Counter)   # workload diversity

    def merge(self, o):
        self.evals += o.evals; self.events += o.events; self.checks += o.checks
        self.skipped += o.skipped; self.slowest = max(self.slowest, o.slowest)
        self.keys.update(o.keys); self.distinct |= o.distinct
        self.samples += o.samples[:3]
        self.violations += o.violations
        self.groups.update(o.groups)
        for k, c in o.dims.items():
            self.dims[k].update(c)


class Case:
    def __init__(self, prop, group, idx, seed, tier, stats):
        self.prop, self.group, self.idx, self.seed, self.tier = prop, group, idx, seed, tier
        self.rng = random.Random(f'{seed}|{prop}|{group}|{idx}')
        self.stats = stats
        self.log = []
        self.desc = {}
        self.nviol = 0
        self.ndecided = 0

    # -- workload description ------------------------------------------------
    def note(self, **kw):
        """describe the generated scenario (for evidence, replay, diversity counts)"""
        self.desc.update(kw)

    def dim(self, **kw):
        for k, v in kw.items():
            self.stats.dims[k][str(v)] += 1

    # -- events --------------------------------------------------------------
    def call(self, key, fn, *a, **k):
        """monitored library call: an exception on a valid input is a violation"""
        self.stats.events += 1
        ev = f"{key}: {getattr(fn, '__qualname__', getattr(fn, '__name__', fn))}({', '.join([short(v,80) for v in a] + [f'{n}={short(v,80)}' for n, v in k.items()])})"
        try:
            r = fn(*a, **k)
        except (Skip, Abort, CpuBudget, KeyboardInterrupt):
            raise
        except BaseException as e:
            self.log.append(ev + f' !! {type(e).__name__}: {short(str(e),200)}')
            self.violate(key, f'raised {type(e).__name__}: {short(str(e),200)} in {ev}',
                         tb=traceback.format_exc(limit=-6))
            raise Abort()
        self.log.append(ev + ' -> ' + short(r, 120))
        if len(self.log) > 400:
            del self.log[:100]
        return r

    def value(self, key, want, fn, *a, rel=1e-8, abs=1e-9, **k):
        """monitored call whose result must equal the reference value"""
        try:
            got = self.call(key, fn, *a, **k)
        except Abort:
            self.decided(key)
            return None
        self.close(key, got, want, rel=rel, abs=abs)
        return got

    def raises(self, key, fn, *a, **k):
        """monitored call which must be rejected"""
        self.stats.events += 1
        self.decided(key)
        try:
            r = fn(*a, **k)
        except (AssertionError, Exception) as e:
            self.log.append(f'{key}: rejected with {type(e).__name__}')
            return True
        self.violate(key, f'accepted: {short(r)} for {short(a)} {short(k)}')
        return False

    # -- oracle --------------------------------------------------------------
    def decided(self, key):
        self.stats.checks += 1
        self.ndecided += 1
        self.stats.keys[key] += 1

    def close(self, key, got, want, rel=1e-8, abs=1e-9, what=''):
        self.decided(key)
        ok = False
        try:
            g, w = float(got), float(want)
            if math.isnan(w):
                raise Skip('reference is nan: ' + key)
            ok = g == w or math.isclose(g, w, rel_tol=rel, abs_tol=abs)
        except Skip:
            raise
        except Exception as e:
            got = f'{short(got)} ({type(e).__name__}: {e})'
        if not ok:
            self.violate(key, f'observed {short(got)} but reference says {short(want)} {what}')
        return ok

    def true(self, key, cond, what=''):
        self.decided(key)
        if not cond:
            self.violate(key, what() if callable(what) else str(what))
        return bool(cond)

    def same(self, key, got, want, what=''):
        return self.true(key, got == want, lambda: f'observed {short(got)} expected {short(want)} {what}')

    def violate(self, key, msg, tb=None):
        self.nviol += 1
        if self.nviol > 8:
            return
        self.stats.violations.append(dict(
            key=key, msg=msg, group=self.group, idx=self.idx, seed=self.seed, tier=self.tier,
            scenario={k: short(v, 400) for k, v in self.desc.items()}, log=self.log[-40:], tb=tb))


def _alarm(signum, frame):
    raise CpuBudget()


def run_case(fn, prop, group, idx, seed, tier, stats):
    c = Case(prop, group, idx, seed, tier, stats)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S, 5)   # again every 5 s: code under test may swallow the first
    cpu0 = time.process_time()
    skipped = False
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            fn(c, c.rng)
    except Skip:
        skipped = True
    except Abort:
        pass
    except CpuBudget:
        stats.stuck = True                                   # its shard stops here: what hangs once hangs again
        c.violate(f'{group}.no-progress', f'case did not finish within {CPU_LIMIT_S} CPU seconds (normally milliseconds)')
    except Exception as e:
        if not (c.log or c.desc):
            raise                                    # nothing of the library was observed yet: a fault of the harness
        # what the library returned does not have the form (type, shape, index) that the interface promises, so
        # that the oracle could not even read it; never seen on the unchanged tree
        c.decided(f'{group}.unexpected-result')
        c.violate(f'{group}.unexpected-result', f'observed output could not be interpreted: {type(e).__name__}: {short(str(e),200)}',
                  tb=traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        stats.slowest = max(stats.slowest, round(time.process_time() - cpu0, 2))
    if skipped and not c.ndecided:
        stats.skipped += 1
        return c
    stats.evals += 1
    stats.groups[group] += 1
    if c.ndecided:
        h = hashlib.sha1(json.dumps([group, {k: short(v, 400) for k, v in c.desc.items()}],
                                    sort_keys=True, default=str).encode()).hexdigest()[:16]
        stats.distinct.add(h)
        if len(stats.samples) < 3 or (idx < 2 and len(stats.samples) < 24):
            stats.samples.append(dict(group=group, idx=idx, scenario={k: short(v, 200) for k, v in c.desc.items()},
                                      events=c.log[:4], decided=c.ndecided))
    return c


# -- known findings -----------------------------------------------------------
def load_known():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\w+) key=(\S+) (.*)', ln.strip())
            if m:
                out.append(dict(property=m[1], key=m[2], what=m[3]))
    return out


def is_known(v, prop, known):
    for k in known:
        if k['property'] == prop and v['key'] == k['key']:
            return k
    return None
