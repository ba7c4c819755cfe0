"""Entry point: run.py <property-id> [--tier quick|thorough] [--seed N] [--replay FILE] [--group G] [--scale F]"""
import argparse, importlib, json, multiprocessing as mp, os, sys, time, glob, pickle, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.setrecursionlimit(3000)

from vmon import core
from vmon.core import Stats, run_case

EXIT_INCONCLUSIVE = 3


def shard(args):
    prop, groups, seed, tier, k, n, only = args
    st = Stats()
    for (g, fn, cnt) in groups:
        if only and g != only:
            continue
        base = len(st.violations)
        for i in range(k, cnt, n):
            if len(st.violations) > base + 40 or st.stuck:
                break
            run_case(fn, prop, g, i, seed, tier, st)
    return st


def _child(a, conn):
    try:
        conn.send(('ok', shard(a)))
    except BaseException:
        conn.send(('err', traceback.format_exc()))
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--group')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VERIF_SCALE', '1')))
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    mod = importlib.import_module(f'vmon.props.{prop.lower()}')
    import actuarialmath
    assert os.path.realpath(actuarialmath.__file__).startswith(os.path.realpath(REPO) + os.sep), actuarialmath.__file__
    groups = [(g, fn, max(1, int((q * getattr(mod, 'QUICK', 4) if a.tier == 'quick' else t * getattr(mod, 'THOROUGH', 1)) * a.scale))) for (g, fn, q, t) in mod.GROUPS]

    if a.replay:
        r = json.load(open(a.replay))
        fn = dict((g, f) for g, f, _ in groups)[r['group']]
        st = Stats()
        c = run_case(fn, prop, r['group'], r['idx'], r['seed'], r['tier'], st)
        print('\n'.join(c.log))
        for v in st.violations:
            print(v['key'], v['msg'])
            if v.get('tb'):
                print(v['tb'])
        sys.exit(1 if st.violations else 0)

    n = max(1, a.j)
    st = Stats()
    procs = []
    for k in range(n):
        p_, c_ = mp.Pipe(False)
        p = mp.Process(target=_child, args=((prop, groups, a.seed, a.tier, k, n, a.group), c_))
        p.start(); c_.close()
        procs.append((p, p_))
    failed = []
    for p, conn in procs:
        try:
            kind, res = conn.recv()
        except EOFError:
            kind, res = 'err', 'shard died'
        p.join()
        if kind == 'ok':
            st.merge(res)
        else:
            failed.append(res)

    known = core.load_known()
    new, seen_known = {}, {}
    for v in sorted(st.violations, key=lambda v: (v['group'], v['idx'])):
        k = core.is_known(v, prop, known)
        if k:
            seen_known.setdefault(k['key'], (k, v))
        else:
            new.setdefault(v['key'], []).append(v)
    # every listed finding is announced (observed ones were produced by this run's executions)
    for k in known:
        if k['property'] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    missing = [g for (g, _, _) in groups if not st.groups[g]] if not a.group else []
    missing += [k for k in getattr(mod, 'REQUIRED', []) if not st.keys[k]] if not a.group else []

    os.makedirs(os.path.join(core.VERIF, 'evidence', 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(core.VERIF, 'evidence', 'replay', f'{prop}-*.json')):
        os.remove(f)
    lines = []
    for j, (key, vs) in enumerate(new.items()):
        path = os.path.join(core.VERIF, 'evidence', 'replay', f'{prop}-{j}.json')
        v = dict(vs[0]); v['property'] = prop; v['occurrences'] = len(vs)
        json.dump(v, open(path, 'w'), indent=1, default=str)
        lines.append((key, len(vs), v, path))

    wall = time.time() - t0
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed, level='exploration',
              coverage=dict(evaluations=st.evals, distinct_nontrivial=len(st.distinct), rule=mod.RULE,
                            samples=st.samples[:12], library_calls_observed=st.events, oracle_decisions=st.checks,
                            cases_out_of_domain=st.skipped, decisions_per_monitor=dict(sorted(st.keys.items())),
                            cases_per_workload=dict(st.groups),
                            slowest_case_cpu_s=st.slowest, workload_diversity={k: dict(c.most_common(40)) for k, c in st.dims.items()},
                            monitors_never_reached=missing,
                            known_findings_observed=sorted(seen_known)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(new))
    json.dump(ev, open(os.path.join(core.VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)

    print(f'{prop} tier={a.tier} seed={a.seed}: {st.evals} cases, {len(st.distinct)} distinct, {st.events} library calls, '
          f'{st.checks} decisions over {len(st.keys)} monitors, {st.skipped} skipped, {wall:.1f}s')
    for key, cnt, v, path in lines:
        print(f"  [{key}] x{cnt} group={v['group']} idx={v['idx']} {v['scenario']}\n      {v['msg']}")
        if a.v and v.get('tb'):
            print(v['tb'])
    if lines:
        for key, cnt, v, path in lines:
            print(f'VIOLATION property={prop} replay={path}')
        sys.exit(1)
    if failed:
        print('ERROR: harness failure\n' + failed[0])
        sys.exit(2)
    if missing or not st.checks:
        print('INCONCLUSIVE: monitors never reached:', missing)
        sys.exit(EXIT_INCONCLUSIVE)
    print('held on everything observed')
    sys.exit(0)


if __name__ == '__main__':
    main()
