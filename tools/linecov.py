"""Which lines of the library the monitors' workloads execute: linecov.py [--scale F] [PNN ...]

Each property's groups are run (seed 1, quick tier, a fraction F of the cases) with a line monitor on the library's
source files; prints the executable lines that no workload reached. Not a check: it shows where workloads are thin."""
import importlib, multiprocessing as mp, os, sys, types
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(REPO, 'src')]
sys.setrecursionlimit(3000)
LIB = os.path.realpath(os.path.join(REPO, 'src', 'actuarialmath')) + os.sep


def run(a):
    prop, scale = a
    seen, mon = set(), sys.monitoring
    mon.use_tool_id(2, 'linecov')

    def line(code, n):
        f = os.path.realpath(code.co_filename)
        if f.startswith(LIB): seen.add((f[len(LIB):], n))
        return mon.DISABLE
    mon.register_callback(2, mon.events.LINE, line)
    mon.set_events(2, mon.events.LINE)
    from vmon.core import Stats, run_case
    mod = importlib.import_module(f'vmon.props.{prop.lower()}')
    st = Stats()
    for g, fn, q, t in mod.GROUPS:
        for i in range(max(1, int(q * getattr(mod, 'QUICK', 4) * scale))): run_case(fn, prop, g, i, 1, 'quick', st)
    mon.set_events(2, 0); mon.free_tool_id(2)
    return prop, seen


def executable(path):
    out = set()
    def walk(code):
        if code.co_name != '<module>' and not code.co_name[0].isupper(): out.update(n for _, _, n in code.co_lines() if n and n > code.co_firstlineno)
        for k in code.co_consts:
            if isinstance(k, types.CodeType): walk(k)
    walk(compile(open(path).read(), path, 'exec'))
    return out


if __name__ == '__main__':
    args = sys.argv[1:]
    scale = float(args.pop(args.index('--scale') + 1)) if '--scale' in args else .1
    props = [a for a in args if a[0] == 'P'] or [f'P{i:02d}' for i in range(1, 27)]
    total = set()
    with mp.get_context('spawn').Pool(int(os.environ.get('VERIF_JOBS', '8')), maxtasksperchild=1) as pool:
        for prop, seen in pool.imap_unordered(run, [(p, scale) for p in props]):
            print(prop, len(seen), 'lines', flush=True); total |= seen
    for f in sorted(os.listdir(LIB)):
        if not f.endswith('.py'): continue
        src = open(LIB + f).read().split('\n')
        main = next((i for i, l in enumerate(src, 1) if '__main__' in l), len(src) + 1)
        ex = {n for n in executable(LIB + f) if n < main and '"""' not in src[n - 1]}
        miss = sorted(n for n in ex if (f, n) not in total)
        print(f'{f}: {len(ex) - len(miss)} of {len(ex)} executable lines reached')
        for n in miss: print(f'    {n}: {src[n - 1].strip()}')
