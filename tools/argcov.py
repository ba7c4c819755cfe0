"""Which argument values the monitors' workloads pass: argcov.py [--scale F] [PNN ...]

Each property's groups are run (seed 1, quick tier, a fraction F of the cases) while every call of a library function is
recorded; prints, per function and parameter, the range and the number of distinct values seen from the workloads. Not a
check: it shows which inputs workloads leave out."""
import importlib, inspect, multiprocessing as mp, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(REPO, 'src')]
sys.setrecursionlimit(3000)
LIB = os.path.realpath(os.path.join(REPO, 'src', 'actuarialmath')) + os.sep


def run(a):
    prop, scale = a
    seen, codes = {}, {}

    def prof(frame, event, arg):
        if event != 'call': return
        co = frame.f_code
        ok = codes.get(co)
        if ok is None:
            f = os.path.realpath(co.co_filename)
            ok = codes[co] = (f[len(LIB):], co.co_qualname, co.co_varnames[:co.co_argcount + co.co_kwonlyargcount]) if f.startswith(LIB) and co.co_name[0] not in '<' and '<locals>' not in co.co_qualname else ()
        if not ok: return
        loc = frame.f_locals
        for n in ok[2]:
            if n == 'self' or n not in loc: continue
            v = loc[n]
            if hasattr(v, 'item') and getattr(v, 'ndim', 1) == 0: v = v.item()
            k = v if isinstance(v, (bool, int, float, str, type(None))) else '<' + type(v).__name__ + '>'
            if isinstance(k, float): k = float('%.2g' % k)
            d = seen.setdefault((ok[0], ok[1], n), {})
            if len(d) < 400 or k in d: d[(type(k).__name__, k)] = d.get((type(k).__name__, k), 0) + 1
    from vmon.core import Stats, run_case
    mod = importlib.import_module(f'vmon.props.{prop.lower()}')
    st = Stats()
    sys.setprofile(prof)
    for g, fn, q, t in mod.GROUPS:
        for i in range(max(1, int(q * getattr(mod, 'QUICK', 4) * scale))): run_case(fn, prop, g, i, 1, 'quick', st)
    sys.setprofile(None)
    return prop, seen


if __name__ == '__main__':
    args = sys.argv[1:]
    scale = float(args.pop(args.index('--scale') + 1)) if '--scale' in args else .05
    props = [a for a in args if a[0] == 'P'] or [f'P{i:02d}' for i in range(1, 27)]
    total = {}
    with mp.get_context('spawn').Pool(int(os.environ.get('VERIF_JOBS', '8')), maxtasksperchild=1) as pool:
        for prop, seen in pool.imap_unordered(run, [(p, scale) for p in props]):
            print(prop, len(seen), file=sys.stderr, flush=True)
            for k, d in seen.items():
                for v, n in d.items(): total.setdefault(k, {}); total[k][v] = total[k].get(v, 0) + n
    last = None
    for (f, q, n), d in sorted(total.items()):
        if (f, q) != last: print(f'{f} {q}'); last = f, q
        num = sorted(v for ty, v in d if ty in ('int', 'float'))
        ints = sorted(v for ty, v in d if ty == 'int')
        oth = sorted(str(v) for ty, v in d if ty not in ('int', 'float'))
        s = (f'{len(num)} numbers in [{num[0]}, {num[-1]}]' if len(num) > 12 else ', '.join(map(str, num))) if num else ''
        if len(ints) > 12: s += f' (ints {ints[0]}..{ints[-1]})'
        print(f'    {n}: {s} {" ".join(oth[:8])}')
