"""Writes /verif/DESIGN.md: the hand-written parts below plus the rules, assumptions, bounds and budgets held by the monitors themselves."""
import importlib, json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src'))
sys.dont_write_bytecode = True

HEAD = r'''# Runtime monitoring of actuarialmath

(Generated by `tools/design.py`; the prose is kept there, the workload rules, budgets and assumptions are read from the monitors in `vmon/props/`.)

## 1. What is there to monitor

`actuarialmath` is a pure-Python library: about twenty classes that turn a mortality basis and an interest assumption into
probabilities, expected present values, premiums, reserves, percentiles, plots and displayed recursion steps. It has no threads,
no native code, no persistence, no network and no process boundary. Compiler sanitizers, race detectors, undefined-behaviour
interpreters, linearizability checkers and crash injection therefore have nothing to observe, and none is used. What the family
offers for such a library, and what every one of the 26 checks does, is:

1. run the real, unmodified code of `/repo/src` (no hooks are needed: every guarantee is visible at the public boundary; `hooks` in MANIFEST.json is empty);
2. under randomly generated workloads - models x contracts x parameters x call histories, with hostile corners drawn on purpose;
3. while a monitor records every call (operation, arguments, outcome) and an **oracle that knows nothing about the library's code** decides each observed outcome.

Four kinds of oracle are used.

* **Reference model** (`vmon/ref.py`): laws in closed form, year-by-year (or period-by-period) enumeration of deaths, Gauss-Legendre quadrature, written from the definitions, never calling the library.
* **Ground truth by construction**: the workload invents a true mortality table, reveals some true facts, and anything the library deduces (table fill, select-table fill, recursion solver, displayed recursion steps, reserve schedules) must be true in that table. Which facts *must* be deduced is decided by an independently computed closure under the documented identities.
* **Relational**: several observed answers of the same model must fit together (consecutive periods add up, empty periods are worth nothing, inverse maps, twin products, premium equivalence), no reference value involved.
* **History**: the same question put to a fresh object in a fresh process, re-execution of the same history, faults injected into user-supplied callbacks at a chosen call, argument objects compared before and after.

Verdicts are three-valued. *Violated*: exit 1, `VIOLATION property=.. replay=..`, the replay file holds group, index, seed and the complete call log (`./check P07 --replay FILE` re-executes it).
*Held*: exit 0. *Inconclusive*: exit 3 when a declared monitor was never reached (each module may list `REQUIRED` monitors; each workload group must have decided something). Harness failures exit 2.
A case gets a CPU budget of 150 s, the launcher 880 s of wall time.

The evidence files record what was observed: cases, distinct non-trivial scenarios, library calls, oracle decisions per monitor, workload dimensions (model kinds, products, discrete/continuous, ...), samples of scenarios with their events.

### Workload generators (`vmon/gens.py`)

A *model* is drawn from: user-specified survival in any of the four forms (`S`, `f`, `l`, `mu`; with and without selection effect), Makeham, Gompertz, Beta, Uniform, ConstantForce,
life tables entered by `l`, `q`, `p` or `d` (UDD or constant force between ages, any start age), the standard ultimate table with changed parameters, select tables, and truncated tables
whose last age leaves survivors ("cut"; queries there are restricted to what the table determines). Each carries its reference twin. Interest is drawn in any supported form
including zero and tiny rates. Ages include the first and last, durations since selection 0..beyond the select period, terms nothing, one, to the end exactly, and beyond; amounts differ from 1 almost always
(an amount of 1 hides missing or doubled multiplications, and its square).

### Tolerances

Closed-form or enumerated values: 1e-9..1e-7 relative. Values that the library itself obtains by numerical quadrature or differentiation: 1e-5..5e-4 relative, stated per property. Tables keep
seven decimals of derived cells: compared within the error this induces. Discrete percentiles are decided away from ties. All tolerances were chosen from the numerical method used, then verified by running many seeds on the repaired tree.

### Cost

Quick tier: 5 to 55 s per property on 8 cores (all 26: about 9 minutes one after another). Thorough tier: 1 to 12 minutes per property; same monitors, ten to twenty times the cases. Every case is reproducible from (seed, property, group, index); `VERIF_SEED` changes all of them.
'''

# per property: what decides it, and why tests cannot
ORACLE = {
'P01': ('One effective rate is drawn; every form the library reports, every conversion and every annuity-certain is recomputed from that rate (direct sums, quadrature).',
        'The tests convert two or three rates; a slip that needs a particular frequency, timing and a zero or tiny rate together is never sampled.'),
'P02': ('The named distribution is enumerated outcome by outcome, or evaluated through `math.erfc`; percentile/cdf pairs are also checked as inverses.',
        'Tests use one textbook number per helper; sign errors cancel for special weights.'),
'P03': ('A law with closed-form S, f, mu, l is given in one form; all other forms are compared with the law; the chain rule, deaths = differences, sum of deferred deaths are relational.',
        'Selection effects (x and s entering separately) are absent from nearly all tests.'),
'P04': ('Sums/integrals of the reference survival for every model kind.', 'Tests check default limits and first moments; duration since selection, limits between integers and second moments are quantified here.'),
'P05': ('Exact interpolation formulas (UDD, constant force) at every fractional start and duration crossing any number of birthdays; years in which almost everybody or nobody dies (`heavy`).', 'Tests sit at r = 0.5 within a year.'),
'P06': ('Enumeration of the year of death (discrete) or quadrature of mu*S*v^t (continuous): first and second moments, variance, any benefit function, endowment, deferral, discount function.', 'Amount 1, s = 0 and unlimited terms in the tests hide missing factors.'),
'P07': ('Payment-by-payment enumeration; variance from the enumerated distribution of the present value.', 'As P06; zero interest has separate code paths which tests do not enter.'),
'P08': ('The defining force of mortality in closed form, and a generic library model given only that law (twin): shortcut and generic path must agree.', 'Shortcuts override generic methods one by one, so each pair (method, law) is its own code path.'),
'P09': ('Quantiles of the reference law; monotone direction; maps composed with each other; yearly contributions summed.', 'Percentiles depend on ties and on direction of the variable; tests have one each.'),
'P10': ('Equivalence: reference value of benefits, expenses, refunds minus reference value of premiums is zero at the premium returned.', 'Combinations of deferral, premium term, endowment, refund and expense kinds.'),
'P11': ('Remaining cash flows valued prospectively; losses by time of death recomputed; variances from the distribution; contracts and their renewals compared term by term; full preliminary term values, discrete and continuous.', 'Durations, settlement and initial/renewal expenses interact.'),
'P12': ('Prospective reserves of the truth; every recursion step, schedule fill from random subsets, interim values, modified (full preliminary term) reserves must land on them.', 'A schedule can be filled forwards and backwards from any subset; tests fill one way.'),
'P13': ('Ground truth by construction; independent closure decides which cells must be filled; inputs must be preserved; histories of several calls; lives, deaths and forces to the digits kept, for radixes up to a thousand million and near-certain deaths.', 'Quantifies over all subsets of cells and histories of calls.'),
'P14': ('As P13 for select and ultimate tables with all columns; plus queries against the truth; tables whose lives run out and tables with years without deaths; select periods up to nine years and up to fifty rows; unsupported requests must be refused.', 'As P13; diagonal links between select rows and the ultimate column make order matter.'),
'P15': ('Truth by construction: any value returned must be true; for the facts of one documented rule an answer is required; lifetimes are solved from values over many terms at once (`lifetimes`).', 'The solver combines rules by depth-first search: the set of derivations is unbounded, tests walk ten.'),
'P16': ('Explicit sums over m-thly periods of the reference survival; quadrature when continuous.', 'Frequency x fractional-age assumption x deferral.'),
'P17': ('Defining formulas (alpha, beta, gamma; Woolhouse two and three terms) applied to independently summed annual values; exactness when deaths are uniform.', 'As P16.'),
'P18': ('The adjustment recomputed on reference rates; stacks of overlays; tables built from adjusted columns queried again.', 'Tests adjust one rate at one age.'),
'P19': ('History oracle: each answer of an interleaved history equals the answer in a fresh forked process on a newly built model; replays are identical; arguments unchanged.', 'Purity is a statement about all histories.'),
'P20': ('The Makeham law itself summed; published table as anchor.', 'Default parameters only in tests.'),
'P21': ('Functions with known integral, derivative, root or minimum; every evaluation of the callback is recorded and must lie in range.', 'Numerical helpers fail on shapes and scales that tests do not use.'),
'P22': ('The drawn artists are read back from the axes (bars, lines, markers, labels) and compared with what they claim to show.', 'Tests of plots check that they run.'),
'P23': ('The displayed text is parsed, each equation evaluated on both sides in the generating model.', 'Tests do not read the display.'),
'P24': ('Three ways of asking (defaults written out, omitted in any order, positional) must have the same outcome; reference is the published signature.', 'Tests omit arguments where the default does not matter.'),
'P25': ('Requests outside the domain must be refused; failures injected at a random callback invocation must surface; afterwards the model answers as an untouched twin.', 'Fault position and later questions are quantified over.'),
'P26': ('Relational identities among answers of the same model, over thirteen model classes.', 'Needs no reference, so it covers every class at once, including combinations where no reference exists.'),
}

TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()

def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    out = [HEAD, '\n## 2. Properties\n']
    for p in props:
        i = p['id']
        m = importlib.import_module(f'vmon.props.{i.lower()}')
        q, th = getattr(m, 'QUICK', 4), getattr(m, 'THOROUGH', 1)
        out.append(f"### {i} {p['title']}\n")
        out.append(f'*Oracle.* {ORACLE[i][0]}\n')
        out.append(f'*Workload.* {m.RULE}\n')
        out.append('*Bounds (cases quick / thorough).* ' + ', '.join(f'{g} {n * q}/{t * th}' for g, _, n, t in m.GROUPS) + '.\n')
        if getattr(m, 'ASSUMPTIONS', None):
            out.append('*Domain and assumptions.* ' + '; '.join(m.ASSUMPTIONS) + '.\n')
        out.append(f'*Why tests cannot settle it.* {ORACLE[i][1]}\n')
    out.append('Every property is decided by this family; `not_applicable` is empty.\n')
    out.append('\n## 3. Planted changes\n\n' + open(os.path.join(HERE, 'tools', 'design_planted.md')).read())
    rows = []
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        j = json.load(open(d)); rows.append((j['property'], os.path.basename(os.path.dirname(d)), j['what_it_breaks'].replace('|', '/'), j.get('caught', 'yes')))
    if rows:
        out.append('| change | property / caught by | what it breaks |\n|---|---|---|')
        out += [f'| {n} | {p} | {w} |' for p, n, w, c in sorted(rows)]
    out.append('\n' + TAIL)
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))

main()
