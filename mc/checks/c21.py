"""C21: the run scripts of LAYLA give every laminate to the optimiser once and
report what came back."""
import contextlib
import io
import itertools
import math
import os
import runpy
import numpy as np
from mc import ref, core
from mc.core import FnComponent
from mc.checks import c19

ASSUMPTIONS = [
    'the optimiser is replaced by one that answers with given designs (what '
    'the real one answers is C20)',
    'populations of laminates with the columns the scripts read; stiffnesses '
    'that are exactly zero or clearly not',
    'the designs of the script for the published table comply with its rules',
]
SCRIPTS = os.path.join('src', 'LAYLA_V02', 'scripts')
POPULATION = ['run_LAYLA_V02_SSpop.py', 'run_LAYLA_vs_BBK.py']
PAIRS = {'11': (0, 0), '22': (1, 1), '12': (0, 1), '66': (2, 2),
         '16': (0, 2), '26': (1, 2)}
STACKS = [[45, 0, 0, -45], [0, 45, 90, 90, 45, 0], [0]*5,
          [45, 90, -45, -45, 0, 45, 0], [-45, 0, 90, 45],
          [90, 0, 0, 90], [45, -45, 90, 0, 0, 90, -45, 45], [90, 45]]


def lp(ss):
    return np.array([round(float(v), 12) + 0. for v in ref.lampam(list(ss))])


def stiffnesses(values, mat):
    "name -> value; what is zero but for rounding is zero"
    from src.CLA import ABD
    out = {}
    for letter in 'ABD':
        m = getattr(ABD, letter + '_from_lampam')(np.array(values, float), mat)
        top = np.abs(m).max()
        for name, at in PAIRS.items():
            out[letter + name] = 0. if abs(m[at]) <= 1e-10*mat.E11 \
                else float(m[at])
    return out


def answer(kind, parameters, targets, base=None):
    "the result of an optimisation; kind 0: no design"
    from src.LAYLA_V02.results import LAYLA_Results
    out = LAYLA_Results(parameters, targets)
    if not kind:
        return out
    n, steps = int(targets.n_plies), parameters.n_outer_step
    cycle, objectives = {
        1: ([45, 0, -45, 90], [.5, .75, .625]),
        2: ([0, 0, 45, 90, 90], [.25, .125]),
        3: ([90, 0, 90], [.0625]),
        4: ([-45, -45, 0, 90, 45, 0], [.9, .5, .3, .2, .3])}[min(kind, 4)]
    ss = np.array(base if base is not None else (cycle*n)[:n], int)
    objectives = objectives[:steps]
    done = len(objectives)
    out.obj_tab[:done] = objectives
    best = int(np.nanargmin(out.obj_tab))
    for i in range(done):
        out.ss_tab[i] = np.roll(ss, i + 1)
        out.lampam_tab_tab[i] = lp(out.ss_tab[i])
        out.n_designs_last_level_tab[i] = 10*kind + i
        out.n_designs_repaired_tab[i] = 20*kind + i
        out.n_designs_repaired_unique_tab[i] = 30*kind + i
    out.ss_tab[best] = ss
    out.lampam_tab_tab[best] = lp(ss)
    out.ss = out.ss_best = out.ss_tab[best]
    out.lampam = out.lampam_best = out.lampam_tab_tab[best]
    out.objective = out.obj_tab[best]
    out.number_of_outer_steps_performed = done
    out.n_outer_step_best_solution = best + 1
    out.completed = True
    return out


@contextlib.contextmanager
def driven(reply, data=None):
    """LAYLA_optimiser answers with `reply(number of the run, parameters,
    constraints, targets)`, pandas reads `data` from every file"""
    import inspect
    import pandas as pd
    from src.LAYLA_V02 import optimiser
    old = pd.read_excel, optimiser.LAYLA_optimiser
    sig = inspect.signature(old[1])
    runs, reads = [], []

    def run(*a, **k):
        got = sig.bind(*a, **k).arguments
        out = reply(len(runs), got['parameters'], got['constraints'],
                    got['targets'])
        runs.append((got, out, np.array(got['targets'].lampam, float).copy(),
                     int(got['targets'].n_plies)))
        return out

    def read(path, *a, **k):
        reads.append((str(path), a, k))
        return data.copy()
    optimiser.LAYLA_optimiser = run
    if data is not None:
        pd.read_excel = read
    try:
        yield runs, reads
    finally:
        pd.read_excel, optimiser.LAYLA_optimiser = old


def script(ctx, name):
    return ctx.attempt(runpy.run_path,
                       os.path.join(core.REPO, SCRIPTS, name))


def rows_of(cs):
    "the rows of a sheet below its header, as dictionaries"
    head = {c: v for (r, c), v in cs.items() if r == 1}
    last = max([r for r, _ in cs], default=1)
    return [{name: cs.get((r, c)) for c, name in head.items()}
            for r in range(2, last + 1)], set(head.values())


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def agree(x, v):
    if v is None or isinstance(v, float) and math.isnan(v):
        return x is None
    if isinstance(v, str):
        return x == v
    return number(x) and abs(x - float(v)) <= 1e-8*(1 + abs(float(v)))


def compare(ctx, rule, what, row, want):
    bad = {k: (row.get(k, 'no column'), v) for k, v in want.items()
           if k not in row or not agree(row[k], v)}
    ctx.require(not bad, rule, f'{what}: {bad}')


def expected(run, mat, ss_target, counts, stiff):
    "what the row of a laminate shows (apart from the time)"
    given, res, target, n = run
    par, cons = given['parameters'], given['constraints']
    steps = par.n_outer_step
    want = {'Ply count': n, 'ss target': ss_target,
            'target inhomogeneity factor': math.sqrt(sum(
                (target[k] - target[8 + k])**2 for k in range(4)))}
    for k in range(12):
        want[f'lampam_target[{k + 1}]'] = target[k]
    done = res.completed
    none = float('nan')

    def put(name, value):
        want[name] = value() if done else none
    put('best outer loop', lambda: res.n_outer_step_best_solution)
    put('n_outer_step_performed', lambda: res.number_of_outer_steps_performed)
    dev = np.abs(res.lampam - target) if done else None
    put('objective with initial lamination parameter weightings',
        lambda: sum(par.lampam_weightings_ini*dev**par.type_obj_func))
    put('objective with modified lamination parameter weightings',
        lambda: res.objective)
    for k in range(steps):
        put(f'objective iteration {k + 1}', lambda: float(res.obj_tab[k]))
        for key, tab in (('last_level', res.n_designs_last_level_tab),
                         ('repaired', res.n_designs_repaired_tab),
                         ('repaired_unique',
                          res.n_designs_repaired_unique_tab)):
            put(f'n_designs_{key} {k + 1}', lambda: float(tab[k]))
    for k in range(12):
        put('error1 = abs(lampam_target[1]-lampam[1])' if not k
            else f'error{k + 1}', lambda: dev[k])
    text = lambda ss: ' '.join(str(int(a)) for a in ss)
    put('ss retrieved at step 1', lambda: text(res.ss_tab[0]))
    put('ss retrieved', lambda: text(res.ss))
    if counts is not None:
        for name, a in (('N0', 0), ('N90', 90), ('N45', 45), ('N-45', -45)):
            want[name + '_target'] = counts[a]
            put(f'{name} - {name}_target',
                lambda: int(np.sum(res.ss == a)) - counts[a])
        pct = {0: 100*cons.percent_0, 45: 100*cons.percent_45,
               90: 100*cons.percent_90, -45: 100*cons.percent_135,
               '45': 100*cons.percent_45_135}
        pct = {k: round(v) for k, v in pct.items()}
        put('penalty value for the 10% rule', lambda: float(
            ref.ten_penalty(ref.counts_of(list(map(int, res.ss))), n, pct)))
    now = stiffnesses(res.lampam, mat) if done else None
    for name, v in stiff.items():
        put(f'diff {name} percentage',
            lambda: abs((now[name] - v)/v) if v else none)
    if done:
        for k, v in enumerate(orthotropy(res.lampam, mat, cons.sym)):
            want[f'In-plane orthotropy parameter {k + 1}'] = v
    else:
        for k in range(12):
            want[f'In-plane orthotropy parameter {k + 1}'] = none
    return want


def orthotropy(values, mat, sym):
    "the twelve parameters, from the stiffness and the compliance matrices"
    from src.CLA import ABD
    full = [getattr(ABD, k + '_from_lampam')(np.array(values, float), mat)
            for k in 'ABD']
    a = full[0]
    if sym:
        b = np.linalg.inv(a)
    else:
        b = np.linalg.inv(a - full[1]@np.linalg.inv(full[2])@full[1])
    out = []
    for m in (a, b):
        out += [m[0, 2]/m[0, 0], m[0, 2]/m[0, 1], m[0, 2]/m[2, 2],
                m[1, 2]/m[0, 1], m[1, 2]/m[1, 1], m[1, 2]/m[2, 2]]
    return [abs(v) for v in out]


def set_up(ctx, what, got, run):
    "the sheets of the set-up are those of the objects given to the optimiser"
    from src.LAYLA_V02 import save_set_up as ssu
    given = run[0]
    path = 'mc-set-up.xlsx'
    ssu.save_constraints_LAYLA(path, given['constraints'])
    ssu.save_parameters_LAYLA_V02(path, given['parameters'])
    ssu.save_materials(path, given['mat_prop'])
    want, _ = c19.cells(path)
    os.remove(path)
    for name in ('Constraints', 'Parameters', 'Materials'):
        ctx.require(got.get(name) == want[name], 'set-up-saved',
                    f'{what}: sheet {name}')


def file_of(ctx, what, exc):
    made = [f for f in os.listdir('.') if f.endswith('.xlsx')]
    if not ctx.require(exc is None and len(made) == 1, 'script-runs',
                       f'{what}: {exc!r}, files {made}'):
        return None, None
    return made[0], c19.cells(made[0])[0]


# ------------------------------------------------------------- populations
def population(picks):
    import pandas as pd
    from src.LAYLA_V02.materials import Material
    mat = Material(E11=150e9, E22=8e9, nu12=.28, G12=5e9)
    rows = []
    for t, _ in picks:
        ss = STACKS[t]
        row = {'ply_counts': len(ss), 'ss': ' '.join(map(str, ss)),
               'N0': ss.count(0), 'N90': ss.count(90), 'N45': ss.count(45),
               'N-45': ss.count(-45)}
        for k, v in enumerate(lp(ss)):
            row[f'lampam[{k + 1}]'] = v
        row.update(stiffnesses(lp(ss), mat))
        rows.append(row)
    return pd.DataFrame(rows)


def cases_pop(tier):
    nt, no = (6, 4) if tier == 'quick' else (8, 5)
    one = [[t, o] for t in range(nt) for o in range(no)]
    for name in POPULATION:
        yield [name, [], 0]
        for a in one:
            yield [name, [a], 'y']
            yield [name, [a], 'n']
        some = one if tier != 'quick' else [p for p in one
                                            if p[0] < 4 and p[1] < 3]
        for a in some:
            for b in some:
                yield [name, [a, b], 0]
        for os_ in itertools.product(range(3), repeat=3):
            for ts in ([0, 1, 2], [3, 3, 4], [5, 2, 3]):
                yield [name, [list(p) for p in zip(ts, os_)], 0]


def bytes_of(folder):
    out = []
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name), 'rb') as f:
            out.append(f.read())
    return out


@contextlib.contextmanager
def answering(word):
    import builtins
    old, asked = builtins.input, []
    builtins.input = lambda text='': (asked.append(text), word)[1]
    try:
        yield asked
    finally:
        builtins.input = old


def check_pop(case, ctx):
    name, picks, twice = case
    data = population(picks)
    what = f'{name} {picks}'

    def reply(k, par, cons, targets):
        return answer(picks[k][1], par, targets)
    with c19.scratch():
        before = None
        if twice:
            first = population([[1, 2], [3, 0], [0, 1]])
            with driven(lambda k, p, c, t: answer(1, p, t), first):
                script(ctx, name)
            before = sorted(os.listdir('.')), bytes_of('.')
        with driven(reply, data) as (runs, reads), answering(twice) as asked:
            try:
                _, exc = script(ctx, name)
            except SystemExit:
                exc = 'stopped'
        if twice:
            ctx.require(len(asked) == 1, 'asked', f'{what}: asked {asked}')
        if twice == 'n':
            ctx.state(case)
            ctx.outcome('stopped')
            ctx.require(exc == 'stopped' and not runs and before == (
                sorted(os.listdir('.')), bytes_of('.')), 'file-kept',
                        f'{what}: {exc!r}, {len(runs)} runs')
            return
        if not picks:
            ctx.state(case)
            ctx.outcome('no laminate')
            ctx.require(exc is not None and not runs, 'empty-population',
                        f'{what}: {exc!r}')
            return
        _, got = file_of(ctx, what, exc)
        if got is None:
            return
        ctx.require(len(reads) == 1 and 'stacks' in
                    list(reads[0][1]) + list(reads[0][2].values()),
                    'population-read', f'{what}: {reads}')
        if not ctx.require(len(runs) == len(picks), 'runs',
                           f'{what}: {len(runs)} runs'):
            return
        set_up(ctx, what, got, runs[0])
    ctx.ok()
    rows, head = rows_of(got['results'])
    if not ctx.require(len(rows) == len(picks), 'rows',
                       f'{what}: {len(rows)} rows'):
        return
    for k, ((t, o), run, row) in enumerate(zip(picks, runs, rows)):
        ctx.state(name, t, o, k)
        ctx.outcome('design' if o else 'no design')
        ss = STACKS[t]
        ctx.require(run[3] == len(ss) and np.allclose(run[2], lp(ss), atol=1e-9),
                    'target', f'{what} laminate {k}')
        stiff = {c: float(data.loc[k, c]) for c in data.columns
                 if len(c) == 3 and c[0] in 'ABD'}
        compare(ctx, 'row', f'{what} laminate {k}', row, expected(
            run, run[0]['mat_prop'], ' '.join(map(str, ss)),
            {a: ss.count(a) for a in (0, 45, 90, -45)}, stiff))
        time = row.get('time (s)')
        ctx.require(number(time) and time >= 0 if o else time is None, 'time',
                    f'{what} laminate {k}: {time}')


# -------------------------------------------------------------- ply counts
def cases_loop(tier):
    "at which runs there is no design, and which designs there are"
    some = [[], [0], [1, 140], [280], list(range(0, 281, 2))]
    if tier != 'quick':
        some += [[1], [0, 1], list(range(281))]
    for none in some:
        for shift in (0,) if tier == 'quick' else (0, 1, 2):
            yield [none, shift]


def check_loop(case, ctx):
    none, shift = case
    what = f'ply counts, no design at {none[:4]}.. designs {shift}'

    def kind(k):
        return 0 if k in none else 1 + (k + shift) % 4
    with c19.scratch():
        with driven(lambda k, par, cons, targets: answer(
                kind(k), par, targets)) as (runs, _):
            out, exc = script(ctx, 'run_LAYLA_V02_loop.py')
        _, got = file_of(ctx, what, exc)
        if got is None:
            return
        set_up(ctx, what, got, runs[0])
    ctx.ok()
    rows, head = rows_of(got['results'])
    counts = [run[3] for run in runs]
    step = counts[1] - counts[0] if len(counts) > 1 else 0
    ctx.require(step > 0 and counts == list(range(
        counts[0], counts[0] + step*len(counts), step)), 'ply-counts',
                f'{what}: {counts}')
    if {'beginning', 'ending', 'step'} <= set(out):
        ctx.require(counts[0] == out['beginning'] and step == out['step']
                    and counts[-1] <= out['ending'] + step - 1
                    and counts[-1] + step > out['ending'], 'ply-counts',
                    f'{what}: {counts[0]}..{counts[-1]} by {step}')
    if not ctx.require(len(rows) == len(runs), 'rows',
                       f'{what}: {len(rows)} rows, {len(runs)} runs'):
        return
    ss = [int(v) for v in str(rows[0].get('ss target')).split()]
    stiff = stiffnesses(lp(ss), runs[0][0]['mat_prop'])
    for k, (run, row) in enumerate(zip(runs, rows)):
        ctx.state(kind(k), counts[k])
        ctx.outcome('design' if kind(k) else 'no design')
        ctx.require(np.allclose(run[2], lp(ss), atol=1e-9), 'target',
                    f'{what} run {k}')
        want = expected(run, run[0]['mat_prop'],
                        ' '.join(map(str, ss)), None, stiff)
        # couplings of the target that vanish but for rounding
        for c in list(want):
            if c.startswith('diff') and not stiff[c.split()[1]]:
                del want[c]
        compare(ctx, 'row', f'{what} run {k}', row, want)
        time = row.get('time (s)')
        ctx.require(number(time) and time >= 0 if kind(k) else time is None,
                    'time', f'{what} run {k}: {time}')


# --------------------------------------------------------- published table
HALVES = [[-45, -45, 0, 45, 45, 45, 45, 90, -45, 90, 90, 90, -45, 0],
          [45, 45, 0, -45, -45, -45, -45, 90, 45, 90, 90, 90, 45, 0],
          [45, 45, 90, -45, -45, 0, 0, 45, 90, 90, -45, -45, 0, 45],
          [-45, -45, 0, 0, 45, 45, 90, 90, -45, -45, 0, 45, 45, 90]]
WORDS = {'Sym': 'sym', 'contiguity': 'contig', 'disorientation': 'diso',
         '10%': 'rule_10_percent', 'damtol': 'dam_tol'}


def fits(half, n, cons):
    mid = [0] if half[-1] in (0, 45, -45) else [90]
    ss = half[:n//2] + mid*(n % 2) + half[:n//2][::-1]
    return ss


def cases_table(tier):
    for pick in itertools.product(range(4), repeat=2 if tier == 'quick' else 3):
        yield list(pick)


def check_table(case, ctx):
    what = f'published table, designs {case}'

    def reply(k, par, cons, targets):
        half = HALVES[case[k % len(case)]]
        return answer(1 + k % 3, par, targets,
                      fits(half, int(targets.n_plies), cons))
    with c19.scratch():
        with driven(reply) as (runs, _):
            _, exc = script(ctx, 'run_LAYLA_table_4_liu_kennedy.py')
        _, got = file_of(ctx, what, exc)
        if got is None:
            return
        set_up(ctx, what, got, runs[-1])
    ctx.ok()
    cs = got['results']
    heads = sorted(r for (r, c), v in cs.items() if v == 'Ply count')
    last = max(r for r, _ in cs)
    parts = []
    for a, b in zip(heads, heads[1:] + [last + 1]):
        names = {c: v for (r, c), v in cs.items() if r == a}
        parts.append([{v: cs.get((r, c)) for c, v in names.items()}
                      for r in range(a + 1, b)])
    if not ctx.require(len(parts) == len(runs) and all(
            len(p) == 3 for p in parts), 'rows',
                       f'{what}: {len(parts)} blocks, {len(runs)} runs'):
        return
    for k, (run, (head, other, mine)) in enumerate(zip(runs, parts)):
        given, res, target, n = run
        par, cons = given['parameters'], given['constraints']
        ctx.state(case[k % len(case)], k)
        where = f'{what} laminate {k}'
        comment = str(head.get('constraints'))
        for word, attr in WORDS.items():
            ctx.require((word in comment) == bool(getattr(cons, attr)),
                        'rules', f'{where}: {comment}, {attr} '
                        f'{getattr(cons, attr)}')
        ctx.require(('bal' in comment.lower()) == bool(cons.bal), 'rules',
                    f'{where}: {comment}, bal {cons.bal}')
        text = str(other.get('stacking sequence'))
        try:
            published = [int(v) for v in text.split()]
        except ValueError:
            published = []
        if not ctx.require(len(published) == n, 'published-stack',
                           f'{where}: {text}'):
            continue
        compare(ctx, 'row', where + ' target', head, dict(
            {f'index {i + 1}': target[i] for i in range(12)},
            **{'information': 'lampam_target', 'Ply count': None,
               'stacking sequence': None}))
        table = stiffnesses(target, given['mat_prop'])
        compare(ctx, 'row', where + ' target', head, table)
        for who, row, ss, final in (
                ('published', other, published, None),
                ('design', mine, [int(a) for a in res.ss], res.objective)):
            dev = np.abs(target - lp(ss))
            want = {f'index {i + 1}': dev[i] for i in range(12)}
            want['Ply count'] = len(ss)
            want['stacking sequence'] = ' '.join(map(str, ss))
            want['objective with initial lamination parameter weightings'] = \
                sum(par.lampam_weightings_ini*dev**par.type_obj_func)
            want['objective with modified lamination parameter weightings'] = \
                final if final is not None else sum(
                    par.lampam_weightings_final*dev**par.type_obj_func)
            compare(ctx, 'row', f'{where} {who}', row, want)
            compare(ctx, 'row', f'{where} {who}', {
                c: 0. if number(row.get(c)) and abs(row[c]) <= 20. else
                row.get(c) for c in table},
                    stiffnesses(lp(ss), given['mat_prop']))
            ctx.require(number(row.get('time (s)')) and row['time (s)'] >= 0,
                        'time', f'{where} {who}')


# ------------------------------------------------------------ one laminate
def cases_one(tier):
    for kind in range(1, 5):
        yield [kind]


def check_one(case, ctx):
    kind, = case
    screen = io.StringIO()
    with c19.scratch(), contextlib.redirect_stdout(screen):
        with driven(lambda k, par, cons, targets: answer(
                kind, par, targets)) as (runs, _):
            _, exc = script(ctx, 'run_LAYLA_V02.py')
    if not ctx.require(exc is None and len(runs) == 1, 'script-runs',
                       f'{exc!r}, {len(runs)} runs'):
        return
    ctx.state(kind)
    ctx.ok()
    given, res, target, n = runs[0]
    ss = [int(a) for a in given['targets'].stack]
    ctx.require(np.allclose(target, lp(ss), atol=1e-9), 'target',
                f'{target} for {ss}')
    shown = screen.getvalue()
    words = shown.replace(',', ' ').replace(':', ' ').split()
    stack = [str(int(a)) for a in res.ss]
    ctx.require(any(words[i:i + n] == stack for i in range(len(words))),
                'stack-shown', f'design {kind}')
    ctx.require(str(res.objective) in shown, 'objective-shown',
                f'design {kind}')

    def values(v):
        return [f'{x + 0.:.5f}' for x in v]
    flat = [w for w in words if w.replace('-', '').replace('.', '').isdigit()
            and len(w.split('.')[-1]) == 5 and '.' in w]
    flat = ['0.00000' if w == '-0.00000' else w for w in flat]
    for name, v in (('target', target), ('difference', res.lampam - target),
                    ('parameters', res.lampam)):
        want = ['0.00000' if w == '-0.00000' else w for w in values(v)]
        ctx.require(any(flat[i:i + 12] == want for i in range(len(flat))),
                    'parameters-shown', f'design {kind}: {name} {want}')


def components(tier):
    pop = FnComponent('populations', cases_pop, check_pop)
    pop.expect_outcomes = ('design', 'no design', 'no laminate', 'stopped')
    return [FnComponent('published', cases_table, check_table),
            FnComponent('ply-counts', cases_loop, check_loop), pop,
            FnComponent('one', cases_one, check_one)]
