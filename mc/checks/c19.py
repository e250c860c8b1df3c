"""C19: what is written in the Excel files is what was designed, and is read
back as it was written."""
import contextlib
import inspect
import io
import itertools
import math
import os
import runpy
import shutil
import tempfile
from collections import Counter
import numpy as np
from mc import ref, build, core
from mc.core import FnComponent
from mc.checks import c09, c11, c12, c18

ASSUMPTIONS = [
    'a sheet is truncated with the row to start from given explicitly',
    'structures of two panels or more with positive dimensions for the '
    'horseshoe script (the SST script reads no dimensions)',
    'a layout without a design has no objective; nothing else is asked of its '
    'rows',
]


@contextlib.contextmanager
def scratch():
    "a temporary current directory; the terminal is silenced"
    tmp, here = tempfile.mkdtemp(prefix='mc-c19-'), os.getcwd()
    os.chdir(tmp)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield tmp
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)


def cells(path):
    from openpyxl import load_workbook
    book = load_workbook(path)
    return {name: {(c.row, c.column): c.value for row in book[name].rows
                   for c in row if c.value is not None}
            for name in book.sheetnames}, book.sheetnames


# ------------------------------------------------------ appending data frames
def frames():
    import pandas as pd
    return [pd.DataFrame({'a': [1, 2], 'b': ['entry', 'long cell']}),
            pd.DataFrame({'c': [.5], 'a': ['z'], 'd': [-3]}, index=['k'])]


PLACES = [dict(), dict(startrow=2), dict(startrow=0, truncate_sheet=True),
          dict(startrow=0)]
FORMS = [dict(), dict(index=False), dict(index=True, header=False)]
OPS = list(itertools.product(('A', 'B'), (0, 1), range(4), range(3)))
# (the sheets play the same role: the first one is called A)
FIRST = [i for i, op in enumerate(OPS) if op[0] == 'A']
SOME = [i for i, op in enumerate(OPS) if op[3] in (0, 1 + op[1])
        and (op[2] < 3 or op[3] == 0 and op[1] == 1)]


def expected(book, order, op, dfs):
    "the cells after one more data frame"
    sheet, d, where, form = op
    df, where, form = dfs[d], PLACES[where], FORMS[form]
    book = {k: dict(v) for k, v in book.items()}
    order = list(order)
    if sheet not in book:
        book[sheet] = {}
        order.append(sheet)
    old = book[sheet]
    row = where.get('startrow', max([r for r, _ in old], default=0))
    if where.get('truncate_sheet'):
        old.clear()
    row += 1
    col = 1
    if form.get('index', True):
        col = 2
    if form.get('header', True):
        for j, name in enumerate(df.columns):
            old[row, col + j] = name
        row += 1
    for i in range(len(df)):
        if col == 2:
            old[row + i, 1] = df.index[i]
        for j in range(len(df.columns)):
            old[row + i, col + j] = df.iloc[i, j]
    return book, order


def plain(book):
    return {s: {k: (v.item() if hasattr(v, 'item') else v)
                for k, v in cs.items()} for s, cs in book.items()}


def wide_enough(path):
    "is every column as wide as its longest cell?"
    from openpyxl import load_workbook
    return all(sheet.column_dimensions[c.column_letter].width
               >= len(str(c.value))
               for sheet in load_workbook(path)
               for row in sheet.iter_rows() for c in row
               if c.value is not None)


def cases_append(tier):
    for i in FIRST:
        if tier != 'quick' or i in SOME:
            for j in SOME if tier == 'quick' else range(len(OPS)):
                yield [i, j, tier]


def check_append(case, ctx):
    from src.divers.excel import append_df_to_excel, autofit_column_widths
    dfs = frames()
    prefix, depth = case[:2], 3
    some = SOME if case[2] == 'quick' else range(len(OPS))

    def rec(path, book, order, done):
        if len(done) == depth:
            return
        ops = ([prefix[len(done)]] if len(done) < len(prefix)
               else some)
        for k in ops:
            op = OPS[k]
            new = f'f{len(done)}.xlsx'
            if os.path.exists(new):
                os.remove(new)
            if path:
                shutil.copyfile(path, new)
            sheet, d, where, form = op
            df = dfs[d].copy()
            ctx.call('append', append_df_to_excel, new, df, sheet,
                     **PLACES[where], **FORMS[form])
            want, worder = expected(book, order, op, dfs)
            got, gorder = cells(new)
            now = done + [op]
            ctx.state(now)
            ctx.step()
            ctx.ok()
            ctx.require(got == plain(want) and gorder == worder, 'cells',
                        lambda: f'{now}: {got} not {plain(want)}')
            ctx.require(df.equals(dfs[d]), 'data-frame-kept', f'{now}')
            if len(now) < 3 or now[-1][2] == 1:
                ctx.call('autofit', autofit_column_widths, new)
                fit, forder = cells(new)
                ctx.require(fit == got and forder == gorder, 'autofit',
                            lambda: f'{now}: {fit} not {got}')
                ctx.require(wide_enough(new), 'widths', lambda: f'{now}')
            rec(new, want, worder, now)
    with scratch():
        rec(None, {}, [], [])


# -------------------------------------------------------------- deleting files
ANSWERS = ['y', 'Y', 'yes', 'Yes', 'YES', 'n', 'N', 'no', '', 'nope', 'yy',
           ' y']


def cases_delete(tier):
    for answer in ANSWERS:
        for there in (0, 1):
            yield [answer, there]


def check_delete(case, ctx):
    from src.divers.excel import delete_file
    import builtins
    answer, there = case
    asked = []
    old = builtins.input
    builtins.input = lambda text='': (asked.append(text), answer)[1]
    try:
        with scratch():
            for name in ('f.xlsx', 'g.xlsx'):
                with open(name, 'w') as out:
                    out.write(name)
            name = 'f.xlsx' if there else 'h.xlsx'
            stopped = False
            try:
                delete_file(name)
            except SystemExit:
                stopped = True
            left = sorted(os.listdir('.'))
    finally:
        builtins.input = old
    yes = answer in ('y', 'Y', 'yes', 'Yes', 'YES')
    ctx.state(case)
    ctx.ok()
    gone = there and yes
    ctx.require(left == (['g.xlsx'] if gone else ['f.xlsx', 'g.xlsx'])
                and len(asked) == there and stopped == bool(there and not yes),
                'overwrite', f'{case}: left {left}, asked {len(asked)}, '
                             f'stopped {stopped}')


# --------------------------------------------------- saved set-ups, run scripts
STRUCTURES = [
    # plies, IDs, neighbours, lengths, loads, weights
    ([4, 6], [1, 2], None, [(.4, .3), (.5, .2)], [(1.5, 0.), (2., 3.)],
     [1., 2.]),
    ([6, 4, 8], [3, 5, 9], None, [(1., .3), (.5, .25), (2, 1)],
     [(100., 7.), (2.5, 3.), (0., 12.)], [1., .5, .25]),
    ([5, 8, 7], [1, 2, 3], {1: [2, 3], 2: [1, 3], 3: [1, 2]},
     [(.1, .3), (.5, .25), (2, 1)], [(1., 1.), (1., 2.), (3., 4.)],
     [3., 1., 2.]),
    ([8, 8], [12, 4], None, [(1, 2), (3, 1)], [(0, 0), (1, 0)], [1, 1]),
]
SETS = [ref.A4, ref.A6, (90, 0, -45, 45, 15, -15, 75, -75)]


def cases_trip(tier):
    flags = itertools.product((1, 0), (1, 0), (1, 0), (0, 1, 2, 3), (0, 1, 2))
    for k, (sym, bal, oopo, dam, cov) in enumerate(flags):
        yield [dict(sym=sym, bal=bal, oopo=oopo, dam=dam, cov=cov), k]
    ten = [None, (10, 5, 15, 20, 30), (0, 0, 12.5, 0, 20), 'A0', 'A7.5']
    for k, (t, delta, contig, gap) in enumerate(itertools.product(
            ten, (None, 30, 45, 60), (None, 2, 3, 4, 5, 6), (None, 2, 3, 4))):
        if tier == 'quick' and k % 2:
            continue
        yield [dict(ten=t, delta=delta, contig=contig, gap=gap), k]
    for k, co in enumerate(itertools.product((0, .5, 3), repeat=3)):
        yield [dict(bal=1, oopo=1, ten=ten[1], delta=45, contig=4, gap=2,
                    coeff=list(co) + [7 - c for c in co]), k]


def make(spec, k):
    kw = dict(sym=bool(spec.get('sym', 1)), bal=bool(spec.get('bal', 0)),
              oopo=bool(spec.get('oopo', 0)))
    if spec.get('dam'):
        kw.update(dam_tol=True, dam_tol_rule=spec['dam'])
    if spec.get('cov'):
        kw.update(covering=True, n_covering=spec['cov'])
    t = spec.get('ten')
    if isinstance(t, str):
        kw.update(rule_10_percent=True, rule_10_Abdalla=True,
                  percent_Abdalla=float(t[1:]))
    elif t:
        kw.update(rule_10_percent=True, percent_0=t[0], percent_45=t[1],
                  percent_90=t[2], percent_135=t[3], percent_45_135=t[4])
    if spec.get('delta'):
        kw.update(diso=True, delta_angle=spec['delta'])
    if spec.get('contig'):
        kw.update(contig=True, n_contig=spec['contig'])
    if spec.get('gap'):
        kw.update(pdl_spacing=True, min_drop=spec['gap'])
    kw['set_of_angles'] = SETS[k % len(SETS)]
    cons = build.constraints(**kw)
    co = spec.get('coeff') or [1 + (k + i) % 5/2 for i in range(6)]
    obj = build.obj_function(cons, **dict(zip(
        ('coeff_diso', 'coeff_contig', 'coeff_10', 'coeff_bal_ipo',
         'coeff_oopo', 'coeff_spacing'), co)))
    mat = build.material(E11=(141 + k % 7)*1e9, nu12=.3 + k % 3/100,
                         ply_t=.0002 - k % 2*.00001, density_area=300.5 + k)
    return cons, obj, mat, structure(cons, k)


def structure(cons, k):
    plies, ids, neigh, size, load, weight = STRUCTURES[k % len(STRUCTURES)]
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    n = len(plies)
    neigh = neigh or {ids[i]: [ids[j] for j in (i - 1, i + 1) if 0 <= j < n]
                      for i in range(n)}
    return MultiPanel([Panel(
        ID=ids[i], constraints=cons, n_plies=plies[i],
        lampam_target=np.array([((7*plies[i] + 3*j + k) % 19 - 9)/9.7
                                for j in range(12)]),
        lampam_weightings=np.array([1. + (i + j + k) % 4 for j in range(12)]),
        weighting=weight[i], neighbour_panels=neigh[ids[i]],
        length_x=size[i][0], length_y=size[i][1],
        N_x=load[i][0], N_y=load[i][1]) for i in range(n)])


def differ(a, b, skip=()):
    "names of the attributes that differ"
    out = []
    for k in sorted((set(vars(a)) | set(vars(b))) - set(skip)):
        x, y = getattr(a, k, '-'), getattr(b, k, '-')
        try:
            same = ref.close(np.array(x, float), np.array(y, float),
                             1e-9*(1 + np.max(np.abs(np.array(x, float)),
                                              initial=0)))
        except (TypeError, ValueError):
            same = repr(x) == repr(y)
        if not same:
            out.append((k, repr(x)[:80], repr(y)[:80]))
    return out


@contextlib.contextmanager
def redirected(source):
    """pandas reads `source(path)` in place of `path`; the optimiser only
    records its arguments"""
    import pandas as pd
    from src.BELLA import optimiser
    old = pd.read_excel, optimiser.BELLA_optimiser
    sig = inspect.signature(old[1])
    calls = []

    def read(path, *a, **k):
        return old[0](source(str(path)), *a, **k)

    def record(*a, **k):
        calls.append(sig.bind(*a, **k).arguments)
    pd.read_excel, optimiser.BELLA_optimiser = read, record
    try:
        yield calls
    finally:
        pd.read_excel, optimiser.BELLA_optimiser = old


def run_script(ctx, name, source):
    "arguments the script gives to the optimiser"
    with redirected(source) as calls:
        _, exc = ctx.attempt(runpy.run_path,
                             os.path.join(core.REPO, name))
    if not ctx.require(exc is None and len(calls) == 1, 'script-runs',
                       f'{name}: {exc!r}, {len(calls)} runs'):
        return None
    return calls[0]


SCRIPTS = ['run_BELLA_from_input_file_horseshoe.py',
           'run_BELLA_from_input_file_SST_1.py']


def check_trip(case, ctx):
    from src.BELLA import save_set_up as ssu
    from src.divers.excel import autofit_column_widths
    spec, k = case
    cons, obj, mat, mp = make(spec, k)
    mp.filter_target_lampams(cons, obj)
    mp.filter_lampam_weightings(cons, obj)
    with scratch() as tmp:
        path = os.path.join(tmp, 'in.xlsx')
        saves = [lambda: ssu.save_multipanel(path, mp, obj, mat=mat),
                 lambda: ssu.save_constraints_BELLA(path, cons),
                 lambda: ssu.save_objective_function_BELLA(path, obj),
                 lambda: ssu.save_materials(path, mat)]
        for i in range(4):
            ctx.call('save', saves[(i + k) % 4])
        ctx.call('autofit', autofit_column_widths, path)
        got, _ = cells(path)
        sst = k % 4 == 3
        args = run_script(ctx, SCRIPTS[sst], lambda p: path)
    ctx.state(case)
    ctx.ok()
    if args is None:
        return
    what = f'{case}'
    for name, mine, skip in (
            ('constraints', cons, ()), ('obj_func_param', obj, ()),
            ('mat', mat, ())):
        bad = differ(mine, args[name], skip)
        ctx.require(not bad, 'read-' + name, f'{what}: {bad}')
    two = args['multipanel']
    for i, (a, b) in enumerate(zip(mp.panels, two.panels)):
        ctx.require(ref.close(a.lampam_weightings, b.lampam_weightings_ini),
                    'read-panels', f'{what}: panel {i}: weightings '
                    f'{b.lampam_weightings_ini} not {a.lampam_weightings}')
    # as the optimiser does
    two.filter_target_lampams(args['constraints'], args['obj_func_param'])
    two.filter_lampam_weightings(args['constraints'], args['obj_func_param'])
    skip = {'sum_lampam_weightings', 'lampam_weightings_ini'}
    mpskip = {'panels', 'reduced'}
    if sst:
        skip |= {'length_x', 'length_y', 'N_x', 'N_y', 'area'}
        mpskip |= {'area', 'area_patches'}
    bad = differ(mp, two, mpskip)
    ctx.require(not bad and len(two.panels) == len(mp.panels),
                'read-multipanel', f'{what}: {bad}')
    for i, (a, b) in enumerate(zip(mp.panels, two.panels)):
        bad = differ(a, b, skip)
        ctx.require(not bad, 'read-panels', f'{what}: panel {i}: {bad}')
    sheet = table(got['Multipanel'])
    n = [p.n_plies for p in mp.panels]
    size = [p.length_x*p.length_y for p in mp.panels]
    vol = sum(s*m for s, m in zip(size, n))
    want = {'Number of panels': len(n), 'Number of plies max': max(n),
            'Area': sum(size), 'Area of all patches': vol,
            'Weight': mat.density_area*vol}
    ctx.require(all(abs(sheet[key] - v) < 1e-9*(1 + abs(v))
                    for key, v in want.items())
                and n[int(sheet['Index of one thickest panel'])] == max(n),
                'structure-saved', f'{what}: {sheet} not {want}')


def table(cs):
    "label -> value of a sheet with one column of values"
    out = {}
    rows = {r for r, _ in cs}
    for r in rows:
        assert cs[r, 1] not in out, cs[r, 1]
        out[cs[r, 1]] = cs.get((r, 2))
    return out


# --------------------------------------- stacking sequence tables, penalties
def cases_tables(tier):
    sets = [[4, 6], [7, 5]] + ([] if tier == 'quick' else [[4, 6, 8]])
    for plies in sets:
        half = (max(plies) + 1)//2
        for k, guide in enumerate(itertools.product(ref.A4, repeat=half)):
            if tier == 'quick' and k % 2:
                continue
            yield [plies, list(guide), k]


def check_tables(case, ctx):
    from src.BELLA.save_set_up import save_multipanel
    plies, guide, k = case
    counts = sorted(set(plies))
    top = counts[-1]
    full = guide + guide[:top//2][::-1]
    tabs = list(c18.places(counts, 0))
    rules = dict(c18.RULES[(1, 2, 5, 4, 6)[k % 5]], sym=True,
                 oopo=k % 2 == 0, pdl_spacing=k % 3 != 0, min_drop=2 + k % 2)
    cons = build.constraints(set_of_angles=ref.A4, **rules)
    obj, mat = build.obj_function(cons), build.material()
    for place in tabs[k % 2::2]:
        mp = structure_of(cons, plies)
        mp.filter_target_lampams(cons, obj)
        mp.filter_lampam_weightings(cons, obj)
        sst = np.array([[full[j] if j in place[counts.index(n)] else -1
                         for j in range(top)] for n in plies])
        given = sst.copy()
        with scratch():
            ctx.call('save', save_multipanel, 'f.xlsx', mp, obj, sst=given,
                     calc_penalties=True, constraints=cons, mat=mat,
                     save_buckling=True)
            got, _ = cells('f.xlsx')
        ctx.state(case, place)
        ctx.ok()
        what = f'{case} {sst.tolist()}'
        ctx.require(np.array_equal(sst, given), 'table-kept', what)
        want = {'Number of panels': len(plies)}
        if cons.pdl_spacing:
            want['Penalty spacing'] = spacing(mp, cons, place)
        same(ctx, 'spacing-saved', what, table(got['Multipanel']), want)
        rows, ok = blocks(got['Panels'], 'Panel ID')
        if not ctx.require(ok and len(rows) == 1
                           and len(rows[0]) == len(plies), 'rows', what):
            continue
        for i, (row, p) in enumerate(zip(rows[0], mp.panels)):
            s = tuple(a for a in sst[i].tolist() if a != -1)
            lp, n = ref.lampam(s), len(s)
            short = 0
            if cons.rule_10_percent:
                short = ref.ten_penalty(Counter(s), n, c12.limits(cons))
            want = {
                'Panel ID': p.ID, 'Number of plies': n,
                'Weighting in MP objective funtion': p.weighting,
                'Length_x': p.length_x, 'Length_y': p.length_y,
                'Area': p.length_x*p.length_y, 'N_x': p.N_x, 'N_y': p.N_y,
                'Penalty disorientation': (len(ref.diso_pairs(
                    s, cons.delta_angle))/n if cons.diso else 0),
                'Penalty contiguity': (len(ref.contig_windows(
                    s, cons.n_contig))/n if cons.contig else 0),
                'Penalty 10% rule': float(short),
                'Penalty balance': ((abs(lp[2]) + abs(lp[3]))/2 if cons.bal
                                    else 0),
                'Penalty out-of-plane orthotropy':
                    (abs(lp[10]) + abs(lp[11]))/2 if cons.oopo else 0}
            t = p.lampam_target
            for j in range(12):
                want[f'lampam_target[{j + 1}]'] = t[j]
                want[f'lampam_weightings[{j + 1}]'] = p.lampam_weightings[j]
                want[f'lampam_weightings_ini[{j + 1}]'] = (
                    p.lampam_weightings_ini[j])
            want['lambda buckling'] = c11.critical(
                stiffness(t, n, mat), p.N_x, p.N_y, p.length_x, p.length_y,
                10)
            same(ctx, 'panel-saved', f'{what} panel {i}', row, want)
            ids = numbers(str(row['Neighbour panel IDs']))
            ctx.require(ids == list(p.neighbour_panels), 'panel-saved',
                        f'{what} panel {i}: {ids}')


def stiffness(lp, n, mat):
    "D11, D12, D22, D66 from the lamination parameters"
    nu21 = mat.nu12*mat.E22/mat.E11
    d = 1 - mat.nu12*nu21
    q11, q22, q12, q66 = (mat.E11/d, mat.E22/d, mat.nu12*mat.E22/d, mat.G12)
    u1 = (3*q11 + 3*q22 + 2*q12 + 4*q66)/8
    u2 = (q11 - q22)/2
    u3 = (q11 + q22 - 2*q12 - 4*q66)/8
    u4 = (q11 + q22 + 6*q12 - 4*q66)/8
    u5 = (q11 + q22 - 2*q12 + 4*q66)/8
    a, b = lp[8], lp[9]
    h = (n*mat.ply_t)**3/12
    return [h*v for v in (u1 + u2*a + u3*b, u4 - u3*b, u1 - u2*a + u3*b,
                          u5 - u3*b)]


# -------------------------------------------------- designs of other sources
FORMATS = ['format_restults_FXI_horseshoe.py', 'format_restults_FXI_SST_1.py']


def cases_fxi(tier):
    sets = [[4, 6], [6, 4, 6], [7, 5]]
    if tier != 'quick':
        sets += [[8, 6, 4], [8, 4], [9, 7, 5]]
    for plies in sets:
        top = max(plies)
        for k, guide in enumerate(itertools.product(ref.A4, repeat=top//2)):
            if k % (3 if tier == 'quick' else 2)*(len(plies) - 1) < 2:
                yield [plies, list(guide), k]


def check_fxi(case, ctx):
    """the scripts that format the designs of another program report these
    designs"""
    from src.BELLA import save_set_up as ssu
    import pandas as pd
    plies, guide, k = case
    counts = sorted(set(plies))
    top = counts[-1]
    full = guide + [90]*(top % 2) + guide[::-1]
    rules = dict(c18.RULES[(1, 2, 5, 4, 6)[k % 5]], sym=True,
                 oopo=k % 2 == 0, pdl_spacing=k % 3 != 0, min_drop=2 + k % 2)
    cons = build.constraints(set_of_angles=ref.A4, **rules)
    obj, mat = build.obj_function(cons, coeff_diso=3., coeff_contig=5.,
                                  coeff_10=7., coeff_oopo=11., coeff_bal_ipo=2.,
                                  coeff_spacing=13.), build.material()
    tabs = list(c18.places(counts, 0))
    place = tabs[k % len(tabs)]
    mp = structure_of(cons, plies)
    mp.filter_target_lampams(cons, obj)
    mp.filter_lampam_weightings(cons, obj)
    # empty columns, and laminates in another order than the panels
    cols = {}
    for i in (range(len(plies)) if k % 2 else range(len(plies))[::-1]):
        row = place[counts.index(plies[i])]
        lam = [full[j] if j in row else None for j in range(top)]
        cols[f'{plies[i]} plies'] = lam[:1] + [None]*(k % 3) + lam[1:]
    with scratch() as tmp:
        file, alone = (os.path.join(tmp, f) for f in ('in.xlsx', 'fxi.xlsx'))
        ctx.call('save', ssu.save_multipanel, file, mp, obj, mat=mat)
        ctx.call('save', ssu.save_constraints_BELLA, file, cons)
        ctx.call('save', ssu.save_objective_function_BELLA, file, obj)
        ctx.call('save', ssu.save_materials, file, mat)
        with pd.ExcelWriter(alone) as out:
            pd.DataFrame(cols).to_excel(out, sheet_name='Best result FXI',
                                        index=False)
        given, _ = cells(file)
        with redirected(lambda p: alone if '/result_FXI' in p else file):
            _, exc = ctx.attempt(runpy.run_path, os.path.join(
                core.REPO, 'FXI-results', FORMATS[k % 2]))
        made = sorted(set(os.listdir(tmp)) - {'in.xlsx', 'fxi.xlsx'})
        if not ctx.require(exc is None and len(made) == 1, 'script-runs',
                           f'{case}: {exc!r} {made}'):
            return
        got, _ = cells(os.path.join(tmp, made[0]))
    ctx.state(case)
    ctx.ok()
    what = f'{case} {cols}'
    for name in ('Constraints', 'Materials', 'Objective function'):
        a, b = table(given[name]), table(got[name])
        same(ctx, 'set-up-kept', f'{what} {name}', b, a)
    if k % 2 == 0:
        a, b = (blocks(x['Panels'], 'Panel ID')[0] for x in (given, got))
        ctx.require(len(a) == len(b) == 1 and len(a[0]) == len(b[0]),
                    'set-up-kept', f'{what}: {b}')
        for x, y in zip(a[0], b[0]):
            same(ctx, 'set-up-kept', f'{what} panels', y,
                 {k: v for k, v in x.items() if '_ini[' not in str(k)})
        same(ctx, 'set-up-kept', f'{what} structure', table(got['Multipanel']),
             {k: v for k, v in table(given['Multipanel']).items()
              if k != 'Weight'})
    rows, ok = blocks(got['Best Result'])
    if not ctx.require(ok and len(rows) == 1 and len(rows[0]) == len(plies),
                       'rows', what):
        return
    same(ctx, 'layout-row', what, rows[0][0], {'penalty_spacing': spacing(
        mp, cons, place)})
    for i, (row, p) in enumerate(zip(rows[0], mp.panels)):
        line = place[counts.index(plies[i])]
        t = [full[j] if j in line else -1 for j in range(top)]
        s = tuple(a for a in t if a != -1)
        want = panel_row(s, cons, p, mat)
        want['index panel'] = i + 1
        want['penalty_10'] = 0
        if cons.rule_10_percent:
            want['penalty_10'] = float(ref.ten_penalty(
                Counter(s), len(s), c12.limits(cons)))
        if k % 2 == 0:
            d11, d12, d22, d66 = c11.bending(s, mat)
            want['lambda buckling'] = c11.critical(
                (d11, d12, d22, d66), p.N_x, p.N_y, p.length_x, p.length_y,
                10)
        same(ctx, 'panel-row', f'{what} panel {i}', row, want)
        ctx.require(('lambda buckling' in row) == (k % 2 == 0)
                    and numbers(row['stacking sequences']) == list(s)
                    and numbers(row['stacking sequences with ply drops '
                                    'included']) == t, 'stacks',
                    f'{what} panel {i}: {row}')


def spacing(mp, cons, place):
    "penalty of a ply-drop layout for the ply-drop spacing"
    if not cons.pdl_spacing:
        return 0
    mp.from_mp_to_blending_strip(cons, n_plies_ref_panel=1)
    top = max(p.n_plies for p in mp.panels)
    return float(sum(
        mp.reduced.boundary_weights[b]*c09.penalty(
            [[j in row for j in range(top)] for row in place], [b],
            cons.min_drop)
        for b in (tuple(int(v) for v in b) for b in mp.reduced.boundaries)))


# ------------------------------------------------------- input files shipped
MAKERS = [('create_input_file_SST.py', 1), ('create_input_file_horseshoe.py', 0),
          ('create_input_file_horseshoe2.py', 0)]


def cases_inputs(tier):
    return [[name, s] for name, s in MAKERS]


def check_inputs(case, ctx):
    """the scripts that create the input files produce the problems of the
    input files shipped, and the run scripts read them"""
    name, s = case
    here = os.path.join(core.REPO, 'input-files')

    def shipped(path):
        return os.path.join(here, os.path.basename(path))
    with scratch() as tmp:
        with redirected(shipped):
            _, exc = ctx.attempt(runpy.run_path, os.path.join(here, name))
        made = [f for f in os.listdir(tmp) if f.endswith('.xlsx')]
        if not ctx.require(exc is None and len(made) == 1
                           and os.path.exists(os.path.join(here, made[0])),
                           'script-runs', f'{name}: {exc!r} {made}'):
            return
        mine = os.path.join(tmp, made[0])
        a = run_script(ctx, SCRIPTS[s], lambda p: mine)
        b = run_script(ctx, SCRIPTS[s], lambda p: os.path.join(here, made[0]))
    ctx.state(case)
    ctx.ok()
    if a is None or b is None:
        return
    for key in ('constraints', 'obj_func_param', 'mat'):
        bad = differ(a[key], b[key])
        ctx.require(not bad, 'input-' + key, f'{made[0]}: {bad}')
    pa, pb = a['multipanel'].panels, b['multipanel'].panels
    ctx.require(len(pa) == len(pb) and not differ(
        a['multipanel'], b['multipanel'], {'panels', 'reduced'}),
                'input-multipanel', f'{made[0]}')
    for x, y in zip(pa, pb):
        bad = differ(x, y)
        ctx.state(case, x.ID)
        ctx.require(not bad, 'input-panels', f'{made[0]}: {bad}')


# ----------------------------------------------------------- files of a run
def cases_run(tier):
    sets = [[4, 6], [5, 7], [6, 4, 6]]
    if tier != 'quick':
        sets += [[8, 6], [4, 8, 6], [9, 7]]
    for plies in sets:
        counts = sorted(set(plies))
        for r in (0, 1, 2, 5, 6, 8, 10) if tier == 'quick' else range(11):
            cov = c18.build_cov(c18.RULES[r])
            if 2*cov > counts[0] or r == 9 and counts != [4, 6]:
                continue
            n = len(list(c18.places(counts, cov)))
            for buck in (True, False):
                for oopo in (True, False):
                    for order in ([0], [n - 1, 0], list(range(min(n, 3)))):
                        if max(order) < n and len(set(order)) == len(order):
                            yield [plies, r, buck, oopo, order]


def structure_of(cons, plies):
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    n = len(plies)
    counts = sorted(set(plies))
    return MultiPanel([Panel(
        ID=i + 1, constraints=cons, n_plies=m,
        lampam_target=np.array(c18.TARGETS[counts.index(m) % len(c18.TARGETS)],
                               float),
        lampam_weightings=np.ones(12), weighting=i + 1.,
        neighbour_panels=[j for j in (i, i + 2) if 1 <= j <= n],
        length_x=.3 + .1*i, length_y=.25 + .05*i*i,
        N_x=1e5*(i + 1), N_y=5e4*(3 - i)) for i, m in enumerate(plies)])


def check_run(case, ctx):
    from src.BELLA import optimiser as mod
    from src.BELLA.save_result import (
        save_result_BELLA_one_pdl, save_result_BELLAs)
    import pandas as pd
    plies, r, buck, oopo, picks = case
    rules = dict(c18.RULES[r], sym=True, oopo=oopo)
    counts = sorted(set(plies))
    cons = build.constraints(set_of_angles=ref.A4, **rules)
    par = build.parameters(
        cons, local_node_limit=2, global_node_limit=3,
        local_node_limit_final=c18.BIG, global_node_limit_final=2,
        repair_membrane_switch=bool(r % 2), repair_flexural_switch=not r % 2,
        group_size_min=1, group_size_max=6, time_limit_all_pdls=1,
        time_limit_group_pdl=1, save_buckling=buck, save_success_rate=True)
    obj = build.obj_function(cons, coeff_diso=3., coeff_contig=5.,
                             coeff_10=7., coeff_oopo=11., coeff_spacing=13.)
    mat = build.material()
    n = len(plies)
    mp = structure_of(cons, plies)
    tables = list(c18.places(counts, c18.build_cov(rules)))
    with scratch() as tmp:
        path = os.path.join(tmp, 'layouts.xlsx')
        with pd.ExcelWriter(path) as out:
            for i, k in enumerate(picks):
                pd.DataFrame(c18.layout(tables[k], counts[-1])).to_excel(
                    out, sheet_name=f'pdl{i + 1}', index=False, header=False)
        file = os.path.join(tmp, 'out.xlsx')
        res, exc = ctx.attempt(
            mod.BELLA_optimiser, mp, par, obj, cons, file, mat=mat,
            filename_initial_pdls=path)
        if exc is not None:
            # (C18 decides when the search may end without a laminate)
            ctx.outcome('no guide laminate')
            ctx.require(r == 10, 'run', f'{case}: {exc!r}')
            return
        got, order = cells(file)
        left = sorted(os.listdir(tmp))
        alone = os.path.join(tmp, 'best.xlsx')
        ctx.call('save', save_result_BELLAs, alone, mp, cons, par, obj, None,
                 res, mat, only_best=True)
        single, names = cells(alone)
    # with no parameters, the buckling factor is saved for loaded panels
    first = mp.panels[0]
    loads = first.N_x, first.N_y
    for pair in ((0, 0), (0, 1e4), (1e4, 0)):
        first.N_x, first.N_y = pair
        tab = ctx.call('save', save_result_BELLA_one_pdl, pd.DataFrame(), mp,
                       cons, None, obj, res, None, getattr(res, 'ind_mini', 0),
                       mat)
        ctx.require(('lambda buckling' in tab.columns) == any(pair),
                    'buckling-saved', lambda: f'{case} loads {pair}, no '
                    f'parameters: {list(tab.columns)}')
    first.N_x, first.N_y = loads
    ctx.state(case)
    ctx.ok()
    what = f'{case}'
    ctx.require(names == ['Best Result'], 'sheets', f'{what}: {names}')
    ctx.require(left == ['layouts.xlsx', 'out.xlsx']
                and sorted(order) == sorted([
                    'Constraints', 'Materials', 'Parameters', 'Multipanel',
                    'Objective function', 'Panels', 'Results', 'Best Result']),
                'sheets', f'{what}: {left} {order}')
    settings(ctx, what, got, cons, par, obj, mat)
    rows, ok = blocks(got['Results'])
    if not ctx.require(ok and len(rows) == len(picks)
                       and all(len(b) == n for b in rows), 'rows',
                       f'{what}: {[len(b) for b in rows]}'):
        return
    best, ok = blocks(got['Best Result'])
    if not ctx.require(ok and len(best) == 1 and len(best[0]) == n, 'rows',
                       f'{what}: best {best}'):
        return
    only, ok = blocks(single['Best Result'])
    layouts = 'initial ply drop layout'
    ctx.require(ok and only == [[{k: v for k, v in row.items() if k != layouts}
                                 for row in best[0]]], 'best-only', lambda:
                f'{what}: {only} not {best}')
    for k, block in enumerate(rows):
        design(ctx, f'{what} layout {k}', block, k, mp, par, cons, mat, res,
               tables[picks[k]])
    first = dict(best[0][0])
    spent = first.pop('time (s)', None)
    ctx.require(spent is not None and abs(spent - res.time) < 1e-9, 'time',
                what)
    if all(np.isnan(v) for v in res.obj_constraints_tab):
        ctx.outcome('nothing')
        return
    k = int(res.ind_mini)
    ctx.require([first] + best[0][1:] == rows[k], 'best', lambda:
                f'{what}: {best} not {rows[k]}')


def blocks(cs, mark='n_plies'):
    "blocks of rows of a sheet, each one starting with a header"
    out, ok = [], True
    names = None
    for r in range(1, max(r for r, _ in cs) + 1):
        row = {c: v for (q, c), v in cs.items() if q == r}
        if any(isinstance(v, str) and v.startswith(mark)
               for v in row.values()):
            names = row
            ok = ok and len(set(row.values())) == len(row)
            out.append([])
        elif names is None:
            ok = False
        else:
            out[-1].append({names.get(c, c): v for c, v in row.items()})
    return out, ok


def settings(ctx, what, got, cons, par, obj, mat):
    "the sheets of the settings, cell by cell"
    yes = bool(cons.rule_10_percent)
    want = {
        'symmetry': cons.sym, 'balance': cons.bal,
        'out-of-plane orthotropy': cons.oopo,
        'damage tolerance': cons.dam_tol, 'dam_tol_rule': cons.dam_tol_rule,
        'covering': cons.covering, 'n_covering': cons.n_covering,
        '10% rule': yes,
        '10% rule applied on LPs': bool(yes and cons.rule_10_Abdalla),
        '10% rule applied on ply percentages':
            bool(yes and not cons.rule_10_Abdalla),
        'percentage limit when rule applied on LPs':
            yes and 100*cons.percent_Abdalla,
        'percent_0': yes and 100*cons.percent_0,
        'percent_45': yes and 100*cons.percent_45,
        'percent_90': yes and 100*cons.percent_90,
        'percent_-45': yes and 100*cons.percent_135,
        'percent_+-45': yes and 100*cons.percent_45_135,
        'diso': cons.diso, 'delta_angle': cons.delta_angle,
        'contig': cons.contig, 'n_contig': cons.n_contig_c,
        'fibre orientations': ' '.join(str(int(a))
                                       for a in cons.set_of_angles),
        'number fibre orientations': len(cons.set_of_angles),
        'ply drop spacing rule': cons.pdl_spacing,
        'minimum number of continuous plies between ply drops':
            cons.min_drop}
    same(ctx, 'constraints-saved', what, table(got['Constraints']), want)
    want = {
        'number of initial ply drops': par.n_ini_ply_drops,
        'minimum group size': par.group_size_min,
        'maximum group size': par.group_size_max,
        'input number of plies in reference panel': par.n_plies_ref_panel}
    for name in ('time_limit_group_pdl', 'time_limit_all_pdls',
                 'global_node_limit', 'global_node_limit_final',
                 'local_node_limit', 'local_node_limit_final',
                 'repair_membrane_switch', 'repair_flexural_switch', 'p_A',
                 'n_D1', 'n_D2', 'n_D3', 'global_node_limit2',
                 'local_node_limit2', 'global_node_limit3',
                 'local_node_limit3'):
        want[name] = getattr(par, name)
    same(ctx, 'parameters-saved', what, table(got['Parameters']), want)
    want = {name: getattr(obj, name) for name in (
        'coeff_contig', 'coeff_diso', 'coeff_10', 'coeff_bal_ipo',
        'coeff_oopo', 'coeff_spacing')}
    same(ctx, 'objective-saved', what, table(got['Objective function']), want)
    materials(ctx, what, got, mat)


def materials(ctx, what, got, mat):
    nu21 = mat.nu12*mat.E22/mat.E11
    want = {'E11': mat.E11, 'E22': mat.E22, 'G12': mat.G12, 'nu12': mat.nu12,
            'nu21': nu21, 'areal density': mat.density_area,
            'volumic density': mat.density_area/mat.ply_t,
            'ply thickness': mat.ply_t,
            'Q11': mat.E11/(1 - mat.nu12*nu21),
            'Q22': mat.E22/(1 - mat.nu12*nu21),
            'Q12': mat.nu12*mat.E22/(1 - mat.nu12*nu21), 'Q66': mat.G12}
    for k in range(1, 6):
        want[f'U{k}'] = getattr(mat, f'U{k}')
    same(ctx, 'material-saved', what, table(got['Materials']), want)


def same(ctx, rule, what, sheet, want):
    bad = {}
    for key, v in want.items():
        x = sheet.get(key)
        if isinstance(v, str) or x is None or isinstance(x, str):
            ok = x == v
        else:
            ok = abs(float(x) - float(v)) <= 1e-9*(1 + abs(float(v)))
        if not ok:
            bad[key] = (x, v)
    ctx.require(not bad, rule, f'{what}: {bad}')


def numbers(text):
    return [int(float(v)) for v in text.split()]


def design(ctx, what, block, k, mp, par, cons, mat, res, place):
    "the rows of one layout"
    if np.isnan(res.obj_constraints_tab[k]):
        ctx.outcome('no design')
        ctx.require(all('obj_constraints' not in row
                        and 'obj_no_constraints' not in row for row in block),
                    'no-design', f'{what}: {block}')
        return
    ctx.outcome('design')
    counts = sorted({p.n_plies for p in mp.panels})
    first = block[0]
    want = {'obj_constraints': res.obj_constraints_tab[k],
            'n_obj_func_calls': res.n_obj_func_calls_tab[k],
            'penalty_spacing': res.penalty_spacing_tab[k]}
    same(ctx, 'layout-row', what, first, want)
    lay = c18.layout(place, counts[-1])
    for i, (row, p) in enumerate(zip(block, mp.panels)):
        s = tuple(int(a) for a in res.ss_tab[k][i])
        t = [int(a) for a in res.ss_tab_tab[k][i]]
        n = p.n_plies
        want = panel_row(s, cons, p, mat)
        want.update({
            'index panel': i + 1,
            'obj_no_constraints': res.obj_no_constraints_tab[k][i],
            'penalty_10': res.penalty_10_tab[k][i]})
        d11, d12, d22, d66 = c11.bending(s, mat)
        if par.save_buckling:
            want['lambda buckling'] = c11.critical(
                (d11, d12, d22, d66), p.N_x, p.N_y, p.length_x, p.length_y,
                10)
            want['n_plies_'] = n
        same(ctx, 'panel-row', f'{what} panel {i}', row, want)
        ctx.require(('lambda buckling' in row) == bool(par.save_buckling),
                    'buckling-saved', f'{what} panel {i}: {sorted(row)}')
        ctx.require(numbers(row['stacking sequences']) == list(s)
                    and numbers(row['stacking sequences with ply drops '
                                    'included']) == t
                    and tuple(a for a in t if a != -1) == s, 'stacks',
                    f'{what} panel {i}: {row["stacking sequences"]}')
        ctx.require([v != -1 for v in numbers(row['initial ply drop layout'])]
                    == [v != -1 for v in lay[counts.index(n)]],
                    'initial-layout', f'{what} panel {i}: '
                    f'{row["initial ply drop layout"]}')


def panel_row(s, cons, p, mat):
    "what is to be read about the laminate s of the panel p"
    n, lp, c = len(s), np.array(ref.lampam(s)), Counter(s)
    d = len(ref.diso_pairs(s, cons.delta_angle)) if cons.diso else 0
    g = len(ref.contig_windows(s, cons.n_contig)) if cons.contig else 0
    want = {
        'n_plies': n,
        'ipo: |lampam[3]| + |lampam[4]|': abs(lp[2]) + abs(lp[3]),
        'oopo: |lampam[11]| + |lampam[12]|': abs(lp[10]) + abs(lp[11]),
        'percentage_0_plies': c[0]/n, 'percentage_90_plies': c[90]/n,
        'percentage_+45_plies': c[45]/n, 'percentage_-45_plies': c[-45]/n,
        'percentage_+-45_plies': (c[45] + c[-45])/n,
        'penalty_diso': d/n, 'penalty_contig': g/n,
        'penalty_ipo': ((abs(lp[2]) + abs(lp[3]))/2 if cons.bal else 0),
        'penalty_oopo': ((abs(lp[10]) + abs(lp[11]))/2 if cons.oopo else 0)}
    if cons.diso:
        want['n_violations_diso'] = d
    if cons.contig:
        want['n_violations_contig'] = g
    for a in cons.set_of_angles:
        want[f'n_{a}plies'] = c[int(a)]
    for j in range(12):
        want[f'lampam[{j + 1}]'] = lp[j]
        want[f'lampam_error[{j + 1}]'] = abs(lp[j] - p.lampam_target[j])
    d11, d12, d22, d66 = c11.bending(s, mat)
    d16, d26 = coupling(s, mat)
    want['gamma'] = abs(d16)/(d11**3*d22)**.25
    want['delta'] = abs(d26)/(d22**3*d11)**.25
    return want


def coupling(ss, mat):
    "D16, D26 from the ply stiffnesses"
    nu21 = mat.nu12*mat.E22/mat.E11
    d = 1 - mat.nu12*nu21
    q11, q22, q12, q66 = (mat.E11/d, mat.E22/d, mat.nu12*mat.E22/d, mat.G12)
    n = len(ss)
    out = np.zeros(2)
    for k, a in enumerate(ss):
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        u, v = q11 - q12 - 2*q66, q12 - q22 + 2*q66
        z1, z2 = (k - n/2)*mat.ply_t, (k + 1 - n/2)*mat.ply_t
        out += np.array([u*c**3*s + v*c*s**3, u*c*s**3 + v*c**3*s]
                        )*(z2**3 - z1**3)/3
    return out


# --------------------------------------------------------- set-up of LAYLA
LAYLA_RULES = [
    dict(sym=True), dict(sym=False, bal=True, oopo=True),
    dict(sym=True, ipo=True, diso=True, delta_angle=45, contig=True,
         n_contig=3),
    dict(sym=True, bal=True, dam_tol=True, dam_tol_rule=2, diso=True,
         delta_angle=30, contig=True, n_contig=5, rule_10_percent=True,
         percent_0=10, percent_45=12, percent_90=14, percent_135=16),
    dict(sym=True, dam_tol=True, dam_tol_rule=1, rule_10_percent=True,
         percent_0=5, percent_45=0, percent_90=15, percent_135=0,
         percent_45_135=30),
]
LAYLA_NOT = [None, dict(diso=True, delta_angle=45),
             dict(contig=True, n_contig=4, bal=True),
             dict(ipo=True), dict(rule_10_percent=True, percent_0=10,
                                  percent_45=11, percent_90=12,
                                  percent_135=13, percent_45_135=30)]


def cases_layla(tier):
    for r in range(len(LAYLA_RULES)):
        for n in range(len(LAYLA_NOT)):
            for na in (4, 6, 8):
                for p in range(3):
                    yield [r, n, na, p]


def check_layla(case, ctx):
    from src.LAYLA_V02 import save_set_up as ssu
    from src.LAYLA_V02.constraints import Constraints
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.materials import Material
    r, n, na, p = case
    angles = {4: ref.A4, 6: ref.A6, 8: ref.A8}[na]
    kw = dict(LAYLA_RULES[r], set_of_angles=np.array(angles))
    cons = Constraints(**kw)
    no = LAYLA_NOT[n] and Constraints(set_of_angles=np.array(angles),
                                      **LAYLA_NOT[n])
    given = dict(
        n_outer_step=1 + p, coeff_10=2.5, coeff_bal_ipo=3.5, coeff_oopo=4.5,
        group_size_min=5 + p, group_size_max=np.array([8 + p, 9 + p, 10 + p][:1 + p]),
        first_level_sensitivities=np.arange(12.)/8 + p,
        lampam_to_be_optimised=np.array([(k + p) % 3 > 0 for k in range(12)],
                                        float),
        global_node_limit=11 + p, global_node_limit_p=12 + p,
        local_node_limit=13 + p, local_node_limit_final=14 + p,
        repair_membrane_switch=p == 0, repair_flexural_switch=p != 1,
        p_A=60 + p, n_D1=3 + p, n_D2=7 + p, n_D3=1 + p,
        penalty_10_pc_switch=p == 1, penalty_10_lampam_switch=p == 2,
        penalty_bal_switch=p == 0, penalty_ipo_switch=p == 1,
        type_obj_func=1 + p % 2)
    par = Parameters(cons, **{k: v for k, v in given.items()})
    mat = Material(E11=1.3e11 + p, E22=9e9 + p, G12=4e9 + p, nu12=.3 + p/100,
                   density_area=300.5 + p, ply_t=.0002 + p/10000)
    with scratch() as tmp:
        path = os.path.join(tmp, 'out.xlsx')
        saves = [lambda: ssu.save_constraints_LAYLA(path, cons, no),
                 lambda: ssu.save_parameters_LAYLA_V02(path, par),
                 lambda: ssu.save_materials(path, mat)]
        for i in range(3):
            ctx.call('save', saves[(i + p) % 3])
        got, order = cells(path)
    ctx.ok()
    ctx.state(case)
    what = f'{case}'
    ctx.require(sorted(order) == ['Constraints', 'Materials', 'Parameters'],
                'sheets', f'{what}: {order}')
    yes = 'rule_10_percent' in kw
    want = {
        'symmetry': kw['sym'], 'balance': bool(kw.get('bal')),
        'in-plane orthotropy': bool(kw.get('bal') or kw.get('ipo')),
        'out-of-plane orthotropy': bool(kw.get('oopo')),
        'damage tolerance': bool(kw.get('dam_tol')),
        '10% rule': yes, 'diso': bool(kw.get('diso')),
        'contig': bool(kw.get('contig')),
        'fibre orientations': ' '.join(str(int(a))
                                       for a in sorted(angles))}
    if kw.get('dam_tol'):
        want['dam_tol_rule'] = kw['dam_tol_rule']
    if kw.get('diso'):
        want['delta_angle'] = kw['delta_angle']
    if kw.get('contig'):
        want['n_contig'] = kw['n_contig']
    for name, key in (('0', 'percent_0'), ('45', 'percent_45'),
                      ('90', 'percent_90'), ('-45', 'percent_135')):
        want['percent_' + name] = kw[key] if yes else 0
    if yes:
        both = kw['percent_45'] + kw['percent_135']
        want['percent_+-45'] = max(both, kw.get('percent_45_135', 0))
    neg = LAYLA_NOT[n] or {}
    extra = {
        'No diso !': neg.get('diso'), 'delta_angle (no)':
            neg.get('diso') and neg['delta_angle'],
        'No contig !': neg.get('contig'),
        'n_contig (no)': neg.get('contig') and neg['n_contig'],
        'No balance !': neg.get('bal'),
        'No in-plane orthotropy !': neg.get('bal') or neg.get('ipo'),
        'No 10% rule !': neg.get('rule_10_percent')}
    for a, key in (('0', 'percent_0'), ('45', 'percent_45'),
                   ('90', 'percent_90'), ('-45', 'percent_135'),
                   ('+-45', 'percent_45_135')):
        extra[f'percent_{a} (no)'] = neg.get(key)
    sheet = table(got['Constraints'])
    want.update({k: v for k, v in extra.items() if v})
    ctx.require(not {k for k, v in extra.items() if not v} & set(sheet),
                'constraints-saved', f'{what}: {sheet}')
    same(ctx, 'constraints-saved', what, sheet, want)
    want = {
        'maximum number of iterations': given['n_outer_step'],
        'penalty for the 10% rule (ply counts)': yes and p == 1,
        'penalty for the 10% rule (lampam)': yes and p == 2,
        'penalty for balance': bool(kw.get('bal')) and p == 0,
        'penalty for in-plane orthotropy':
            bool(kw.get('bal') or kw.get('ipo')) and p == 1,
        'coeff for in-plane orthotropy/balance penalty':
            3.5 if kw.get('bal') or kw.get('ipo') else 0,
        'coeff for out-of plane orthotropy penalty':
            4.5 if kw.get('oopo') else 0,
        'coeff for the 10% rule penalty': 2.5 if yes else 0,
        'type of objective function': f'Norm {given["type_obj_func"]}',
        'minimum group size': given['group_size_min'],
        'maximum group size': ' '.join(
            str(int(v)) for v in par.group_size_max)}
    for name in ('global_node_limit', 'global_node_limit_p',
                 'local_node_limit', 'local_node_limit_final',
                 'repair_membrane_switch', 'repair_flexural_switch', 'p_A',
                 'n_D1', 'n_D2', 'n_D3'):
        want[name] = given[name]
    for k in range(12):
        want[f'first_level_sensitivities[{k + 1}]'] = \
            par.first_level_sensitivities[k]
        want[f'lampam_to_be_optimised[{k + 1}]'] = \
            par.lampam_to_be_optimised[k]
    same(ctx, 'parameters-saved', what, table(got['Parameters']), want)
    materials(ctx, what, got, mat)


def components(tier):
    run = FnComponent('run', cases_run, check_run)
    run.expect_outcomes = ('design', 'no design')
    return [run, FnComponent('set-up', cases_trip, check_trip),
            FnComponent('set-up-LAYLA', cases_layla, check_layla),
            FnComponent('tables', cases_tables, check_tables),
            FnComponent('append', cases_append, check_append),
            FnComponent('others', cases_fxi, check_fxi),
            FnComponent('inputs', cases_inputs, check_inputs),
            FnComponent('delete', cases_delete, check_delete)]
