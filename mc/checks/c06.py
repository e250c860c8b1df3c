"""C06: stacking sequence tables, stacks and ply-drop layouts convert into
each other without loss."""
import itertools
import numpy as np
from mc import ref, build
from mc.core import FnComponent

ASSUMPTIONS = [
    'blended structures: the plies of a panel are a subset of those of every '
    'thicker panel, all plies of a column share one orientation',
    'ply positions count from 1 and are distinct',
]


def layouts(n_panels, n_cols):
    "all nested layouts (rows thinnest first): column j covers panels >= t_j"
    for ts in itertools.product(range(n_panels), repeat=n_cols):
        yield [[j if t <= r else -1 for j, t in enumerate(ts)]
               for r in range(n_panels)]


def guides(n):
    "guide stacks that tell all plies of an angle set apart"
    out = [[ref.A4[(i*k + s) % 4] for i in range(n)]
           for k, s in ((1, 0), (3, 2), (2, 1))]
    out.append([ref.A8[i % 8] for i in range(n)])
    return out


def cases_conv(tier):
    top = {1: 6, 2: 7, 3: 5, 4: 4} if tier == 'quick' else {
        1: 7, 2: 9, 3: 7, 4: 6}
    for p in top:
        for n in range(1, top[p] + 1):
            for i in range(4):
                yield [p, n, i]


def check_conv(case, ctx):
    from src.BELLA import format_pdl as fp
    p, n, i = case
    guide = guides(n)[i]
    for pdl in layouts(p, n):
        if any(v == -1 for v in pdl[-1]) or not any(v != -1 for v in pdl[0]):
            continue
        ctx.state(p, n, pdl)
        arr = np.array(pdl)
        sst_want = [[guide[j] if v != -1 else -1 for j, v in enumerate(row)]
                    for row in pdl]
        ss_want = [[a for a in row if a != -1] for row in sst_want]
        sst = ctx.call('guide-to-table', fp.convert_ss_guide_to_sst,
                       np.array(guide), arr)
        ctx.require(np.array_equal(sst, sst_want), 'guide-to-table',
                    lambda: f'{guide} {pdl}: {sst.tolist()}')
        ss = ctx.call('table-to-stacks', fp.convert_sst_to_ss, sst)
        ctx.require([list(s) for s in ss] == ss_want, 'table-to-stacks',
                    lambda: f'{sst_want}: {ss}')
        back = ctx.call('stacks-to-table', fp.convert_ss_to_sst, ss, arr)
        ctx.require(np.array_equal(back, sst_want), 'stacks-to-table',
                    lambda: f'{ss_want} {pdl}: {back.tolist()}')
        # list of rows of a table
        ss = ctx.call('table-to-stacks', fp.convert_sst_to_ss,
                      [np.array(r) for r in sst_want])
        ctx.require([list(s) for s in ss] == ss_want, 'table-to-stacks',
                    lambda: f'{sst_want} as a list: {ss}')
        # one panel redesigned: the plies of that panel change everywhere
        for ind_ref in range(p):
            new = [{0: 60, 45: -60, 90: 30, -45: 15, 30: 0, -30: 45,
                    60: 90, -60: -45}[a] for a in ss_want[ind_ref]]
            want = [row[:] for row in sst_want]
            k = 0
            for j in range(n):
                if pdl[ind_ref][j] != -1:
                    for r in range(p):
                        if want[r][j] != -1:
                            want[r][j] = new[k]
                    k += 1
            before = [np.array(s) for s in ss_want]
            got = ctx.call('reference-panel', fp.convert_ss_ref_to_reduced_sst,
                           np.array(new), ind_ref, arr, before)
            ctx.require(np.array_equal(got, want), 'reference-panel',
                        lambda: f'{new} in panel {ind_ref} of {sst_want}: '
                                f'{got.tolist()}')
            ctx.require([list(s) for s in before] == ss_want
                        and arr.tolist() == pdl, 'inputs-unchanged', pdl)
        ctx.ok()
        ctx.sample({'layout': pdl, 'table': sst_want})


# ----------------------------------------------------------------- positions
def cases_pos(tier):
    for n in range(1, (7 if tier == 'quick' else 9) + 1):
        for bits in itertools.product((0, 1), repeat=n):
            yield list(bits)


def check_pos(case, ctx):
    from src.BELLA import format_pdl as fp
    row = [i if b else -1 for i, b in enumerate(case)]
    n = len(row)
    inside = [i + 1 for i in range(n) if row[i] != -1]   # table positions
    m = len(inside)
    size = 4 if n <= 6 else 3
    for data in (np.array(row), row):
        for k in range(0, min(m, size) + 1):
            for pos in itertools.permutations(range(1, m + 1), k):
                want = [inside[q - 1] for q in pos]
                for form in (list(pos), np.array(pos, int)):
                    got = ctx.call('panel-to-table',
                                   fp.pos_in_ss_ref_to_pos_in_sst, form, data)
                    ctx.require(list(got) == want, 'panel-to-table',
                                lambda: f'{pos} in {row}: {list(got)}')
                ctx.state(case, pos)
        for k in range(0, min(n, size) + 1):
            for pos in itertools.permutations(range(1, n + 1), k):
                want = [inside.index(q) + 1 if q in inside else 1e10
                        for q in pos]
                got = ctx.call('table-to-panel',
                               fp.pos_in_sst_to_pos_in_panel_2, list(pos),
                               data)
                ctx.require([float(g) for g in got]
                            == [float(w) for w in want], 'table-to-panel',
                            lambda: f'{pos} in {row}: {list(got)}')
                if list(pos) == sorted(pos):
                    want = [inside.index(q) + 1 for q in pos if q in inside]
                    got = ctx.call('table-to-panel-ordered',
                                   fp.pos_in_sst_to_pos_in_panel, list(pos),
                                   data)
                    ctx.require([int(g) for g in got] == want,
                                'table-to-panel-ordered',
                                lambda: f'{pos} in {row}: {list(got)}')
        ctx.ok()


# ----------------------------------------------------------- reduce and extend
def cases_red(tier):
    for n in range(1, (5 if tier == 'quick' else 6) + 1):
        for counts in itertools.product((2, 3, 4, 6), repeat=n):
            yield list(counts)


def check_red(case, ctx):
    from src.BELLA import format_pdl as fp
    cons = build.constraints()
    mp = build.multipanel(case, cons)
    ctx.call('strip', mp.from_mp_to_blending_strip, cons)
    uniq = sorted(set(case))
    guide = [ref.A8[i] for i in range(8)]
    table = {u: [guide[j] if j < u else -1 for j in range(6)] for u in uniq}
    red_tab = np.array([table[u] for u in uniq])
    full_tab = np.array([table[c] for c in case])
    red_list = [np.array(guide[:u]) for u in uniq]
    full_list = [np.array(guide[:c]) for c in case]
    ctx.state(case)
    for red, full, what in ((red_tab, full_tab, 'table'),
                            (red_list, full_list, 'stacks'),
                            (np.array(uniq, float), np.array(case, float),
                             'values')):
        ext = ctx.call('extend', fp.extend_after_guide_based_blending, mp,
                       red)
        same = len(ext) == len(full) and all(
            np.array_equal(a, b) for a, b in zip(ext, full))
        ctx.require(same and isinstance(ext, type(red)), 'extend',
                    lambda: f'{case} {what}: {ext}')
        back = ctx.call('reduce', fp.reduce_for_guide_based_blending, mp, ext)
        same = len(back) == len(red) and all(
            np.array_equal(a, b) for a, b in zip(back, red))
        ctx.require(same and isinstance(back, type(red)), 'reduce',
                    lambda: f'{case} {what}: {back}')
        ctx.ok()


def components(tier):
    a = FnComponent('conversions', cases_conv, check_conv)
    a.block = 1
    return [a, FnComponent('positions', cases_pos, check_pos),
            FnComponent('reduce-extend', cases_red, check_red)]
