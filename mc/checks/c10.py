"""C10: partial lamination parameters and moments of areas add up."""
import itertools
from fractions import Fraction
import numpy as np
from mc import ref, build
from mc.core import FnComponent

ASSUMPTIONS = [
    'lamination parameters are those of classical lamination theory with '
    'plies of equal thickness (src.CLA is not shipped: mc/standin is the '
    'reference)',
]


def bounds(n, k):
    return Fraction(2*k, n) - 1, Fraction(2*(k + 1), n) - 1


def signed(n, k):
    b, t = bounds(n, k)
    return [(t - b)/2, (t**2 - b**2)/2, (t**3 - b**3)/2]


def positive(n, k):
    "moments of |z|"
    b, t = bounds(n, k)
    if b*t >= 0:
        return [abs(t - b)/2, abs(t**2 - b**2)/2, abs(t**3 - b**3)/2]
    return [(abs(t) + abs(b))/2, (t**2 + b**2)/2, (abs(t)**3 + abs(b)**3)/2]


def expected(n, sym, order, which):
    """the moments of the plies in design order (a ply of a symmetric laminate
    stands for itself and its mirror image)"""
    fun = signed if which == 'signed' else positive
    rows = []
    for k in order:
        if not sym:
            rows.append(fun(n, k))
        elif n % 2 and k == n//2:
            rows.append(fun(n, k))
        else:
            a, b = fun(n, k), fun(n, n - 1 - k)
            rows.append([x + y for x, y in zip(a, b)])
    return rows


def close(a, rows, tol=1e-12):
    a = np.asarray(a, float)
    w = np.array([[float(v) for v in r] for r in rows])
    return a.shape == w.shape and bool((np.abs(a - w) < tol).all())


def factors(angles):
    t = np.deg2rad(np.array(angles, float))
    return np.array([np.cos(2*t), np.cos(4*t), np.sin(2*t), np.sin(4*t)]).T


ANGLES = [(0, 45, 90, -45), (0, 30, -30, 90), (-60, -45, 0, 45, 60, 90)]


# ---------------------------------------------------------------- ply moments
def cases_mom(tier):
    top = 30 if tier == 'quick' else 80
    for sym in (True, False):
        for n in range(1, top + 1):
            for k in range(len(ANGLES)):
                yield [sym, n, k]


def check_mom(case, ctx):
    from src.BELLA.moments_of_areas import calc_mom_of_areas
    from src.BELLA.lampam_matrix import calc_delta_lampams
    from src.BELLA.ply_order import calc_ply_order
    sym, n, k = case
    cons = build.constraints(sym=sym, set_of_angles=ANGLES[k])
    f = factors(cons.set_of_angles)
    plies = [n] if n < 3 else [n, n - 2]
    mp = build.multipanel(plies, cons)
    mp.from_mp_to_blending_strip(cons)
    orders = calc_ply_order(mp, cons)
    plus, areas = ctx.call('moments', calc_mom_of_areas, mp, cons, orders)
    deltas = ctx.call('delta-lampams', calc_delta_lampams, mp, cons, areas,
                      orders)
    ctx.state(case)
    for i, p in enumerate(mp.reduced.panels):
        order = [int(v) for v in orders[i]]
        exp = expected(p.n_plies, sym, order, 'signed')
        ctx.ok()
        ctx.require(close(areas[i], exp), 'ply-moments',
                    lambda: f'{case}, {p.n_plies} plies: {areas[i]}')
        pos = expected(p.n_plies, sym, order, 'positive')
        ctx.require(close(plus[i], pos)
                    and np.allclose(np.sum(plus[i], 0), 1),
                    'positive-ply-moments',
                    lambda: f'{case}, {p.n_plies} plies: {plus[i]}')
        e = np.array([[float(v) for v in r] for r in exp])
        want = np.concatenate([e[:, None, j:j + 1]*f[None] for j in range(3)],
                              axis=2)
        ctx.require(np.shape(deltas[i]) == want.shape
                    and np.allclose(deltas[i], want, atol=1e-12),
                    'ply-lampams', lambda: f'{case}, {p.n_plies} plies')


# ------------------------------------------------- stacks, and layouts of plies
def cases_stack(tier):
    top = 5 if tier == 'quick' else 6
    for sym in (True, False):
        for n in range(1, (2*top + 1 if sym else top + 1)):
            yield [sym, n]


def check_stack(case, ctx):
    "the partial lamination parameters of all stacks add up to their own"
    from src.BELLA.moments_of_areas import calc_mom_of_areas
    from src.BELLA.lampam_matrix import calc_delta_lampams
    from src.BELLA.ply_order import calc_ply_order
    sym, n = case
    cons = build.constraints(sym=sym)
    mp = build.multipanel([n], cons)
    mp.from_mp_to_blending_strip(cons)
    orders = calc_ply_order(mp, cons)
    _, areas = calc_mom_of_areas(mp, cons, orders)
    deltas = calc_delta_lampams(mp, cons, areas, orders)[0]
    order = [int(v) for v in orders[0]]
    for half in itertools.product(ref.A4, repeat=len(order)):
        stack = [None]*n
        for k, a in zip(order, half):
            stack[k] = a
            if sym:
                stack[n - 1 - k] = a
        lp = np.zeros(12)
        for j, a in enumerate(half):
            lp += deltas[j, cons.ind_angles_dict[a]]
        ctx.step()
        ctx.state(sym, stack)
        ctx.ok()
        ctx.require(np.allclose(lp, ref.lampam(stack), atol=1e-12),
                    'lampams-of-stack', lambda: f'{stack}: {lp}')


def layouts(n_max, n_min):
    for drop in itertools.combinations(range(n_max), n_max - n_min):
        yield [i not in drop for i in range(n_max)]


def cases_lay(tier):
    top = 7 if tier == 'quick' else 10
    for sym in (True, False):
        for a in range(1, top + 1):
            for b in range(1, a):
                yield [sym, a, b]


def check_lay(case, ctx):
    """the tables for a layout hold the values of the plies it keeps (pl
    columns in design order)"""
    from src.BELLA.moments_of_areas import (calc_mom_of_areas,
                                            calc_mom_of_areas2)
    from src.BELLA.lampam_matrix import (calc_delta_lampams,
                                         calc_delta_lampams2)
    from src.BELLA.ply_order import calc_ply_order
    sym, a, b = case
    cons = build.constraints(sym=sym)
    for odd in ((0, 1) if sym else (0,)):
        plies = [2*b + odd, 2*a + odd] if sym else [b, a]
        mp = build.multipanel(plies, cons)
        mp.from_mp_to_blending_strip(cons)
        orders = calc_ply_order(mp, cons)
        plus, areas = calc_mom_of_areas(mp, cons, orders)
        deltas = calc_delta_lampams(mp, cons, areas, orders)
        m = a + odd
        for keep in layouts(a, b):
            keep = keep + [True]*odd
            pdl = np.array([[i if v else -1 for i, v in enumerate(keep)],
                            list(range(m))])
            lay = np.array(pdl) if not sym else np.hstack(
                (pdl, np.flip(pdl[:, :a], axis=1)))
            got = ctx.call('moments-of-layout', calc_mom_of_areas2, mp, cons,
                           plus, lay, m)
            mat = ctx.call('lampams-of-layout', calc_delta_lampams2, mp, cons,
                           deltas, lay, m)
            ctx.state(case, keep)
            ctx.ok()
            for i in range(2):
                kept = [j for j in range(m) if pdl[i, j] != -1]
                run = np.zeros(3)
                want = np.zeros((m, 3))
                lam = np.zeros((m, 4, 12))
                c = 0
                for j in range(m):
                    if j in kept:
                        run = run + plus[i][c]
                        lam[j] = deltas[i][c]
                        c += 1
                    want[j] = run
                for q in range(3):
                    ctx.require(np.allclose(got[q][i], want[:, q], atol=1e-12),
                                'cumulated-moments',
                                lambda: f'{plies} {lay.tolist()} panel {i}: '
                                        f'{got[q][i]}')
                ctx.require(np.allclose(
                    np.transpose(mat[i], (1, 0, 2)), lam, atol=1e-12),
                    'lampam-matrix', lambda: f'{plies} {lay.tolist()}')


# ------------------------------------------------------------------------ LAYLA
def cases_layla(tier):
    top = 24 if tier == 'quick' else 50
    for sym in (True, False):
        for n in range(1, top + 1):
            yield [sym, n]


def check_layla(case, ctx):
    from src.LAYLA_V02.constraints import Constraints
    from src.LAYLA_V02.targets import Targets
    from src.LAYLA_V02.ply_order import calc_ply_order
    from src.LAYLA_V02.moment_of_areas import calc_mom_of_areas
    sym, n = case
    cons = Constraints(sym=sym)
    targ = Targets(n_plies=n)
    order = calc_ply_order(cons, targ)
    m = len(order)
    splits = [[m]] + [[a, m - a] for a in range(1, m)] + \
        [[1, m - 1 - c, c] for c in range(1, m - 1)]
    exp = expected(n, sym, [int(v) for v in order], 'signed')
    pos = np.array([[float(v) for v in r] for r in
                    expected(n, sym, [int(v) for v in order], 'positive')])
    for groups in splits:
        mom, cum, grp = ctx.call('LAYLA-moments', calc_mom_of_areas, cons,
                                 targ, order, np.array(groups))
        ctx.state(case, groups)
        ctx.ok()
        if sym:
            # (first moments of symmetric laminates are those of one half)
            ok = close(np.delete(mom, 1, 1), [[r[0], r[2]] for r in exp])
        else:
            ok = close(mom, exp)
        ctx.require(ok, 'LAYLA-ply-moments', f'{case}: {mom}')
        ctx.require(np.allclose(cum, np.cumsum(pos, 0), atol=1e-12),
                    'LAYLA-cumulated-moments', lambda: f'{case}: {cum}')
        start = np.cumsum([0] + groups)
        want = [pos[s:s + g].sum(0) for s, g in zip(start, groups)]
        ctx.require(np.allclose(grp, want, atol=1e-12),
                    'LAYLA-group-moments', lambda: f'{case} {groups}: {grp}')


# ------------------------------------- the stand-in against published results
def cases_rec(tier):
    import glob
    import os
    from mc.core import REPO
    for path in sorted(glob.glob(os.path.join(REPO, 'results', '**', '*.xlsx'),
                                 recursive=True)):
        if os.path.basename(path) != 'Summary.xlsx':  # (edited by hand)
            yield os.path.relpath(path, REPO)


def check_rec(case, ctx):
    """the reference definition of the lamination parameters (and the stand-in
    for the missing src.CLA) agrees with those the authors published with
    their results"""
    import os
    import pandas as pd
    from mc.core import REPO
    from src.CLA.lampam_functions import calc_lampam
    for sheet, df in pd.read_excel(os.path.join(REPO, case),
                                   sheet_name=None).items():
        cols = [f'lampam[{i}]' for i in range(1, 13)]
        if 'stacking sequences' not in df or any(c not in df for c in cols):
            continue
        for _, row in df.iterrows():
            if not isinstance(row['stacking sequences'], str) \
                    or not row['stacking sequences'][-1:].isdigit():
                continue    # (a blank row, or the column titles repeated)
            ss = [int(float(v)) for v in row['stacking sequences'].split()]
            lp = row[cols].to_numpy(float)
            ctx.state(ss)
            ctx.ok()
            ctx.require(np.allclose(ref.lampam(ss), lp, atol=1e-9)
                        and np.allclose(calc_lampam(np.array(ss)), lp,
                                        atol=1e-9),
                        'published-lampams',
                        lambda: f'{case} {sheet} {ss}: {lp.tolist()}')
            ctx.outcome('stacks')


def components(tier):
    out = []
    for name, cases, check, block in (
            ('ply-moments', cases_mom, check_mom, 4),
            ('stacks', cases_stack, check_stack, 1),
            ('layouts', cases_lay, check_lay, 1),
            ('LAYLA-moments', cases_layla, check_layla, 1),
            ('published-results', cases_rec, check_rec, 1)):
        c = FnComponent(name, cases, check)
        c.block = block
        out.append(c)
    return out
