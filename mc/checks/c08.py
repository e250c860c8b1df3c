"""C08: ply groups partition every panel within the group size limits."""
import itertools
import math
from fractions import Fraction
import numpy as np
from mc import build
from mc.core import FnComponent

ASSUMPTIONS = [
    'every panel has at least one more ply (pair of plies) than the covering '
    'plies',
    'a refused partition is one that raises',
]


def sizes(tier):
    top = 7 if tier == 'quick' else 10
    for mn in range(1, top):
        for mx in range(mn + 1, top + 1):
            yield mn, mx


def possible(n, mn, mx):
    return any(g*mn <= n <= g*mx for g in range(1, n + 1))


def cases_part(tier):
    top = 22 if tier == 'quick' else 40
    for sym in (True, False):
        for cov in (0, 1, 2):
            for mn, mx in sizes(tier):
                for n in range(2*cov + (2 if sym else 1), top + 1):
                    yield [sym, cov, mn, mx, n]


def check_part(case, ctx):
    from src.BELLA import divide_panels as dp
    from src.BELLA.ply_order import calc_ply_order
    sym, cov, mn, mx, n_max = case
    cons = build.constraints(sym=sym, covering=cov > 0, n_covering=cov or 1)
    cons.n_covering = cov
    par = build.parameters(cons, group_size_min=mn, group_size_max=mx)
    low = 2*cov + (2 if sym else 1)
    others = [n for n in range(low, n_max + 1)
              if not sym or n_max % 2 or n % 2 == 0]
    inner = n_max - 2*cov
    half = inner//2 if sym else inner
    want = possible(half, mn, mx)
    ctx.outcome('possible' if want else 'impossible')
    for group in [[n_max]] + [[n, n_max] for n in others if n < n_max] + \
            [[n, n + 2, n_max] for n in others if n + 2 < n_max][:6]:
        if sym and any(a % 2 > b % 2 for a, b in zip(group, group[1:])):
            continue
        # unordered panels, one of them twice
        for order in ([group[-1]] + group, group + [group[0]]):
            mp = build.multipanel(order, cons)
            mp.from_mp_to_blending_strip(cons)
            _, exc = ctx.attempt(dp.divide_panels, mp, par, cons)
            ctx.state(case, order)
            ctx.ok()
            if not ctx.require((exc is None) == want, 'partition-possible',
                               f'{case} {order}: {exc!r}') or not want:
                continue
            judge(ctx, mp, order, case, half)
            ply_order = ctx.call('ply-order', calc_ply_order, mp, cons)
            for p, o in zip(mp.reduced.panels, ply_order):
                n = p.n_plies
                if sym:
                    exp = list(range((n + 1)//2))
                else:
                    exp = [i//2 if i % 2 == 0 else n - 1 - i//2
                           for i in range(n)]
                ctx.require([int(v) for v in o] == exp, 'ply-order',
                            f'{case} {n}: {o}')


def judge(ctx, mp, order, case, half):
    sym, cov, mn, mx, n_max = case
    red = mp.reduced
    what = f'{case} {order}'
    sizes_ = [int(v) for v in red.n_plies_per_group]
    ctx.require(len(sizes_) == red.n_groups and sum(sizes_) == half
                and all(mn <= s <= mx for s in sizes_), 'group-sizes',
                f'{what}: {sizes_}')
    ctx.require(red.n_groups == min(g for g in range(1, half + 1)
                                    if g*mn <= half <= g*mx),
                'fewest-groups', f'{what}: {sizes_}')
    n_groups = red.n_groups
    for p in red.panels:
        plies = [int(v) for v in p.n_plies_per_group]
        drops = [float(v) for v in p.n_ply_drops]
        n_in = (p.n_plies//2 if sym else p.n_plies) - (cov if sym else 2*cov)
        ctx.require(len(plies) == n_groups and sum(plies) == n_in
                    and min(plies) >= 0, 'panel-group-sizes',
                    f'{what} panel of {p.n_plies}: {plies}')
        ctx.require([s - d for s, d in zip(sizes_, drops)] == plies
                    and min(drops) >= 0, 'panel-ply-drops',
                    f'{what} panel of {p.n_plies}: {drops}')
        # (a mid-plane ply of the thickest panel counts for half a drop)
        total = Fraction(n_max - p.n_plies + p.n_plies % 2, 2) if sym \
            else half - n_in
        share = [Fraction(total*s)/half for s in sizes_]
        ctx.require(all(abs(d - s) < 1 + 1e-9 for d, s in zip(drops, share)),
                    'ply-drops-spread', f'{what} panel of {p.n_plies}: '
                    f'{drops}')
        exact = [math.floor(s) for s in share]
        if not (sym and n_max % 2) and \
                all(s.denominator != 1 for s in share if s):
            extra = [d - e for d, e in zip(drops, exact)]
            left = [s for s, e in zip(sizes_, extra) if e == 0]
            got = [s for s, e in zip(sizes_, extra) if e == 1]
            ctx.require(not (left and got and min(got) < max(left)),
                        'ply-drops-in-larger-groups',
                        f'{what} panel of {p.n_plies}: {drops} of {sizes_}')
            ctx.require(not any(
                sizes_[i] == sizes_[j] and extra[i] < extra[j]
                for i in range(n_groups) for j in range(i + 1, n_groups)),
                        'ply-drops-away-from-middle',
                        f'{what} panel of {p.n_plies}: {drops} of {sizes_}')
        # each group is a block, the blocks follow each other
        first = [int(v) for v in p.n_first_plies]
        if sym:
            seq = list(range(n_groups))
        else:
            seq = list(range(0, n_groups, 2)) + \
                list(range(1, n_groups, 2))[::-1]
        pos = cov
        for g in seq:
            ctx.require(first[g] == pos, 'first-plies',
                        f'{what} panel of {p.n_plies}: {first} for {plies}')
            pos += plies[g]
    for g in range(n_groups):
        got = [int(v) for v in mp.calc_ply_drops(g)]
        ctx.require(got == [int(p.n_ply_drops[g]) for p in red.panels],
                    'ply-drops-of-step', f'{what} group {g}: {got}')


# ------------------------------------------------------------ forbidden counts
def cases_forb(tier):
    for sym in (True, False):
        for cov in (0, 1, 2):
            for mn, mx in sizes(tier):
                for lo, hi in ((1, 40), (7, 23), (12, 12)):
                    yield [sym, cov, mn, mx, lo, hi]


def check_forb(case, ctx):
    from src.BELLA.divide_panels import forbidden_ply_counts
    sym, cov, mn, mx, lo, hi = case
    cons = build.constraints(sym=sym, covering=cov > 0, n_covering=cov or 1)
    cons.n_covering = cov
    cons.n_plies_min, cons.n_plies_max = lo, hi
    par = build.parameters(cons, group_size_min=mn, group_size_max=mx)
    got = [int(v) for v in ctx.call('forbidden', forbidden_ply_counts, cons,
                                    par)]
    ctx.state(case)
    ctx.ok()

    def inner(n):
        return (n - 2*cov)//2 if sym else n - 2*cov
    want = [n for n in range(lo, hi + 1)
            if inner(n) < 0 or inner(n) > 0
            and not possible(inner(n), mn, mx)]
    got = [n for n in got if inner(n) != 0]
    ctx.require(got == want, 'forbidden-ply-counts', f'{case}: {got}/{want}')
    ctx.outcome('some' if want else 'none')


# ----------------------------------------------------------------------- LAYLA
def cases_layla(tier):
    top = 30 if tier == 'quick' else 60
    for sym in (True, False):
        for mn, mx in sizes(tier):
            for mx2 in (mx, mx + 2):
                for n in range(2 if sym else 1, top + 1):
                    yield [sym, mn, mx, mx2, n]


def check_layla(case, ctx):
    from src.LAYLA_V02.constraints import Constraints
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.targets import Targets
    from src.LAYLA_V02.ply_order import calc_ply_order, calc_levels
    from src.LAYLA_V02.divide_laminate_sym import divide_laminate_sym
    from src.LAYLA_V02.divide_laminate_asym import divide_laminate_asym
    sym, mn, mx, mx2, n = case
    cons = Constraints(sym=sym)
    par = Parameters(constraints=cons, n_outer_step=2, group_size_min=mn,
                     group_size_max=np.array([mx, mx2]))
    targ = Targets(n_plies=n)
    half = n//2 if sym else n
    for step, top in enumerate((mx, mx2)):
        fun = divide_laminate_sym if sym else divide_laminate_asym
        res, exc = ctx.attempt(fun, par, targ, step)
        ctx.state(case, step)
        ctx.ok()
        want = possible(half, mn, top)
        ctx.outcome('possible' if want else 'impossible')
        if not ctx.require((exc is None) == want, 'LAYLA-partition-possible',
                           f'{case}: {exc!r}') or not want:
            continue
        plies, first, n_groups = res
        plies = [int(v) for v in plies]
        base = list(plies)
        if sym and n % 2:
            base[-1] -= 1         # the mid-plane ply joins the last group
        ctx.require(len(plies) == n_groups and sum(base) == half
                    and all(mn <= s <= top for s in base)
                    and n_groups == min(g for g in range(1, half + 1)
                                        if g*mn <= half <= g*top),
                    'LAYLA-group-sizes', f'{case}: {plies}')
        seq = list(range(n_groups)) if sym else \
            list(range(0, n_groups, 2)) + list(range(1, n_groups, 2))[::-1]
        pos = 0
        for g in seq:
            ctx.require(int(first[g]) == pos, 'LAYLA-first-plies',
                        f'{case}: {first} for {plies}')
            pos += plies[g]
        order = [int(v) for v in calc_ply_order(cons, targ)]
        exp = list(range((n + 1)//2)) if sym else \
            [i//2 if i % 2 == 0 else n - 1 - i//2 for i in range(n)]
        ctx.require(order == exp, 'LAYLA-ply-order', f'{case}: {order}')
        levels = [[int(v) for v in g] for g in
                  ctx.call('levels', calc_levels, order, plies, n_groups)]
        it = iter(order)
        ctx.require(levels == [list(itertools.islice(it, s)) for s in plies],
                    'LAYLA-levels', f'{case}: {levels}')


def components(tier):
    a = FnComponent('partition', cases_part, check_part)
    a.expect_outcomes = ('possible', 'impossible')
    b = FnComponent('forbidden', cases_forb, check_forb)
    b.expect_outcomes = ('some', 'none')
    c = FnComponent('LAYLA-partition', cases_layla, check_layla)
    c.expect_outcomes = ('possible', 'impossible')
    return [a, b, c]
