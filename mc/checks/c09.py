"""C09: initial ply-drop layouts are valid, distinct and the best ones tried.

The generator draws random samples until a time limit.  Both are put under the
control of the explorer: random.sample returns every possible answer in turn
(depth-first over the sequence of draws) and the clock advances by one at each
reading, so that the limit is a number of draws."""
import itertools
import os
import random
import shutil
import tempfile
import time
from contextlib import contextmanager
from fractions import Fraction
import numpy as np
from mc import build
from mc.checks.c04 import boundary_penalty, missing
from mc.core import FnComponent

ASSUMPTIONS = [
    'random.sample returns any subset of the requested size; time.time '
    'advances by one unit per call',
    'the order of the elements random.sample returns is not explored '
    '(the layouts depend on the set only)',
]


class Explorer:
    """depth-first exploration of all the answers of random.sample"""

    def __init__(self, max_runs=None):
        self.prefix, self.trace = [], []
        self.ticks = 0

    def sample(self, population, k, counts=None):
        items = list(population)
        if k < 0 or k > len(items):
            raise ValueError('Sample larger than population or is negative')
        options = list(itertools.combinations(items, int(k)))
        pos = len(self.trace)
        choice = self.prefix[pos] if pos < len(self.prefix) else 0
        if choice >= len(options):
            raise AssertionError('divergence while replaying a prefix')
        self.trace.append((choice, len(options)))
        return list(options[choice])

    def now(self):
        self.ticks += 1
        return float(self.ticks)

    @contextmanager
    def installed(self):
        saved = random.sample, time.time, time.perf_counter, time.monotonic
        random.sample = self.sample
        time.time = time.perf_counter = time.monotonic = self.now
        try:
            yield
        finally:
            (random.sample, time.time, time.perf_counter,
             time.monotonic) = saved

    def runs(self):
        "yields once per execution; the body of the loop runs the code"
        while True:
            self.trace, self.ticks = [], 0
            yield
            while self.trace and self.trace[-1][0] + 1 == self.trace[-1][1]:
                self.trace.pop()
            if not self.trace:
                return
            self.prefix = [c for c, _ in self.trace]
            self.prefix[-1] += 1


class Spy:
    "records the calls of a function of a module"

    def __init__(self, module, name):
        self.module, self.name = module, name
        self.real = getattr(module, name, None)
        self.calls = []

    def __enter__(self):
        if self.real is not None:
            def wrapped(*args, **kwargs):
                res = self.real(*args, **kwargs)
                self.calls.append((args, kwargs, res))
                return res
            setattr(self.module, self.name, wrapped)
        return self

    def __exit__(self, *exc):
        if self.real is not None:
            setattr(self.module, self.name, self.real)


def pattern(layout):
    return tuple(tuple(int(v) != -1 for v in row) for row in layout)


def penalty(pat, pairs, min_drop, before=None, after=None):
    tot = Fraction(0)
    for a, b in pairs:
        rows = []
        for i in (a, b):
            row = [0 if v else -1 for v in pat[i]]
            rows.append((list(before[i]) if before else []) + row
                        + (list(after[i]) if after else []))
        tot += boundary_penalty(rows[0], rows[1], min_drop)
    return tot


def nested_patterns(n_max, drops, fixed=()):
    "all the nested patterns with the given drops per panel"
    levels = sorted(set(drops), reverse=True)
    free = [i for i in range(n_max) if i not in fixed]

    def rec(k, dropped):
        if k == len(levels):
            yield ()
            return
        for sub in itertools.combinations(dropped, levels[k]):
            for rest in rec(k + 1, sub):
                yield (sub,) + rest
    for subs in rec(0, tuple(free)):
        by = dict(zip(levels, subs))
        yield tuple(tuple(i not in by[d] for i in range(n_max))
                    for d in drops)


def best_kept(tried, n_wanted):
    """(distinct perfect layouts in order, penalties of the best distinct
    imperfect ones) among those tried [(pattern, penalty)]"""
    perfect, imperfect = [], {}
    for pat, pen in tried:
        if pen == 0:
            if pat not in perfect:
                perfect.append(pat)
        else:
            imperfect.setdefault(pat, pen)
    perfect = perfect[:n_wanted]
    rest = sorted(imperfect.values())[:n_wanted - len(perfect)]
    return perfect, rest, imperfect


# ------------------------------------------------------------------ one group
def cases_group(tier):
    top = 5 if tier == 'quick' else 6
    for n_max in range(1, top + 1):
        for m in (1, 2, 3):
            for drops in itertools.product(range(n_max + 1), repeat=m):
                if sorted(drops, reverse=True) != list(drops):
                    continue
                if drops[-1] != 0 and m > 1:
                    continue
                for md in (1, 2, 3):
                    yield [n_max, list(drops), md, 1, 1, 'plain']
                yield [n_max, list(drops), 2, 1, 1, 'before']
                yield [n_max, list(drops), 2, 1, 1, 'after']
                yield [n_max, list(drops), 2, 1, 1, 'last']
                for mids in range(2**m):
                    mid = [mids >> i & 1 for i in range(m)]
                    if any(mid) and mid == sorted(mid):
                        yield [n_max, list(drops), 2, 1, 1,
                               'mid' + ''.join(map(str, mid))]
                for cov in ('top', 'bottom', 'both'):
                    room = n_max - 1 - (cov == 'both')
                    if max(drops) <= room:
                        yield [n_max, list(drops), 2, 1, 1, cov]
    for n_max, drops in ((2, [1, 0]), (3, [1, 0]), (3, [2, 0]), (3, [2, 1, 0]),
                         (4, [2, 0])) + \
            (((4, [2, 1, 0]), (5, [2, 0])) if tier != 'quick' else ()):
        for limit in (2, 3) + ((4,) if n_max < 4 else ()):
            for wanted in (1, 2, 3):
                for md in (1, 2, 9):
                    yield [n_max, drops, md, wanted, limit, 'plain']
                yield [n_max, drops, 3, wanted, limit, 'last']


def check_group(case, ctx):
    from src.BELLA import pdl_group
    n_max, drops, md, wanted, limit, mode = case
    m = len(drops)
    mids = [int(c) for c in mode[3:]] if mode.startswith('mid') else None
    sym = mode == 'last' or mids is not None
    cons = build.constraints(sym=sym, pdl_spacing=True, min_drop=md)
    plies = [2*(n_max - d) + (mids[i] if mids else 0) + 20
             for i, d in enumerate(drops)]
    par = build.parameters(cons, time_limit_group_pdl=limit)
    # a strip with (at least) one panel per distinct thickness
    plies = [p + 2*i for i, p in enumerate(plies)] if not mids else \
        [20 + 2*i + mids[i] for i in range(m)]
    mp = build.multipanel(plies, cons)
    mp.from_mp_to_blending_strip(cons)
    mp.n_plies_max = max(plies)
    obj = build.obj_function(cons)
    pairs = [tuple(int(v) for v in b) for b in mp.reduced.boundaries]
    before = after = None
    if mode == 'before':
        before = [[0, 1] if i == m - 1 else [0, -1] for i in range(m)]
    if mode == 'after':
        after = [[0, 1, 2] if i == m - 1 else [0, -1, 1] for i in range(m)]
    kw = dict(covering_top=mode in ('top', 'both'),
              covering_bottom=mode in ('bottom', 'both'),
              last_group=sym)
    if before:
        kw['pdl_before'] = np.array(before)
    if after:
        kw['pdl_after'] = np.array(after)
    if mids:
        kw['has_middle_ply'] = True
        kw['middle_ply_indices'] = np.array(
            [p//2 + 1 if mids[i] else 0 for i, p in enumerate(plies)])
    fixed = ([0] if kw['covering_top'] else []) + \
        ([n_max - 1] if kw['covering_bottom'] else [])

    def full(pat):
        return tuple(row + (bool(mids[i]),) for i, row in enumerate(pat)) \
            if mids else pat
    allowed = {full(p) for p in nested_patterns(n_max, drops, fixed)}

    def pen(pat):
        if sym:
            aft = [[0 if v else -1 for v in
                    (row[:-1] if mids else row)[::-1]] for row in pat]
            return penalty(pat, pairs, md, None, aft)
        return penalty(pat, pairs, md, before, after)
    reached = set()
    exp = Explorer()
    drawn = 0
    with exp.installed():
        for _ in exp.runs():
            with Spy(pdl_group, 'calc_penalty_spacing') as spy:
                res = ctx.call(
                    'group', pdl_group.randomly_pdl_guide,
                    boundaries=mp.reduced.boundaries,
                    n_ply_drops=np.array(drops, dtype='int16'), n_max=n_max,
                    parameters=par, obj_func_param=obj, constraints=cons,
                    multipanel=mp, n_pdl_max=wanted, **kw)
            drawn = max(drawn, len(exp.trace))
            ctx.ok()
            got = [pattern(x) for x in res]
            ctx.state(case, got)
            what = f'{case}: {[np.array(x).tolist() for x in res]}'
            if not ctx.require(len(got) >= 1 and all(
                    g in allowed for g in got), 'valid-group-layouts', what):
                return
            ctx.require(all(
                [int(v) for v in row if v != -1]
                == list(range(sum(v != -1 for v in row)))
                for x in res for row in x), 'plies-numbered', what)
            ctx.require(len(set(got)) == len(got), 'distinct-layouts', what)
            reached.update(got)
            if not spy.calls:
                continue
            tried = []
            for args, kwargs, val in spy.calls:
                pdl = kwargs.get('pdl', args[0] if args else None)
                pat = pattern(pdl)
                if not ctx.require(pat in allowed, 'valid-group-layouts',
                                   f'{case}: {pdl}'):
                    return
                ctx.require(abs(float(pen(pat)) - val) < 1e-9,
                            'layout-penalty', lambda: f'{case}: {pat} {val} '
                            f'instead of {float(pen(pat))}')
                tried.append((pat, pen(pat)))
            n_all = 1
            for d in set(drops):
                n_all *= len(list(itertools.combinations(range(n_max), d)))
            perfect, rest, _ = best_kept(tried, min(wanted, n_all))
            n = len(perfect)
            ctx.outcome(f'perfect-{n}-imperfect-{len(got) - n}')
            ctx.require(got[:n] == perfect
                        and [pen(g) for g in got[n:]] == rest,
                        'best-layouts-kept', lambda: f'{what}, perfect '
                        f'{perfect}, tried {[float(p) for _, p in tried]}')
    if drawn:
        # (with one iteration, the only layout drawn is the one returned)
        ctx.require(limit > 1 or reached == allowed, 'every-layout-possible',
                    f'{case}: {allowed - reached}')


# ------------------------------------------------------------ whole structures
def cases_ini(tier):
    sets = [[6, 8], [7, 9], [6, 7], [8, 9], [6, 8, 10], [6, 8, 9], [8, 8],
            [4, 10], [8, 10, 12]]
    if tier != 'quick':
        sets += [[6, 12], [7, 9, 11], [6, 9, 11], [8, 14], [6, 8, 9, 11]]
    for plies in sets:
        for cov in (0, 1, 2):
            for gmin, gmax in ((1, 2), (2, 4), (3, 6)):
                yield [True, plies, cov, gmin, gmax, 1, 1]
    for plies in ([4, 5], [4, 6], [5, 6, 7], [6, 8]) + \
            (([4, 8], [5, 8, 9]) if tier != 'quick' else ()):
        for cov in (0, 1, 2):
            for gmin, gmax in ((1, 3), (2, 4), (3, 7)):
                yield [False, plies, cov, gmin, gmax, 1, 1]
    for plies, cov in (([6, 8], 0), ([4, 8], 1), ([6, 7], 0), ([4, 6, 8], 0)) \
            + ((([8, 10], 0), ([6, 10], 0)) if tier != 'quick' else ()):
        for wanted in (1, 2, 3):
            for limit in (2, 3):
                yield [True, plies, cov, 1, 6, wanted, limit]
                yield [True, plies, cov, 1, 6, wanted, limit, 9]
                if tier != 'quick' and limit == 2:
                    yield [False, plies, cov, 2, 4, wanted, limit]


def check_ini(case, ctx):
    from src.BELLA import pdl_ini
    from src.BELLA.divide_panels import divide_panels
    sym, plies, cov, gmin, gmax, wanted, limit = case[:7]
    drop = case[7] if len(case) > 7 else 2
    cons = build.constraints(sym=sym, pdl_spacing=True, min_drop=drop,
                             covering=cov > 0, n_covering=cov or 1,
                             dam_tol=cov == 2)
    cons.n_covering = cov
    par = build.parameters(
        cons, group_size_min=gmin, group_size_max=gmax, n_ini_ply_drops=wanted,
        time_limit_group_pdl=1, time_limit_all_pdls=1)
    order = plies[::-1] + plies[:1]
    mp = build.multipanel(order, cons)
    mp.from_mp_to_blending_strip(cons)
    _, exc = ctx.attempt(divide_panels, mp, par, cons)
    if exc is not None:
        ctx.outcome('no-partition')
        return
    obj = build.obj_function(cons)
    uniq = sorted(set(plies))
    m, n_max = len(uniq), max(plies)
    pairs = [tuple(int(v) for v in b) for b in mp.reduced.boundaries]
    weight = {b: mp.reduced.boundary_weights[b] for b in pairs}
    groups = [int(v) for v in mp.reduced.n_plies_per_group]
    first = [int(v) for v in mp.reduced.n_first_plies]
    # an enumeration of the reachable layouts is only done when it is small
    from math import comb
    size = 1
    for g, s in enumerate(groups):
        d = sorted({int(v) for v in mp.calc_ply_drops(g)}, reverse=True)
        k = s
        for x in d:
            size *= comb(k, x)
            k = x
    if size**limit > (3000 if wanted > 1 or limit > 1 else 20000):
        ctx.outcome('too-many')
        return

    def valid(pdl):
        pat = pattern(pdl)
        if len(pat) != m or any(len(r) != n_max for r in pat):
            return 'shape'
        for i, row in enumerate(pat):
            if sum(row) != uniq[i]:
                return 'ply counts'
            if i and any(a and not b for a, b in zip(pat[i - 1], row)):
                return 'not nested'
            if cov and not (all(row[:cov]) and all(row[-cov:])):
                return 'covering plies dropped'
            if sym and row != row[::-1]:
                return 'not symmetric'
            for g, s in enumerate(groups):
                kept = sum(row[first[g]:first[g] + s])
                if kept != int(mp.reduced.panels[i].n_plies_per_group[g]):
                    return f'plies of group {g}'
        return None

    def pen(pat):
        return sum(weight[p]*penalty(pat, [p], drop) for p in pairs)
    reached = set()
    par.time_limit_all_pdls = limit if limit == 1 else \
        limit*(2*len(groups) + 1) - 1
    exp = Explorer()
    drawn = 0
    with exp.installed():
        for _ in exp.runs():
            with Spy(pdl_ini, 'create_initial_pdl') as spy:
                res = ctx.call('initial-layouts', pdl_ini.create_initial_pdls,
                               mp, cons, par, obj)
            drawn = max(drawn, len(exp.trace))
            ctx.ok()
            got = [pattern(x) for x in res]
            ctx.state(case, got)
            what = f'{case}: {[np.array(x).tolist() for x in res]}'
            bad = [valid(x) for x in res]
            if not ctx.require(got and not any(bad), 'valid-layouts',
                               f'{what} {bad}'):
                return
            ctx.require(len(set(got)) == len(got), 'distinct-layouts', what)
            _, exc = ctx.attempt(pdl_ini.check_pdls_ini, mp, list(res))
            ctx.require(exc is None, 'layouts-accepted', f'{what}: {exc!r}')
            reached.update(got)
            if not spy.calls:
                continue
            tried = [(pattern(c[2]), pen(pattern(c[2]))) for c in spy.calls]
            perfect, rest, _ = best_kept(tried, wanted)
            n = len(perfect)
            ctx.outcome(f'perfect-{n}-imperfect-{len(got) - n}')
            ctx.require(got[:n] == perfect
                        and [pen(g) for g in got[n:]] == rest,
                        'best-layouts-kept', lambda: f'{what}, perfect '
                        f'{perfect}, tried {[float(p) for _, p in tried]}')
    if drawn and limit == 1:
        ctx.require(len(reached) == size, 'every-layout-possible',
                    f'{case}: {len(reached)} of {size}')


# ---------------------------------------------------------------------- tools
def cases_tools(tier):
    top = 5 if tier == 'quick' else 7
    for n in range(1, top + 1):
        for m in (1, 2, 3):
            for drops in itertools.product(range(n + 1), repeat=m):
                if sorted(drops, reverse=True) == list(drops):
                    yield [n, list(drops)]


def check_tools(case, ctx):
    from src.BELLA import pdl_tools
    from src.BELLA.pdl_ini import check_pdls_ini
    n, drops = case
    m = len(drops)
    for pat in nested_patterns(n, drops):
        lists = [[i for i in range(n) if not row[i]] for row in pat]
        got = ctx.call('format', pdl_tools.format_ply_drops, lists, n)
        ctx.state(case, pat)
        ctx.ok()
        want = [[i if row[i] else -1 for i in range(n)] for row in pat]
        ctx.require(np.array(got).tolist() == want, 'format-ply-drops',
                    f'{lists} {n}: {got}')
        got = ctx.call('format', pdl_tools.format_ply_drops2, np.array(want))
        want2 = [[sum(row[:i]) if row[i] else -1 for i in range(n)]
                 for row in pat]
        ctx.require(np.array(got).tolist() == want2, 'format-ply-drops2',
                    f'{want}: {got}')
        levels = sorted(set(drops))
        rows = [want[drops.index(d)] for d in levels]
        for per_panel in (list(drops), drops[::-1], drops + drops[:1]):
            got = ctx.call(
                'per-boundary', pdl_tools.ply_drops_at_each_boundaries,
                np.array(rows), np.array(levels),
                {d: i for i, d in enumerate(levels)}, np.array(per_panel))
            ctx.require(np.array(got).tolist()
                        == [want[drops.index(d)] for d in per_panel],
                        'per-panel', f'{rows} {per_panel}: {got}')
    if m < 2:
        return
    # deletion of the layouts that break the ply-drop spacing rule
    pats = list(nested_patterns(n, drops))[:400]
    arr = np.array([[[i if v else -1 for i, v in enumerate(row)]
                     for row in pat] for pat in pats])
    pairs = np.array([[i, i + 1] for i in range(m - 1)])
    before = np.array([[0, -1, 1]]*m)
    # (a group whose last ply stops at the first panel)
    step = np.array([[0, -1]] + [[0, 1]]*(m - 1))
    for md in (1, 2, 3):
        for bef, aft in ((None, None), (before, None), (None, before),
                         (before, before), (step, before), (step, step)):
            b = bef.tolist() if bef is not None else [[1]]*m
            a = aft.tolist() if aft is not None else [[1]]*m
            if n < m and (bef is None or aft is None):
                continue       # (the default needs m rows)
            for active in (True, False):
                got = ctx.call('rules', pdl_tools.ply_drops_rules, arr, md,
                               pairs, bef, aft, active)

                def keep(pat):
                    for i, j in pairs:
                        r1 = b[i] + [0 if v else -1 for v in pat[i]] + a[i]
                        r2 = b[j] + [0 if v else -1 for v in pat[j]] + a[j]
                        both = [(x, y) for x, y in zip(r1, r2)
                                if x != -1 or y != -1]
                        if missing([x for x, _ in both], md) \
                                or missing([y for _, y in both], md):
                            return False
                    return True
                want = [p for p in pats if not active or keep(p)]
                ctx.require([pattern(x) for x in got] == want, 'layout-filter',
                            lambda: f'{case} {md} {bef} {aft} {active}: '
                                    f'{len(got)} / {len(want)}')
    del check_pdls_ini


def cases_sst(tier):
    top = 6 if tier == 'quick' else 8
    for sym in (True, False):
        for n in range(2, top + 1):
            for cov in (0, 1, 2):
                if n > (cov if sym else 2*cov):
                    for mid in ((0, 1) if sym else (0,)):
                        yield [sym, n, cov, mid]


def check_sst(case, ctx):
    """a layout recovered from a stacking sequence table is the layout of the
    table, and is accepted / refused as its ply counts say"""
    from src.BELLA import pdl_tools
    from src.BELLA.pdl_ini import check_pdls_ini
    sym, n, cov, mid = case
    cons = build.constraints(sym=sym, covering=cov > 0, n_covering=cov or 1,
                             dam_tol=cov == 2)
    cons.n_covering = cov
    inner = n - (cov if sym else 2*cov)
    for d in range(inner + 1):
        for pat in nested_patterns(inner, [d, 0]):
            rows = []
            for row in pat:
                if sym:
                    h = [1]*cov + list(row)
                    rows.append(h + [1]*mid + h[::-1])
                else:
                    rows.append([1]*cov + list(row) + [1]*cov)
            sst = np.array([[90 if v else -1 for v in row] for row in rows])
            plies = [sum(r) for r in rows]
            if min(plies) == 0:
                continue
            mp = build.multipanel(plies, cons)
            mp.from_mp_to_blending_strip(cons)
            if d == 0:
                # two panels of one thickness are one panel of the strip
                if mp.reduced.n_panels != 1:
                    continue
                mp.reduced.n_panels = 2
            res = ctx.call('layout-of-sst', pdl_tools.input_pdl_from_sst, sst,
                           mp, cons)
            ctx.state(case, pat)
            ctx.ok()
            got = pattern(res[0])
            want = tuple(tuple(bool(v) for v in r) for r in rows)
            ctx.require(got == want, 'layout-of-sst',
                        f'{sst.tolist()}: {np.array(res[0]).tolist()}')
            if d == 0:
                continue
            lay = np.array([[i if v else -1 for i, v in enumerate(r)]
                            for r in rows])
            _, exc = ctx.attempt(check_pdls_ini, mp, [lay])
            ctx.require(exc is None, 'layouts-accepted', f'{rows}: {exc!r}')
            ctx.outcome('accepted')
            for i, j in itertools.product(range(2), range(len(rows[0]))):
                bad = lay.copy()
                bad[i, j] = -1 if lay[i, j] != -1 else 1
                for lot in ([bad], [lay, bad], [bad, lay]):
                    _, exc = ctx.attempt(check_pdls_ini, mp, lot)
                    ctx.require(exc is not None, 'layouts-refused',
                                f'{bad.tolist()}')
                    ctx.outcome('refused')
            for lot in ([lay[:1]], [np.vstack((lay, lay[:1]))]):
                _, exc = ctx.attempt(check_pdls_ini, mp, lot)
                ctx.require(exc is not None, 'layouts-refused', f'{case}')


# ------------------------------------------------------------------ Excel files
def cases_xls(tier):
    for k in range(0, 4):
        for m in (1, 2, 3):
            for n in (2, 3, 5) + ((8, 12) if tier != 'quick' else ()):
                yield [k, m, n]


def check_xls(case, ctx):
    import pandas as pd
    from src.BELLA.pdl_ini import read_pdls_excel
    k, m, n = case
    tmp = tempfile.mkdtemp(prefix='mc-c09-')
    try:
        path = os.path.join(tmp, 'layouts.xlsx')
        pdls = []
        with pd.ExcelWriter(path) as out:
            pd.DataFrame([[1]]).to_excel(out, sheet_name='other', index=False,
                                         header=False)
            for i in range(k):
                pdl = np.array([[-1 if (c + r*i) % 3 == 0 and r else c
                                 for c in range(n)] for r in range(m)])
                pdls.append(pdl)
                pd.DataFrame(pdl).to_excel(out, sheet_name=f'pdl{i + 1}',
                                           index=False, header=False)
            pd.DataFrame([[1]]).to_excel(out, sheet_name=f'pdl{k + 2}',
                                         index=False, header=False)
        got = ctx.call('read', read_pdls_excel, path)
        ctx.state(case)
        ctx.ok()
        ctx.require([np.array(g).tolist() for g in got]
                    == [p.tolist() for p in pdls], 'layouts-read',
                    f'{case}: {len(got)} layouts')
        _, exc = ctx.attempt(read_pdls_excel, os.path.join(tmp, 'none.xlsx'))
        ctx.require(exc is not None, 'missing-file', f'{exc!r}')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def components(tier):
    a = FnComponent('group', cases_group, check_group)
    a.block = 1
    a.expect_outcomes = ('perfect-2-imperfect-0', 'perfect-1-imperfect-1',
                         'perfect-0-imperfect-2')
    b = FnComponent('structure', cases_ini, check_ini)
    b.block = 1
    b.expect_outcomes = ('perfect-2-imperfect-0', 'perfect-1-imperfect-1',
                         'perfect-0-imperfect-2')
    d = FnComponent('layout-of-sst', cases_sst, check_sst)
    d.expect_outcomes = ('accepted', 'refused')
    return [a, b, FnComponent('tools', cases_tools, check_tools), d,
            FnComponent('excel', cases_xls, check_xls)]
