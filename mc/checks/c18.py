"""C18: the blended design returned is valid, reported exactly, and the best."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
from collections import Counter
import numpy as np
from mc import ref, build
from mc.core import FnComponent
from mc.checks import c03, c09, c12, c17
from mc.checks.c16 import WEIGHTS

ASSUMPTIONS = [
    'symmetric laminates (asymmetric ones are a known finding, see DESIGN.md)',
    'ply counts all even or all odd (the mix is a known finding)',
    'balance is kept ply by ply: a panel other than the reference may hold '
    'unbalanced plies where its ply count leaves no choice',
    'where two partial designs tie at the limit of the number of nodes, '
    'either of them may be kept',
]
BIG = 10**6
TARGETS = c17.TARGETS
RULES = [
    dict(),
    dict(contig=True, n_contig=2),
    dict(diso=True, delta_angle=45, contig=True, n_contig=3),
    dict(bal=True, contig=True, n_contig=3),
    dict(rule_10_percent=True, percent_0=15, percent_90=15, percent_45=0,
         percent_135=0, percent_45_135=0),
    dict(bal=True, diso=True, delta_angle=45, contig=True, n_contig=4,
         rule_10_percent=True, percent_0=15, percent_90=15, percent_45=0,
         percent_135=0, percent_45_135=0),
    dict(dam_tol=True, dam_tol_rule=1, diso=True, delta_angle=45),
    dict(dam_tol=True, dam_tol_rule=2, contig=True, n_contig=2),
    dict(covering=True, n_covering=1, pdl_spacing=True, min_drop=2),
    dict(rule_10_percent=True, rule_10_Abdalla=True, percent_Abdalla=5),
    # rarely or never satisfied
    dict(diso=True, delta_angle=30, contig=True, n_contig=2,
         rule_10_percent=True, percent_0=30, percent_90=30, percent_45=0,
         percent_135=0, percent_45_135=0),
]
LIMITS = [(BIG, BIG, BIG), (1, 1, 1), (2, 3, 2), (BIG, 4, 3), (2, BIG, 3)]
SMALL = [4, 6]


def problem(plies, na, r, lim, mem=True, flex=True, shift=0, targets=None,
            sym=True, weights=None, **kw):
    angles = {4: ref.A4, 6: ref.A6}[na]
    cons = build.constraints(sym=sym, set_of_angles=angles, **RULES[r])
    local, glob, final = lim
    par = build.parameters(
        cons, local_node_limit=local, global_node_limit=glob,
        local_node_limit_final=BIG, global_node_limit_final=final,
        repair_membrane_switch=mem, repair_flexural_switch=flex,
        group_size_min=1, group_size_max=6, time_limit_all_pdls=1,
        time_limit_group_pdl=1, **kw)
    obj = build.obj_function(cons, coeff_diso=3., coeff_contig=5.,
                             coeff_10=7.)
    mp = build.multipanel(
        plies, cons, weightings=[k + 1. for k in range(len(plies))],
        targets=targets or [TARGETS[(sorted(set(plies)).index(n) + shift)
                                    % len(TARGETS)] for n in plies],
        lampam_w=weights and [weights[sorted(set(plies)).index(n)]
                              for n in plies])
    return cons, par, obj, mp


def prepare(cons, par, obj, mp):
    "what is done once, ahead of all ply-drop layouts"
    from src.BELLA.divide_panels import divide_panels
    from src.BELLA.ply_order import calc_ply_order
    from src.BELLA.moments_of_areas import calc_mom_of_areas
    from src.BELLA.lampam_matrix import calc_delta_lampams
    mp.filter_target_lampams(cons, obj)
    mp.filter_lampam_weightings(cons, obj)
    mp.calc_weight_per_panel(build.material().density_area)
    mp.from_mp_to_blending_strip(cons, par.n_plies_ref_panel)
    par.group_size_max = 10000
    divide_panels(mp, par, cons)
    order = calc_ply_order(mp, cons)
    plus, areas = calc_mom_of_areas(mp, cons, order)
    return order, plus, calc_delta_lampams(mp, cons, areas, order)


def places(counts, cov):
    "all symmetric nested layouts: columns kept by every panel of the strip"
    top = counts[-1]

    def rec(i, inside):
        if i < 0:
            yield []
            return
        half = [j for j in inside if j < top//2]
        for keep in itertools.combinations(half, counts[i]//2):
            if not all(j in keep for j in range(cov)):
                continue
            row = (keep + ((top//2,) if top % 2 else ())
                   + tuple(top - 1 - j for j in keep[::-1]))
            for rest in rec(i - 1, row):
                yield rest + [row]
    for rest in rec(len(counts) - 2, tuple(range(top))):
        yield rest + [tuple(range(top))]


def layout(place, top):
    return np.array([[j if j in row else -1 for j in range(top)]
                     for row in place])


class Beam:
    "the beam search: partial guide laminates and their estimates"

    def __init__(self, mp, cons, rules, angles, place):
        self.mp, self.cons, self.angles = mp, cons, angles
        self.place = [set(r) for r in place]
        self.top = len(place[-1])
        self.n_half = (self.top + 1)//2
        self.mid = self.top % 2 == 1
        self.rules = (rules.get('dam_tol_rule', 0),
                      rules.get('delta_angle', 0), rules.get('n_contig', 0))
        self.w = mp.reduced.actual_panel_weightings

    def children(self, mother):
        must, may = c03.expected(self.angles, mother, len(mother),
                                 self.n_half, self.mid, self.rules)
        assert must == may
        return [mother + (a,) for a in sorted(must)]

    def estimate(self, half):
        tot = 0.
        for i, panel in enumerate(self.mp.reduced.panels):
            kept = [j for j in range(self.n_half) if j in self.place[i]]
            n = panel.n_plies
            lp = np.zeros(12)
            area = mom = 0.
            for k, j in enumerate(kept):
                if j >= len(half):
                    break
                # (thickness of the laminate: 2)
                z1, z0 = 1 - 2*k/n, max(0., 1 - 2*(k + 1)/n)
                x = np.deg2rad(2*half[j])
                t = np.array([np.cos(x), np.cos(2*x), np.sin(x),
                              np.sin(2*x)])
                lp[:4] += (z1 - z0)*t
                lp[8:] += (z1**3 - z0**3)*t
                area += z1 - z0
                mom += z1**3 - z0**3
            w = np.array(panel.lampam_weightings, float)
            w[:4] *= area
            w[4:8] = 0
            w[8:] *= mom
            if w.sum():
                w /= w.sum()
            tot += self.w[i]*float(w@(lp - panel.lampam_target)**2)
        return tot

    def run(self, limits):
        """the guide laminates kept at the end (None: depends on ties),
        all those that satisfy the rules"""
        local, glob, final = limits
        front, full, sure, seen = [()], [()], True, 0

        def cut(nodes, k):
            nonlocal sure
            if len(nodes) <= k:
                return nodes
            nodes = sorted(nodes, key=lambda x: x[0])
            if nodes[k][0] - nodes[k - 1][0] < 1e-9:
                sure = False
            return nodes[:k]
        for level in range(self.n_half):
            last = level == self.n_half - 1
            new = []
            for m in front:
                kids = [(self.estimate(c), c) for c in self.children(m)]
                new += kids if last else cut(kids, local)
            seen += len(new)
            front = [c for _, c in cut(new, final if last else glob)]
            if limits[0] != BIG or limits[1] != BIG or limits[2] != BIG:
                continue
        return (front if sure else None), seen

    def full(self, half):
        return half + (half[:-1] if self.mid else half)[::-1]


def cases_one(tier):
    sets = [[4, 6], [6, 4, 6], [5, 7], [2, 6], [3, 5], [2, 4, 6], [6, 8],
            [8, 4]]
    if tier != 'quick':
        sets += [[7, 5, 3], [4, 8, 6], [7, 9], [5, 9], [8, 10], [6, 10],
                 [6, 8, 10]]
    for plies in sets:
        counts = sorted(set(plies))
        for na in (4, 6):
            for r, rules in enumerate(RULES):
                cov = build_cov(rules)
                if 2*cov > counts[0]:
                    continue
                if rules.get('rule_10_Abdalla') and (
                        counts != SMALL or na == 6):
                    continue       # (thousands of points per distance)
                for li, lim in enumerate(LIMITS):
                    top = counts[-1] + (na == 6)
                    if lim == (BIG, BIG, BIG) and top > (
                            7 if tier == 'quick' else 9):
                        continue
                    if rules.get('rule_10_Abdalla') and li == 0:
                        continue
                    if (rules.get('rule_10_percent') and counts[0] < 4
                            and not rules.get('rule_10_Abdalla')):
                        continue       # (cannot hold in the reference)
                    if na == 6 and counts[-1] > (6 if tier == 'quick' else 8):
                        continue
                    for k in range(len(list(places(counts, cov)))):
                        if li in (3, 4) and k % 2:
                            continue
                        yield [plies, na, r, li, k]


def build_cov(rules):
    if rules.get('dam_tol'):
        return max(rules.get('n_covering', 0),
                   2 if rules['dam_tol_rule'] in (2, 3) else 1)
    return rules.get('n_covering', 0) if rules.get('covering') else 0


def check_one(case, ctx):
    from src.BELLA import optimiser_with_one_pdl as mod
    plies, na, r, li, k = case
    counts = sorted(set(plies))
    lim = LIMITS[li]
    save = (k + li) % 2 == 0
    cons, par, obj, mp = problem(
        plies, na, r, lim, mem=(k + r) % 3 != 1, flex=(k + r) % 3 != 2,
        shift=k % 2, save_success_rate=save,
        weights=WEIGHTS if (k + 2*li + r) % 4 == 1 else None,
        n_plies_ref_panel=(1, 1000, counts[-1])[(k + li) % 3])
    place = list(places(counts, cons.n_covering if cons.covering else 0))[k]
    pdl = layout(place, counts[-1])
    with contextlib.redirect_stdout(io.StringIO()):
        order, plus, delta = prepare(cons, par, obj, mp)
        given = pdl.copy()
        with c09.Spy(mod, 'repair_mp') as spy:
            res, exc = ctx.attempt(
                mod.BELLA_optimiser_one_pdl, mp, par, obj, cons, order, plus,
                delta, given, mat=None)
    beam = Beam(mp, cons, RULES[r], {4: ref.A4, 6: ref.A6}[na], place)
    kept, seen = beam.run(lim)
    ctx.step(seen)
    ctx.ok()
    ctx.state(case)
    what = f'{case}'
    if exc is not None:
        ctx.outcome('no guide laminate')
        ctx.require(not kept, 'search-ends', f'{what}: {exc!r}')
        return
    ctx.require(np.array_equal(given, pdl), 'layout-kept', what)
    cand = []
    for args, kw, out in spy.calls:
        ss = kw['reduced_ss'] if 'reduced_ss' in kw else args[1]
        ss = [tuple(int(a) for a in s) for s in ss]
        guide = ss[-1]
        ctx.require(all(s == tuple(guide[j] for j in row)
                        for s, row in zip(ss, place)), 'blended-by-layout',
                    f'{what}: {ss}')
        cand.append((guide, out))
        ctx.state(case, guide)
    ctx.step(len(cand))
    if kept is not None and cand:
        guides = [g for g, _ in cand]
        want = {beam.full(h) for h in kept}
        ctx.require(len(guides) == len(set(guides)) and set(guides) == want,
                    'beam-search', lambda: f'{what}: {sorted(guides)} not '
                                           f'{sorted(want)}')
        ctx.outcome('beam checked')
    else:
        ctx.outcome('beam ties')
    good = [(g, o) for g, o in cand if o[0]]
    if cand and not good:
        ctx.outcome('no design')
        if save:
            ctx.require(res is None, 'no-design', what)
        else:
            ctx.require(res is not None and res.obj_constraints == 1e10,
                        'no-design', what)
        return
    if not ctx.require(res is not None, 'design-found', what):
        return
    ctx.outcome('design')
    report(ctx, what, cons, obj, mp, res, mp.reduced)
    costs = [objective(cons, obj, mp, o[1])[1] for _, o in good]
    ctx.require(not cand or abs(min(costs) - res.obj_constraints) < 1e-9,
                'best-design', lambda: f'{what}: {res.obj_constraints} not '
                f'the least of {sorted(costs)}')
    if not cand:
        return
    ends = Counter(4 if o[0] else o[4] for _, o in cand)
    n_uniq = len({str(np.array(o[2]).tolist()) for _, o in good})
    want = [len(cand), len(cand) - ends[1], ends[3] + ends[4], ends[4]]
    got = [res.n_designs_last_level, res.n_designs_after_ss_ref_repair,
           res.n_designs_after_thick_to_thin,
           res.n_designs_after_thin_to_thick]
    ctx.require(got == want and (not save or n_uniq
                                 == res.n_designs_repaired_unique),
                'success-counts', f'{what}: {got} not {want}, {n_uniq} '
                f'unique, not {res.n_designs_repaired_unique}')


def objective(cons, obj, mp, ss):
    "objective of each panel of the strip, and of the structure"
    each, tot = [], 0.
    for i, panel in enumerate(mp.reduced.panels):
        s = tuple(int(a) for a in ss[i])
        w = np.array(panel.lampam_weightings, float)
        w /= w.sum()
        v = float(w@(np.array(ref.lampam(s)) - panel.lampam_target)**2)
        each.append(v)
        p = 1.
        if cons.diso:
            p *= 1 + obj.coeff_diso*len(
                ref.diso_pairs(s, cons.delta_angle))/len(s)
        if cons.contig:
            p *= 1 + obj.coeff_contig*len(
                ref.contig_windows(s, cons.n_contig))/len(s)
        tot += mp.reduced.actual_panel_weightings[i]*v*p
    return each, tot


def report(ctx, what, cons, obj, mp, res, red):
    "the design is valid, and is reported as it is"
    ss = [tuple(int(a) for a in s) for s in res.ss]
    sst = np.array(res.sst).tolist()
    n_max = max(p.n_plies for p in mp.panels)
    counts = sorted({p.n_plies for p in mp.panels})
    text = f'{what}: {ss} {sst}'
    n_ref = counts[red.ind_ref]
    ok = len(ss) == len(sst) == len(mp.panels)
    by_n = {}
    for i, p in enumerate(mp.panels):
        ok = (ok and len(ss[i]) == p.n_plies
              and (not cons.sym or ss[i] == ss[i][::-1])
              and tuple(a for a in sst[i] if a != -1) == ss[i]
              and len(sst[i]) == n_max
              and by_n.setdefault(p.n_plies, sst[i]) == sst[i])
    if not ctx.require(ok, 'plies-of-panels', text):
        return
    rows = [by_n[n] for n in counts]
    ctx.require(c17.nested(rows), 'blended', text)
    ctx.require(c17.covered(rows, cons.n_covering if cons.covering else 0),
                'covering', text)
    patt = [[int(v) != -1 for v in row] for row in res.pdl]
    ctx.require(patt == [[a != -1 for a in row] for row in sst],
                'layout-of-design', f'{text} {np.array(res.pdl).tolist()}')
    for s in ss:
        n = len(s)
        ctx.require(not cons.dam_tol
                    or ref.dam_tol_ok(s, cons.dam_tol_rule), 'damage', text)
        ctx.require(not cons.contig
                    or not ref.contig_windows(s, cons.n_contig), 'contiguity',
                    text)
        ctx.require(not cons.diso or n < n_ref
                    or not ref.diso_pairs(s, cons.delta_angle),
                    'disorientation', text)
        if cons.rule_10_percent and cons.rule_10_Abdalla:
            lp = ref.lampam(s)
            ctx.require(ref.abdalla_excess(cons.percent_Abdalla, lp[0], lp[1])
                        > -1e-9, '10-percent', text)
        elif cons.rule_10_percent:
            ctx.require(ref.ten_ok(Counter(s), n, c12.limits(cons)),
                        '10-percent', text)
        if cons.bal and n == n_ref:
            ctx.require(ref.balanced(s), 'balance', text)
    # what is reported
    each, tot = objective(cons, obj, mp, [tuple(a for a in by_n[n] if a != -1)
                                          for n in counts])
    ctx.require(abs(tot - res.obj_constraints) < 1e-9, 'objective',
                f'{text}: {res.obj_constraints} not {tot}')
    for i, p in enumerate(mp.panels):
        s, n = ss[i], p.n_plies
        lp = ref.lampam(s)
        ctx.require(ref.close(res.lampam[i], lp), 'lamination-parameters',
                    f'{text}: {res.lampam[i]}')
        ctx.require(abs(res.obj_no_constraints[i]
                        - each[counts.index(n)]) < 1e-9, 'panel-objective',
                    f'{text}: {res.obj_no_constraints[i]}')
        c = Counter(s)
        ctx.require([float(v) for v in res.n_plies_per_angle[i]]
                    == [c[int(a)] for a in cons.set_of_angles], 'ply-counts',
                    f'{text}: {res.n_plies_per_angle[i]}')
        d = len(ref.diso_pairs(s, cons.delta_angle)) if cons.diso else 0
        k = (len(ref.contig_windows(s, cons.n_contig)) if cons.contig else 0)
        ctx.require(abs(res.penalty_diso[i] - d/n) < 1e-9
                    and (not cons.diso or res.n_diso[i] == d)
                    and abs(res.penalty_contig[i] - k/n) < 1e-9
                    and (not cons.contig or res.n_contig[i] == k)
                    and abs(res.penalty_10[i]) < 1e-9, 'penalties',
                    f'{text}: {res.penalty_diso} {res.penalty_contig} '
                    f'{res.penalty_10} {res.n_diso} {res.n_contig}')
        ctx.require(abs(res.penalty_bal_ipo[i]
                        - (abs(lp[2]) + abs(lp[3]))/2) < 1e-9,
                    'orthotropy', f'{text}: {res.penalty_bal_ipo}')
    pairs = [tuple(int(v) for v in b) for b in red.boundaries]
    if cons.pdl_spacing:
        want = sum(red.boundary_weights[b]*c09.penalty(
            [[a != -1 for a in row] for row in rows], [b], cons.min_drop)
                   for b in pairs)
        ctx.require(abs(float(want) - res.penalty_spacing) < 1e-9, 'spacing',
                    f'{text}: {res.penalty_spacing} not {float(want)}')


# ----------------------------------------- odd thickest panel, even thinner ones
def cases_mixed(tier):
    for plies in ([6, 7], [4, 7], [4, 6, 9], [8, 9]):
        for ref_at in (1, 1000):
            for r in (0, 2):
                yield [plies, ref_at, r]


def check_mixed(case, ctx):
    from src.BELLA import optimiser_with_one_pdl as mod
    plies, ref_at, r = case
    top = plies[-1]
    rows = [[j if j < n//2 or top - 1 - j < n//2 or n == top else -1
             for j in range(top)] for n in plies]
    cons, par, obj, mp = problem(plies, 4, r, (2, 3, 2),
                                 n_plies_ref_panel=ref_at)
    with contextlib.redirect_stdout(io.StringIO()):
        order, plus, delta = prepare(cons, par, obj, mp)
        res, exc = ctx.attempt(mod.BELLA_optimiser_one_pdl, mp, par, obj,
                               cons, order, plus, delta, np.array(rows),
                               mat=None)
    ctx.state(case)
    ctx.ok()
    before = len(ctx.failures)
    if ctx.require(exc is None, 'odd-and-even', f'{case}: {exc!r}'):
        ctx.outcome('designed')
        if res.obj_constraints < 1e10:
            report(ctx, f'{case}', cons, obj, mp, res, mp.reduced)
    for failure in ctx.failures[before:]:
        failure['key'] = f'{plies} reference {ref_at}'


# ------------------------------------------- laminates that are not symmetric
def cases_asymmetric(tier):
    for plies in ([3, 4], [2, 4], [4, 6], [3, 4, 5]):
        for r in (0, 1, 2):
            yield [plies, r]


def check_asymmetric(case, ctx):
    from src.BELLA import optimiser_with_one_pdl as mod
    plies, r = case
    top = plies[-1]
    ctx.state(case)
    before = len(ctx.failures)
    for place in itertools.islice(nested_all(plies), 6):
        cons, par, obj, mp = problem(plies, 4, r, (2, 3, 2), sym=False,
                                     n_plies_ref_panel=1000)
        with contextlib.redirect_stdout(io.StringIO()):
            order, plus, delta = prepare(cons, par, obj, mp)
            res, exc = ctx.attempt(
                mod.BELLA_optimiser_one_pdl, mp, par, obj, cons, order, plus,
                delta, layout(place, top), mat=None)
        if ctx.require(exc is None, 'asymmetric', f'{case} {place}: {exc!r}'):
            ctx.outcome('designed')
            if res.obj_constraints < 1e10:
                report(ctx, f'{case}', cons, obj, mp, res, mp.reduced)
    for failure in ctx.failures[before:]:
        failure['key'] = f'asymmetric {plies} rules {r}'
    ctx.ok()


def nested_all(counts):
    "layouts of the panels of a strip that are not symmetric"
    def rec(i, inside):
        if i < 0:
            yield []
            return
        for keep in itertools.combinations(inside, counts[i]):
            for rest in rec(i - 1, keep):
                yield rest + [keep]
    for rest in rec(len(counts) - 2, tuple(range(counts[-1]))):
        yield rest + [tuple(range(counts[-1]))]


# ------------------------------------------------------- several layouts, files
def cases_all(tier):
    sets = [[4, 6], [5, 7], [6, 4, 6]]
    if tier != 'quick':
        sets += [[2, 4, 6], [6, 8], [8, 4]]
    for plies in sets:
        counts = sorted(set(plies))
        for r in (1, 2, 5, 10) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6,
                                                        8, 10):
            cov = build_cov(RULES[r])
            if 2*cov > counts[0]:
                continue
            n = len(list(places(counts, cov)))
            for save in (True, False):
                for k in (2, 3) if tier == 'quick' else (1, 2, 3):
                    for order in itertools.permutations(range(n), min(k, n)):
                        yield [plies, r, save, list(order), False]
                if r == 1:
                    # the target is met exactly by some of the layouts
                    for order in itertools.permutations(range(n), min(2, n)):
                        yield [plies, r, save, list(order), True]


def check_all(case, ctx):
    from src.BELLA import optimiser as top_mod
    from src.BELLA import optimiser_with_one_pdl as mod
    import pandas as pd
    plies, r, save, picks, exact = case
    counts = sorted(set(plies))
    # all layouts of the file are used, whatever the number asked for
    kw = dict(save_success_rate=save, n_ini_ply_drops=1 + sum(picks) % 4)
    lim = (BIG, BIG, 4) if exact else (2, 3, 2)
    if exact:
        guide = (45, 0, -45, 90)[:(counts[-1] + 1)//2]
        if counts[-1] % 2:
            guide = guide[:-1] + (90,)
        guide = guide + guide[:counts[-1]//2][::-1]
        cov = build_cov(RULES[r])
        row = list(places(counts, cov))[picks[-1]]
        kw['targets'] = [ref.lampam(tuple(guide[j]
                                          for j in row[counts.index(n)]))
                         for n in plies]
        kw.update(mem=False, flex=False)
    alone = []
    tables = list(places(counts, build_cov(RULES[r])))
    for k in picks:
        cons, par, obj, mp = problem(plies, 4, r, lim, **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            order, plus, delta = prepare(cons, par, obj, mp)
            res, exc = ctx.attempt(
                mod.BELLA_optimiser_one_pdl, mp, par, obj, cons, order, plus,
                delta, layout(tables[k], counts[-1]), mat=None)
        if exc is not None:
            ctx.outcome('no guide laminate')
            return
        alone.append(res)
    cons, par, obj, mp = problem(plies, 4, r, lim, **kw)
    tmp = tempfile.mkdtemp(prefix='mc-c18-')
    try:
        path = os.path.join(tmp, 'layouts.xlsx')
        with pd.ExcelWriter(path) as out:
            for i, k in enumerate(picks):
                pd.DataFrame(layout(tables[k], counts[-1])).to_excel(
                    out, sheet_name=f'pdl{i + 1}', index=False, header=False)
        with contextlib.redirect_stdout(io.StringIO()), no_files(top_mod):
            res = ctx.call('optimiser', top_mod.BELLA_optimiser, mp, par, obj,
                           cons, os.path.join(tmp, 'out.xlsx'), mat=build.material(),
                           filename_initial_pdls=path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.ok()
    ctx.state(case)
    objs = [None if a is None else float(a.obj_constraints) for a in alone]
    stop = next((i for i, v in enumerate(objs)
                 if v is not None and abs(v) < 1e-10), len(objs) - 1)
    if stop < len(objs) - 1:
        ctx.outcome('stopped early')
    objs[stop + 1:] = [None]*(len(objs) - 1 - stop)
    text = f'{case}: {objs} {res.obj_constraints_tab} best {res.ind_mini}'
    got = [None if np.isnan(v) else float(v) for v in res.obj_constraints_tab]
    if not ctx.require(len(got) == len(objs) and all(
            (a is None) == (b is None) and (a is None or abs(a - b) < 1e-9)
            for a, b in zip(got, objs)), 'layouts-independent', text):
        return
    known = [v for v in objs if v is not None]
    if not known:
        ctx.outcome('nothing')
        return
    ctx.outcome('found' if len(known) == len(objs) else 'found in some')
    i = int(res.ind_mini)
    ctx.require(objs[i] is not None and objs[i] <= min(known) + 1e-12,
                'best-layout', text)
    if objs[i] is None:
        return
    best = alone[i]

    def same(a, b):
        return (len(a) == len(b) and all(np.array_equal(x, y)
                                         for x, y in zip(a, b)))
    ctx.require(same(res.ss, best.ss) and same(res.sst, best.sst)
                and ref.close(res.lampam, best.lampam)
                and np.array_equal(res.n_plies_per_angle,
                                   best.n_plies_per_angle)
                and res.obj_constraints == best.obj_constraints
                and ref.close(res.obj_no_constraints,
                              best.obj_no_constraints), 'best-returned',
                f'{text}: {[list(s) for s in res.ss]}')
    for j, a in enumerate(alone[:stop + 1]):
        if a is None:
            continue
        for name in ('penalty_spacing', 'penalty_diso', 'penalty_contig',
                     'penalty_10', 'penalty_bal_ipo', 'penalty_oopo',
                     'n_contig', 'n_diso', 'n_obj_func_calls',
                     'n_designs_last_level', 'n_designs_after_ss_ref_repair',
                     'n_designs_after_thick_to_thin',
                     'n_designs_after_thin_to_thick',
                     'n_designs_repaired_unique', 'n_plies_per_angle',
                     'obj_no_constraints'):
            tab = getattr(res, name + '_tab')
            ctx.require(ref.close(np.array(tab[j], float),
                                  np.array(getattr(a, name), float)),
                        'rows-of-layouts', f'{text}: {name} of {j}: {tab[j]}')
        ctx.require(same(res.ss_tab[j], a.ss)
                    and same(res.ss_tab_tab[j], a.sst)
                    and ref.close(res.lampam_tab_tab[:, j], a.lampam),
                    'rows-of-layouts', f'{text}: stacks of {j}')


@contextlib.contextmanager
def no_files(mod):
    "the Excel files are not written (C19 is about them)"
    names = [n for n in dir(mod) if n.startswith('save_')
             or n == 'autofit_column_widths']
    old = {n: getattr(mod, n) for n in names}
    for n in names:
        setattr(mod, n, lambda *a, **k: None)
    try:
        yield
    finally:
        for n in names:
            setattr(mod, n, old[n])


# --------------------- every outcome of the repair of the first guide laminates
FAIL_AT = (1, 2, 3, 4)          # (4: repaired)


def cases_outcomes(tier):
    deep = 4 if tier == 'quick' else 5
    for plies in ([4, 6], [5, 7]) if tier == 'quick' else (
            [4, 6], [5, 7], [6, 4, 6], [2, 4, 6]):
        for save in (False, True):
            for ends in itertools.product(FAIL_AT, repeat=deep):
                yield [plies, save, ends]


def check_outcomes(case, ctx):
    """the repair is told where to fail, one guide laminate after another
    (those after the last of the list fail for the reference panel)"""
    from src.BELLA import optimiser_with_one_pdl as mod
    plies, save, ends = case
    counts = sorted(set(plies))
    cons, par, obj, mp = problem(plies, 4, 0, (BIG, BIG, BIG),
                                 save_success_rate=save)
    par.global_node_limit_final = len(ends)
    pdl = layout(next(places(counts, 0)), counts[-1])
    real, made = mod.repair_mp, []

    def repair(*args, **kw):
        out = real(*args, **kw)
        end = ends[len(made)] if len(made) < len(ends) else 1
        if not out[0]:
            end = out[4]
        made.append((end, out[1]))
        return (end == 4,) + tuple(out[1:4]) + (end,)
    mod.repair_mp = repair
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            order, plus, delta = prepare(cons, par, obj, mp)
            res, exc = ctx.attempt(
                mod.BELLA_optimiser_one_pdl, mp, par, obj, cons, order, plus,
                delta, pdl, mat=None)
    finally:
        mod.repair_mp = real
    ctx.step(len(made))
    ctx.ok()
    ctx.state(case)
    what = f'{case}'
    if not ctx.require(exc is None, 'search-ends', f'{what}: {exc!r}'):
        return
    good = [objective(cons, obj, mp, ss)[1] for e, ss in made if e == 4]
    if not good:
        ctx.outcome('none repaired')
        ctx.require(res is None if save else (
            res is not None and res.obj_constraints == 1e10), 'no-design',
            what)
        if res is None:
            return
    elif not ctx.require(res is not None, 'design-found', what):
        return
    else:
        ctx.outcome('some repaired')
        ctx.require(abs(min(good) - res.obj_constraints) < 1e-9,
                    'best-design', lambda: f'{what}: {res.obj_constraints} '
                    f'not the least of {good}')
        report(ctx, what, cons, obj, mp, res, mp.reduced)
    n = Counter(e for e, _ in made)
    want = [len(made), n[2] + n[3] + n[4], n[3] + n[4], n[4]]
    got = [res.n_designs_last_level, res.n_designs_after_ss_ref_repair,
           res.n_designs_after_thick_to_thin,
           res.n_designs_after_thin_to_thick]
    ctx.require(got == want, 'success-counts', f'{what}: {got} not {want}')


def components(tier):
    a = FnComponent('layout', cases_one, check_one)
    a.expect_outcomes = ('design', 'no design', 'beam checked')
    b = FnComponent('structure', cases_all, check_all)
    b.expect_outcomes = ('found', 'stopped early')
    c = FnComponent('repair-outcomes', cases_outcomes, check_outcomes)
    c.expect_outcomes = ('some repaired', 'none repaired')
    return [a, b, FnComponent('odd-and-even', cases_mixed, check_mixed),
            c, FnComponent('asymmetric', cases_asymmetric, check_asymmetric)]
