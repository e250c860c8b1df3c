"""C07: the blending strip and its tables represent the structure exactly."""
import itertools
import types
import numpy as np
from mc import ref, build
from mc.core import FnComponent

ASSUMPTIONS = [
    'panel weightings are positive',
    'the repair-step tables are compared for panels whose ply counts all '
    'have the same parity when the laminates are symmetric',
]


def connected(n, edges):
    seen, todo = {0}, [0]
    while todo:
        a = todo.pop()
        for e in edges:
            for x, y in (e, e[::-1]):
                if x == a and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == n


def graphs(n):
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(len(pairs) + 1):
        yield from itertools.combinations(pairs, k)


IDS = ([1, 2, 3, 4, 5], [7, 3, 12, 5, 1])


def cases_mp(tier):
    top = 3 if tier == 'quick' else 4
    for n in range(1, top + 1):
        for edges in graphs(n):
            for counts in itertools.product((8, 10, 14), repeat=n):
                yield [n, [list(e) for e in edges], list(counts)]
    if tier == 'quick':
        for edges in graphs(4):
            for counts in ((8, 10, 14, 10), (14, 8, 8, 10), (10, 10, 8, 14),
                           (8, 8, 8, 8), (12, 8, 14, 10)):
                yield [4, [list(e) for e in edges], list(counts)]
    counts = [(8, 12, 10, 14, 10), (8, 10, 12, 14, 16)]
    for edges in graphs(5):
        for c in counts if tier != 'quick' else counts[len(edges) % 2:][:1]:
            yield [5, [list(e) for e in edges], list(c)]


def make_panels(n, edges, counts, ids, cons, mode, weights=None):
    from src.BELLA.panels import Panel
    neigh = [[] for _ in range(n)]
    for k, (a, b) in enumerate(edges):
        side = mode if mode < 3 else k % 3
        if side in (0, 2):
            neigh[a].append(ids[b])
        if side in (1, 2):
            neigh[b].append(ids[a])
    return [Panel(ID=ids[i], constraints=cons, n_plies=counts[i],
                  area=float(i + 1), weighting=(weights or [1, 2, 4, 8, 16])[i],
                  lampam_target=np.zeros(12), neighbour_panels=neigh[i])
            for i in range(n)]


def check_mp(case, ctx):
    from src.BELLA.multipanels import MultiPanel
    n, edges, counts = case
    edges = [tuple(e) for e in edges]
    cons = build.constraints(sym=True)
    ok = connected(n, edges)
    ctx.outcome('connected' if ok else 'disconnected')
    for ids in IDS:
        for mode in range(4):
            for wmode in range(4):
                if wmode and not edges:
                    continue
                bw = None
                if wmode:
                    bw = {}
                    for k, (a, b) in enumerate(edges):
                        key = (ids[a], ids[b])
                        if (wmode + k) % 2:
                            key = key[::-1]
                        bw[key] = 3**k if k or wmode != 3 else 0
                panels = make_panels(n, edges, counts, ids, cons, mode)
                mp, exc = ctx.attempt(MultiPanel, panels, bw)
                ctx.state(case, ids, mode, wmode)
                ctx.ok()
                if not ctx.require((exc is None) == ok, 'connected-panels',
                                   f'{case}: {exc!r}') or not ok:
                    continue
                judge_mp(ctx, mp, n, edges, counts, ids, bw, cons)
    if not ok or not edges:
        return
    for bw in ({(ids[a], ids[b]): -1 for a, b in edges},
               {(ids[a], ids[b]): 1 for a, b in edges[1:]},
               {(99, 98 + k): 1 for k in range(len(edges))}):
        panels = make_panels(n, edges, counts, ids, cons, 2)
        _, exc = ctx.attempt(MultiPanel, panels, bw)
        ctx.require(exc is not None, 'boundary-weights-refused',
                    f'{case} {bw}')
    for bad in ('same', 'unknown', 'tuple'):
        panels = make_panels(n, edges, counts, ids, cons, 2)
        if bad == 'same':
            panels[0].ID = panels[-1].ID
        elif bad == 'unknown':
            panels[0].neighbour_panels = [55]
        else:
            panels = tuple(panels)
        _, exc = ctx.attempt(MultiPanel, panels, None)
        ctx.require(exc is not None, 'panels-refused', f'{case} {bad}')


def judge_mp(ctx, mp, n, edges, counts, ids, bw, cons):
    what = f'{n} panels {counts}, boundaries {edges}, IDs {ids}'
    ctx.require(mp.n_panels == n and mp.n_plies_min == min(counts)
                and mp.n_plies_max == max(counts)
                and list(mp.n_plies_in_panels) == counts, 'ply-counts', what)
    areas = [i + 1. for i in range(n)]
    tot = sum(a*c for a, c in zip(areas, counts))
    ctx.require(mp.area == sum(areas) and mp.area_patches == tot
                and abs(mp.calc_weight(2.) - 2*tot) < 1e-9, 'weight', what)
    mp.calc_weight_per_panel(2.)
    ctx.require(np.allclose(mp.weight_ref_per_panel,
                            [2*a*c for a, c in zip(areas, counts)]),
                'weight', what)
    sst = np.array([[(0, 45, -45, 90)[k % 4] for k in range(c)]
                    + [-1]*(max(counts) - c) for c in counts])
    ctx.require(abs(mp.calc_weight_from_sst(sst, 2.) - 2*tot) < 1e-9,
                'weight', what)
    sst[:, 0] = -1
    ctx.require(abs(mp.calc_weight_from_sst(sst, 2.)
                    - 2*(tot - sum(areas))) < 1e-9, 'weight', what)
    want = sorted(edges)
    ctx.require([tuple(int(v) for v in b) for b in mp.boundaries] == want,
                'boundaries', f'{what}: {mp.boundaries.tolist()}')
    ctx.require([tuple(int(v) for v in b) for b in mp.boundaries_in_IDs]
                == [(ids[a], ids[b]) for a, b in want], 'boundaries', what)

    def weight(a, b):
        if bw is None:
            return 1
        return bw.get((ids[a], ids[b]), bw.get((ids[b], ids[a])))
    ctx.require({tuple(int(v) for v in k): w
                 for k, w in mp.boundary_weights.items()}
                == {e: weight(*e) for e in edges}, 'boundary-weights',
                f'{what} {bw}: {mp.boundary_weights}')
    ctx.require({tuple(int(v) for v in k): w
                 for k, w in mp.boundary_weights_in_IDs.items()}
                == {tuple(sorted((ids[a], ids[b]))): weight(a, b)
                    for a, b in edges}, 'boundary-weights',
                f'{what} {bw}: {mp.boundary_weights_in_IDs}')
    neigh = mp.identify_neighbour_panels()
    ctx.require([sorted(map(int, x)) for x in neigh]
                == [sorted([b for a, b in edges if a == i]
                           + [a for a, b in edges if b == i])
                    for i in range(n)], 'neighbours', what)
    thick = [i for i in range(n) if counts[i] == max(counts)]
    ctx.require(mp.ind_thick in thick
                and list(mp.identify_thickest_panels()) == thick
                and [bool(x) for x in mp.is_thick_panels]
                == [c == max(counts) for c in counts], 'thickest-panels',
                what)
    for target in range(5, 17):
        ctx.call('strip', mp.from_mp_to_blending_strip, cons, target)
        judge_strip(ctx, mp, counts, edges, weight, target, True, what)


def judge_strip(ctx, mp, counts, edges, weight, target, sym, what):
    from src.BELLA.obj_function import ObjFunction
    red = mp.reduced
    obj = types.SimpleNamespace()
    ObjFunction.set_initial_panel_weightings(obj, mp)
    ctx.require(list(obj.panel_weightings_ini) == [
        p.weighting for p in mp.panels] and list(
            obj.reduced_panel_weightings) == [p.weighting for p in red.panels],
                'panel-weightings', what)
    uniq = sorted(set(counts))
    m = len(uniq)
    guide = [uniq.index(c) for c in counts]
    what = f'{what}, reference {target}'
    ctx.require(list(red.n_plies_in_panels) == uniq and red.n_panels == m
                and red.ind_thick == m - 1
                and list(red.ind_panels_guide) == guide
                and [counts[i] for i in red.ind_for_reduc] == uniq
                and [p.n_plies for p in red.panels] == uniq, 'strip-panels',
                what)
    ind_ref = min([i for i in range(m) if uniq[i] >= target] or [m - 1])
    ctx.require(red.ind_ref == ind_ref
                and red.n_plies_ref_panel == uniq[ind_ref]
                and red.n_panels_thin == ind_ref + 1
                and red.n_panels_thick == m - ind_ref, 'reference-panel',
                f'{what}: {red.ind_ref}')
    want = {}
    for a, b in edges:
        ga, gb = sorted((guide[a], guide[b]))
        if ga != gb:
            want[(ga, gb)] = want.get((ga, gb), 0) + weight(a, b)
    got = {tuple(int(v) for v in k): w
           for k, w in red.boundary_weights.items()}
    ctx.require(got == want, 'strip-boundary-weights', f'{what}: {got}')
    bounds = [tuple(int(v) for v in b) for b in red.boundaries]
    ctx.require(len(bounds) == len(set(bounds)) and set(bounds) == set(want),
                'strip-boundaries', f'{what}: {bounds}')
    pw = [float(p.weighting) for p in mp.panels]
    agg = [sum(w for w, g in zip(pw, guide) if g == r) for r in range(m)]
    ctx.require(np.allclose(red.actual_panel_weightings, agg),
                'strip-weightings', f'{what}: {red.actual_panel_weightings}')
    for r in range(m):
        if r < ind_ref:
            part = agg[:ind_ref]
            w = [sum(part[:r + 1])] + part[r + 1:]
        elif r > ind_ref:
            part = agg[ind_ref + 1:]
            k = r - ind_ref - 1
            w = part[:k] + [sum(part[k:])]
        else:
            continue
        w = np.array(w)/sum(w)
        got = np.array(red.panel_weightings[r])
        ctx.require(got.shape == w.shape and np.allclose(got, w),
                    'step-weightings', f'{what}: panel {r}: {got}')
    judge_steps(ctx, red, uniq, ind_ref, sym, what)


def judge_steps(ctx, red, uniq, ind_ref, sym, what):
    step = 2 if sym else 1
    # thick to thin: plies are removed one (pair) after the other
    rows = []
    before = uniq[ind_ref]
    for r in range(ind_ref - 1, -1, -1):
        first = True
        while before > uniq[r]:
            rows.append((r, before - step, before, first,
                         ind_ref - 1 - r))
            before -= step
            first = False
    judge_tab(ctx, red, rows, 'thin', red.n_steps_thin, what)
    rows = []
    before = uniq[ind_ref]
    for r in range(ind_ref + 1, len(uniq)):
        first = True
        while before < uniq[r]:
            rows.append((r, before + step, before, first,
                         r - ind_ref - 1))
            before += step
            first = False
    judge_tab(ctx, red, rows, 'thick', red.n_steps_thick, what)


def judge_tab(ctx, red, rows, side, n_steps, what):
    if not ctx.require(n_steps == len(rows), 'repair-steps',
                       f'{what}: {n_steps} steps {side}, not {len(rows)}'):
        return
    if not rows:
        return
    got = list(zip(
        map(int, getattr(red, f'ind_panel_{side}_tab')),
        map(int, getattr(red, f'n_plies_after_{side}_tab')),
        map(int, getattr(red, f'n_plies_before_{side}_tab')),
        map(bool, getattr(red, f'new_boundary_{side}_tab')),
        map(int, getattr(red, f'n_panels_designed_{side}_tab'))))
    ctx.require(got == rows, 'repair-steps', f'{what}: {side} {got}')


# ------------------------------------------------------------- other ply counts
def cases_sym(tier):
    top = 8 if tier == 'quick' else 11
    for sym in (True, False):
        for r in (1, 2, 3, 4):
            for uniq in itertools.combinations(range(1, top + 1), r):
                yield [sym, list(uniq)]


def check_sym(case, ctx):
    from src.BELLA.multipanels import MultiPanel
    sym, uniq = case
    cons = build.constraints(sym=sym)
    par = [u % 2 for u in uniq]
    ok = not sym or par == sorted(par)   # even ones first
    for order in (list(uniq), uniq[::-1], uniq[1:] + uniq[:1],
                  uniq + uniq[:1]):
        n = len(order)
        mp = ctx.call('structure', build.multipanel, order, cons)
        mid = [(c + 1)//2 if sym and c % 2 else 0 for c in order]
        ctx.state(case, order)
        ctx.ok()
        ctx.require(list(mp.middle_ply_indices) == mid
                    and mp.has_middle_ply == any(mid)
                    and mp.thick_panel_has_middle_ply
                    == bool(sym and max(order) % 2 and any(mid)),
                    'middle-plies', f'{case}: {mp.middle_ply_indices}')
        got = sorted(mp.identify_thickest_panels(sym=sym))
        top = max(order)
        near = {top, top - 1} if sym and top % 2 else {top}
        ctx.require(got == [i for i in range(n) if order[i] in near],
                    'thickest-panels', f'{case}: {got}')
        _, exc = ctx.attempt(mp.from_mp_to_blending_strip, cons, uniq[0])
        ctx.outcome('blendable' if ok else 'not blendable')
        if not ctx.require((exc is None) == ok, 'middle-ply-compatibility',
                           f'{case}: {exc!r}') or not ok:
            continue
        ctx.require(list(mp.reduced.middle_ply_indices)
                    == [(c + 1)//2 if sym and c % 2 else 0 for c in uniq],
                    'middle-plies', f'{case} strip')
        edges = [(i, i + 1) for i in range(n - 1)]
        if sym and len(set(par)) > 1:
            continue
        for target in range(1, uniq[-1] + 3):
            ctx.call('strip', mp.from_mp_to_blending_strip, cons, target)
            judge_strip(ctx, mp, order, edges, lambda a, b: 1, target, sym,
                        f'{case} {order}')


def components(tier):
    a = FnComponent('structure', cases_mp, check_mp)
    a.block = 2
    a.expect_outcomes = ('connected', 'disconnected')
    b = FnComponent('ply-counts', cases_sym, check_sym)
    b.expect_outcomes = ('blendable', 'not blendable')
    return [a, b]
