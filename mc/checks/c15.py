"""C15: RELAY improves the flexural properties and keeps the guidelines."""
import itertools
import types
import numpy as np
from mc import ref, build
from mc.core import FnComponent
from mc.checks import c12, c14

ASSUMPTIONS = [
    'the laminates handed over are those left by the repair for '
    'disorientation and contiguity (C14): compliant with the active rules',
    'n_D2 at least one, as the number of ply shifts tested at each step',
]
CONFIGS = [
    dict(diso=True, delta_angle=45, contig=True, n_contig=3),
    dict(diso=True, delta_angle=45, contig=True, n_contig=2),
    dict(diso=False, contig=True, n_contig=2),
    dict(diso=True, delta_angle=30, contig=True, n_contig=4),
    dict(diso=True, delta_angle=45, contig=False),
    dict(diso=False, contig=False),
]
COEFFS = [(1., 1., 1., 1.), (1., .5, 0., 0.), (0., 0., 1., 1.)]
TARGETS = [(1., 1., 0., 0.), (-1., 1., 0., 0.), (0., -1., 0.8, 0.),
           (.2, 0., -.8, .1)]


def outer_plies(dam):
    return {0: 0, 1: 1, 2: 2, 3: 2}[dam]


def shift_orders(n, sym, outer):
    "positions from the outermost inwards, those a ply is taken from and to"
    if sym:
        return list(range(outer, n//2))
    top, bot = list(range(n//2)), list(range(n - 1, n//2 - 1, -1))
    out = []
    for i in range(len(bot)):
        out.append(bot[i])
        if i < len(top):
            out.append(top[i])
    return out[2*outer:]


def mirrored(half, n, mid):
    return tuple(half) + ((mid,) if n % 2 else ()) + tuple(half)[::-1]


def shifts(stack, n, sym, mid, outer, n_shift):
    "laminates after one ply was moved outwards within the ply shifts tested"
    order = shift_orders(n, sym, outer)
    base = list(stack[:n//2]) if sym else list(stack)
    for k, a in enumerate(order[:-1]):
        for b in order[k + 1:k + 1 + n_shift]:
            new = list(base)
            new.insert(a, new.pop(b))
            yield mirrored(new, n, mid) if sym else tuple(new)


def blocks(stack, n, sym):
    "runs of plies (start, count) of the half laminate, or of all of it"
    top = n//2 if sym else n
    runs, i = [], 0
    while i < top:
        j = i
        while j < top and stack[j] == stack[i]:
            j += 1
        runs.append((i, j - i))
        i = j
    if sym and n % 2 and runs and stack[n//2] == stack[top - 1]:
        runs.pop()
    return runs


def block_swaps(stack, n, sym, mid, outer):
    "laminates after two blocks with as many plies exchanged places"
    runs = blocks(stack, n, sym)
    runs = [r for r in runs if r[0] >= outer
            and (sym or r[0] + r[1] <= n - outer)]
    for (i, k), (j, k2) in itertools.combinations(runs, 2):
        if k != k2 or stack[i] == stack[j] or i + k == j:
            continue
        new = list(stack[:n//2]) if sym else list(stack)
        new[i:i + k], new[j:j + k] = [stack[j]]*k, [stack[i]]*k
        if len(blocks(mirrored(new, n, mid) if sym else new, n, sym)) \
                != len(blocks(stack, n, sym)):
            continue            # merges with the block next to it
        yield mirrored(new, n, mid) if sym else tuple(new)


def cases(tier):
    if tier == 'quick':
        tops = {(True, 4): 10, (True, 6): 8, (False, 4): 5, (False, 6): 4}
    skip = 2 if tier == 'quick' else 1
    if tier != 'quick':
        tops = {(True, 4): 11, (True, 6): 9, (False, 4): 6, (False, 6): 4}
    for sym in (True, False):
        for na, angles in ((4, ref.A4), (6, ref.A6)):
            for n in range(2, tops[sym, na] + 1):
                for mid in ((0, 90) if sym and n % 2 else (None,)):
                    for ci, cfg in enumerate(CONFIGS):
                        if na == 4 and cfg.get('delta_angle') == 30:
                            continue
                        for dam in (0, 1, 2, 3):
                            if dam and (n < 6 if sym else n < 5):
                                continue
                            for n_d2, n_d3 in ((1, 1), (2, 2), (10, 1)):
                                for f in angles:
                                    if dam and abs(f) != 45:
                                        continue
                                    yield [sym, na, n, mid, ci, dam, n_d2,
                                           n_d3, skip, f]


def check(case, ctx):
    from src.RELAY.repair_flexural import repair_flexural
    sym, na, n, mid, ci, dam, n_d2, n_d3, skip, first = case
    angles = {4: ref.A4, 6: ref.A6}[na]
    cfg = CONFIGS[ci]
    outer = outer_plies(dam)
    kw = dict(dam_tol=True, dam_tol_rule=dam) if dam else {}
    cons = build.constraints(sym=sym, set_of_angles=angles, **cfg, **kw)
    memo = {}

    def lampD(stack):
        if stack not in memo:
            memo[stack] = np.array(ref.lampam(stack)[8:12])
        return memo[stack]
    for stack in c12.laminates(angles, n, sym, mid, (first,)):
        stack = tuple(stack)
        if dam and not ref.dam_tol_ok(stack, dam):
            continue
        if not c14.compliant(stack, cfg, dam):
            ctx.outcome('not compliant')
            continue
        near = None
        for ti, tgt in enumerate(TARGETS[::skip] + ['own']):
            tgt = np.array(tgt) if tgt != 'own' else lampD(stack)
            full = np.concatenate((np.zeros(8), tgt))
            for coeff in COEFFS:
                w = np.array(coeff)
                ctx.state(case, stack, ti, coeff)
                params = types.SimpleNamespace(
                    repair_flexural_switch=True, n_D2=n_d2, n_D3=n_d3)
                arr = np.array(stack, int)
                got, calls = ctx.call(
                    'repair', repair_flexural, arr, cons, w, params,
                    lampam_target=full, count_obj=True)
                ctx.ok()
                got = tuple(int(a) for a in got)
                ctx.state(case, got)

                def text():
                    return (f'{sym=} {cfg} dam_tol {dam} n_D2 {n_d2} n_D3 '
                            f'{n_d3} target {tgt} {coeff}: {stack} -> {got}')
                ctx.require(arr.tolist() == list(stack), 'input-kept', text)
                ctx.require(sorted(got) == sorted(stack), 'same-plies', text)
                ctx.require(not sym or got == got[::-1], 'symmetry', text)
                ctx.require(not sym or n % 2 == 0 or got[n//2] == mid,
                            'middle-ply', text)
                ctx.require(got[:outer] == stack[:outer]
                            and got[n - outer:] == stack[n - outer:],
                            'outer-plies', text)
                ctx.require(c14.compliant(got, cfg, dam), 'compliant',
                            text)

                def obj(s):
                    return float((w*(lampD(s) - tgt)**2).sum())
                o0, o1 = obj(stack), obj(got)
                ctx.require(o1 <= o0 + 1e-9, 'never-worse',
                            lambda: f'{text()}: {o0} -> {o1}')
                ctx.require(calls >= 1, 'calls-counted', text)
                if got != stack:
                    ctx.outcome('changed')
                    ctx.require(o1 < o0 + 1e-12, 'better', text)
                    continue
                ctx.outcome('unchanged')
                if near is None:
                    near = [s for s in shifts(stack, n, sym, mid, outer, n_d2)
                            if c14.compliant(s, cfg, dam)]
                    if cfg['diso'] or cfg['contig']:
                        near += [s for s in block_swaps(stack, n, sym, mid,
                                                        outer)
                                 if c14.compliant(s, cfg, dam)]
                if o0 > 1e-9:
                    for s in near:
                        ctx.require(obj(s) > o0 - 1e-9, 'improvable',
                                    lambda: f'{text()}: {s} is better')
                if ti == 0:
                    for off, ww in ((False, w), (True, 0*w)):
                        p2 = types.SimpleNamespace(
                            repair_flexural_switch=off, n_D2=n_d2, n_D3=n_d3)
                        g = ctx.call('off', repair_flexural, arr, cons, ww,
                                     p2, lampam_target=full)
                        ctx.require(tuple(g) == stack, 'switched-off', text)


def cases_delta(tier):
    top = {True: 9, False: 6} if tier == 'quick' else {True: 12, False: 8}
    for sym in (True, False):
        for n in range(2, top[sym] + 1):
            for f in ref.A6:
                yield [sym, n, f]


def check_delta(case, ctx):
    "change of the lamination parameters when two groups of plies swap"
    from src.RELAY.repair_flexural_tools import (
        calc_delta_lampamD_swap, calc_delta_lampamD_swap_1)
    sym, n, first = case
    cons = build.constraints(sym=sym, set_of_angles=ref.A6)
    top = n//2 if sym else n
    for second in ref.A6:
        for p1 in range(1, top + 1):
            for p2 in range(1, top + 1):
                if p1 == p2:
                    continue
                for k in range(1, min(abs(p1 - p2), top - max(p1, p2) + 1)
                               + 1):
                    ctx.state(case, second, p1, p2, k)
                    before, after = [0]*n, [0]*n
                    for i in range(k):
                        for lst, a, b in ((before, first, second),
                                          (after, second, first)):
                            lst[p1 - 1 + i] = a
                            lst[p2 - 1 + i] = b
                            if sym:
                                lst[n - p1 - i] = a
                                lst[n - p2 - i] = b
                    want = np.array(ref.lampam(tuple(after))[8:12]) \
                        - np.array(ref.lampam(tuple(before))[8:12])
                    for got in (
                            ctx.call('delta_1', calc_delta_lampamD_swap_1,
                                     first, second, p1, p2, k, n, cons),
                            ctx.call('delta', calc_delta_lampamD_swap, first,
                                     second, p1 + np.arange(k),
                                     p2 + np.arange(k), n, cons)):
                        ctx.ok()
                        ctx.require(np.allclose(got, want, atol=1e-9),
                                    'delta', lambda: f'{sym=} {n=} {first} '
                                    f'{second} {p1} {p2} {k}: {got} {want}')


BLOCK_RULES = [dict(diso=True, delta_angle=45, contig=True, n_contig=3),
               dict(diso=True, delta_angle=30, contig=True, n_contig=3),
               dict(diso=False, contig=True, n_contig=3)]


def cases_blocks(tier):
    half, full = (5, 5) if tier == 'quick' else (6, 6)
    for rule in range(len(BLOCK_RULES)):
        for angles in (ref.A6, ref.A8):
            for n in range(2, 2*half + 2):
                for first in angles:
                    yield [True, n, rule, angles, first]
            for n in range(2, full + 1):
                for first in angles:
                    yield [False, n, rule, angles, first]


def runs(word, n, sym):
    """blocks of the laminate from the innermost (symmetric) or the last one:
    (angle, number of plies, first ply, orientations next to it)"""
    if sym and n % 2:
        top = n//2
        while top and word[top - 1] == word[n//2]:
            top -= 1
        inner = [word[n//2]]
    else:
        top, inner = n//2 if sym else n, []
    out, end = [], top
    while end:
        start = end
        while start and word[start - 1] == word[end - 1]:
            start -= 1
        near = set(inner) | ({word[start - 1]} if start else set())
        out.append((word[end - 1], end - start, start, near))
        inner, end = [word[end - 1]], start
    return out


def allowed(angle, near, angles, rule):
    "orientations that a block can take next to its neighbours"
    if not near:
        return None
    return {a for a in angles if a != angle and a not in near
            and (not rule['diso'] or all(
                ref.ang_dist(a, b) <= rule['delta_angle'] for b in near))}


def agree(got, word, n, sym, angles, rule, ctx, what):
    "the blocks listed are those of the laminate"
    want = runs(word, n, sym)
    ctx.require(len(got) == len(want), what,
                lambda: f'{word}: {len(got)} blocks, not {len(want)}')
    far = [b.distance_middle for b in got]
    ctx.require(far == sorted(far, reverse=True), what + '-order',
                lambda: f'{word}: distances from the middle {far}')
    ctx.require(sorted(b.ID for b in got) == list(range(len(want))),
                what + '-numbers', lambda: f'{word}: {[b.ID for b in got]}')
    for b in got:
        angle, count, first, near = want[b.ID]
        ctx.require((b.angle, b.n_block_of_plies, b.first_ply_pos) == (
            angle, count, first), what + '-plies',
            lambda: f'{word} {sym=}: {b} {want}')
        edge = max(abs(n - 2*first), abs(2*(first + count) - n))/n
        ctx.require(abs(b.distance_middle - edge) < 1e-12, what + '-distance',
                    lambda: f'{word} {sym=}: {b} {edge}')
        can = allowed(angle, near, angles, rule)
        if can is not None:
            ctx.require(set(b.possible_angles) == can, what + '-angles',
                        lambda: f'{word} {sym=}: {b} {sorted(can)}')


def check_blocks(case, ctx):
    "blocks of equal plies the repair swaps, and their possible orientations"
    from src.RELAY.repair_flexural_tools import find_list_blocks
    sym, n, which, angles, first = case
    rule = BLOCK_RULES[which]
    cons = build.constraints(sym=sym, set_of_angles=angles, **rule)
    free = (n + 1)//2 if sym else n
    used = sorted({first, 0, 45, 90})
    for rest in itertools.product(used, repeat=free - 1):
        half = (first,) + rest
        word = half + half[:n//2][::-1] if sym else half
        ctx.state(case, word)
        ctx.ok()
        new = lambda: ctx.call('find_list_blocks', find_list_blocks,
                               np.array(word, int), n, cons)
        agree(new(), word, n, sym, angles, rule, ctx, 'blocks')
        if len(runs(word, n, sym)) < 2:
            continue
        mid = word[n//2] if sym and n % 2 else None
        for block in range(len(runs(word, n, sym))):
            for angle in allowed(runs(word, n, sym)[block][0],
                                 runs(word, n, sym)[block][3], angles, rule):
                got = new()
                one = next(b for b in got if b.ID == block)
                one.angle = angle
                ctx.call('update_possible_angles', one.update_possible_angles,
                         cons, got, mid)
                changed = list(word)
                for i in range(one.n_block_of_plies):
                    changed[one.first_ply_pos + i] = angle
                    if sym:
                        changed[n - 1 - one.first_ply_pos - i] = angle
                agree(got, tuple(changed), n, sym, angles, rule, ctx,
                      'update')


def components(tier):
    main = FnComponent('repair', cases, check)
    main.expect_outcomes = ('changed', 'unchanged')
    return [FnComponent('swap-delta', cases_delta, check_delta),
            FnComponent('blocks', cases_blocks, check_blocks), main]
