"""C14: RELAY repairs a laminate for disorientation and contiguity."""
import contextlib
import io
import itertools
from collections import Counter
import numpy as np
from mc import ref, build
from mc.core import FnComponent
from mc.checks import c12

ASSUMPTIONS = [
    'the outer plies that a damage tolerance rule prescribes are known',
    'disorientation leaves out the outer plies that a damage tolerance rule '
    'prescribes in pairs (rules 2 and 3) and contiguity does not, as in '
    'check_lay_up_rules (C01)',
]
CONFIGS = [
    dict(diso=True, delta_angle=45, contig=True, n_contig=3),
    dict(diso=True, delta_angle=45, contig=True, n_contig=2),
    dict(diso=True, delta_angle=45, contig=False),
    dict(diso=False, contig=True, n_contig=2),
    dict(diso=False, contig=True, n_contig=3),
    dict(diso=True, delta_angle=30, contig=True, n_contig=4),
]


def compliant(stack, cfg, dam):
    s = ref.trimmed(stack, dam > 0, dam)
    if cfg['diso'] and ref.diso_pairs(s, cfg['delta_angle']):
        return False
    return not cfg['contig'] or not ref.contig_windows(list(stack),
                                                       cfg['n_contig'])


def cases(tier):
    if tier == 'quick':
        spaces = [(True, 4, range(2, 11)), (True, 6, range(4, 9)),
                  (False, 4, range(2, 7)), (False, 6, range(4, 5))]
    else:
        spaces = [(True, 4, range(2, 13)), (True, 6, range(2, 10)),
                  (False, 4, range(2, 8)), (False, 6, range(2, 6))]
    for sym, na, rng in spaces:
        angles = {4: ref.A4, 6: ref.A6}[na]
        for n in rng:
            free = n//2 if sym else n
            for mid in ((0, 90) if sym and n % 2 else (None,)):
                for ci, cfg in enumerate(CONFIGS):
                    if na == 4 and cfg.get('delta_angle') == 30:
                        continue
                    for dam in (0, 1, 2, 3):
                        if dam and n < 6:
                            continue
                        for d1 in (1, 2, 4, 6):
                            if d1 > free and d1 > 1:
                                continue
                            for f in angles:
                                if dam and abs(f) != 45:
                                    continue
                                yield [sym, na, n, mid, ci, dam, d1, f]


def check(case, ctx):
    from src.RELAY.repair_diso_contig import repair_diso_contig
    sym, na, n, mid, ci, dam, d1, first = case
    if sym:
        from src.RELAY.repair_from_outside_sym import (
            repair_diso_contig_from_outside_sym as outside)
    else:
        from src.RELAY.repair_from_outside_asym import (
            repair_diso_contig_from_outside_asym as outside)
    angles = {4: ref.A4, 6: ref.A6}[na]
    cfg = CONFIGS[ci]
    kw = dict(dam_tol=True, dam_tol_rule=dam) if dam else {}
    cons = build.constraints(sym=sym, set_of_angles=angles, **cfg, **kw)
    outer = {0: 0, 1: 1, 2: 2, 3: 2}[dam]
    m = 2 if sym else 1
    order = c12.inward_order(n, sym)
    seen = set()
    memo = {}

    def reachable(known, mult):
        "is there a compliant laminate with these outer plies"
        key = (known, tuple(sorted(mult.items())))
        if key not in memo:
            memo[key] = any(
                compliant(known + p + ((mid,) if mid is not None else ())
                          + (known + p)[::-1], cfg, dam)
                for p in set(itertools.permutations(mult.elements())))
        return memo[key]

    attempts = {}

    def chain(ss, queue):
        """the outermost plies to determine are the first of the queue with
        which the repair succeeds; inwards first, then outwards from there"""
        key = tuple(ss), tuple(queue)
        if key in attempts:
            return attempts[key]
        for i in ((0,) if sym else (0, n - 1)):
            if ss[i] == 666:
                out = None
                for j, a in enumerate(queue):
                    if a in queue[:j]:
                        continue
                    new = list(ss)
                    new[i] = a
                    if sym:
                        new[n - 1] = a
                    one = chain(new, queue[:j] + queue[j + 1:])
                    out = out or one
                    if one[2]:
                        out = one
                        break
                attempts[key] = out
                return out
        want, _ = greedy(ss, queue, cfg, dam, sym, d1, 'outside', angles)
        if want is not None:
            out = want, True, True
        else:
            whole, _ = outside(np.array(ss), list(queue), cons, d1)
            whole = [int(a) for a in whole]
            want, _ = greedy(whole, [], cfg, dam, sym, d1, 'inside', angles)
            out = want, False, want is not None
        attempts[key] = out
        return out

    for stack in c12.laminates(angles, n, sym, mid, (first,)):
        if dam and not ref.dam_tol_ok(stack, dam):
            continue
        lo = outer*(1 if sym else 2)
        for k in range(min(lo, len(order)), len(order) + 1):
            ss0 = list(stack)
            queue0 = []
            for i in order[k:]:
                queue0.append(stack[i])
                ss0[i] = 666
                if sym:
                    ss0[n - 1 - i] = 666
            queue0.sort()
            key = (tuple(ss0), tuple(queue0))
            if key in seen:
                continue
            seen.add(key)
            ctx.state(case[:-1], key)
            arr = np.array(ss0, int)
            got, inward, outward = ctx.call(
                'repair', repair_diso_contig, arr, list(queue0), cons, d1)
            got = [int(a) for a in got]
            ctx.state(case[:-1], key, got)
            ctx.ok()

            def text():
                return (f'{sym=} {cfg} dam_tol {dam} n_D1 {d1}: {ss0} + '
                        f'{queue0} -> {got} inward {inward} outward '
                        f'{outward}')
            ctx.require(arr.tolist() == ss0, 'input-kept', text)
            want = Counter(a for a in ss0 if a != 666)
            for a in queue0:
                want[a] += m
            ctx.require(Counter(got) == want, 'same-plies', text)
            ctx.require(not sym or got == got[::-1], 'symmetry', text)
            ctx.require(not sym or n % 2 == 0 or got[n//2] == mid,
                        'middle-ply', text)
            ends = list(range(outer)) + list(range(n - outer, n))
            ctx.require(all(got[i] == ss0[i] for i in ends), 'outer-plies',
                        text)
            ctx.require((inward, outward) == chain(ss0, queue0)[1:]
                        and (not inward or got == chain(ss0, queue0)[0]),
                        'order-of-attempts',
                        lambda: f'{text()}: {chain(ss0, queue0)}')
            ok = compliant(got, cfg, dam)
            if outward:
                ctx.outcome('repaired')
                ctx.require(ok, 'repaired', text)
            else:
                ctx.outcome('not repaired')
                ctx.require(not inward, 'inward-implies-outward', text)
            if k == len(order) and compliant(stack, cfg, dam):
                ctx.outcome('compliant')
                ctx.require(outward and got == stack, 'compliant-kept', text)
            kept = 2 if dam > 1 else min(k, 1)
            if sym and n//2 - kept <= d1 and not outward:
                mult = Counter(a for a in ss0[kept:n//2] if a != 666)
                for a in queue0:
                    mult[a] += 1
                ctx.require(not reachable(tuple(ss0[:kept]), mult),
                            'repairable', text)


def preferred(beside, queue, angles):
    """plies of the queue in the order they are tried next to a ply: least
    change of orientation first, and positive changes before negative ones"""
    def change(a):
        d = (a - beside + 90) % 180 - 90
        return abs(d), d < 0 and d != -90
    return sorted(set(queue), key=change)


def greedy(ss, queue, cfg, dam, sym, d1, way, angles):
    """the plies are placed one after the other, each one the first of those
    left that suits its neighbours, up to the last d1 ones, which are placed
    in the first order that suits the laminate; returns the laminate or None,
    and the plies placed one by one (None where the others are)"""
    n = len(ss)
    half = n//2
    outer = {0: 0, 1: 1, 2: 2, 3: 2}[dam]
    left = list(queue)
    top, bot, mid = [], [], []
    if way == 'outside':
        kept = max(outer, 1)
        top = list(ss[:kept])
        bot = list(ss[n - kept:])
        if sym:
            todo = list(range(kept, half))
        else:
            up = list(range(kept, half))
            down = list(range(half, n - kept))[::-1]
            todo = [x for pair in itertools.zip_longest(down, up)
                    for x in pair if x is not None]
    elif sym:
        mid = list(ss[half:half + 1]) if n % 2 else [ss[half]]*2
        todo = list(range(outer, half - 1 + n % 2))[::-1]
    else:
        size = n - 2*outer
        up = list(range(outer, outer + size//2))[::-1]
        down = list(range(outer + size//2, n - outer))
        mid = [ss[down[0]]]
        todo = [x for pair in itertools.zip_longest(down, up)
                for x in pair if x is not None][1:]
    ends = list(ss[:outer]), list(ss[n - outer:])

    def fits(row, at):
        a, b = row[at:at + 2] if at >= 0 else row[-2:]
        if cfg['diso'] and ref.diso_pairs([a, b], cfg['delta_angle']):
            return False
        return not cfg['contig'] or not ref.contig_windows(row,
                                                           cfg['n_contig'])
    step = 0
    while len(todo) > d1:
        for i in todo:
            if ss[i] != 666:
                options = [ss[i]]
            else:
                beside = (top[-1] if sym or step % 2 else bot[0])
                options = preferred(beside, left, angles)
            found = False
            for a in options:
                if way == 'outside' and (sym or step % 2):
                    row, at = top + [a], -1
                elif way == 'outside':
                    row, at = [a] + bot, 0
                elif sym:
                    row, at = [a] + mid + [a], 0
                elif step % 2:
                    row, at = mid + [a], -1
                else:
                    row, at = [a] + mid, 0
                if fits(row, at):
                    found = True
                    break
            if found:
                break
        if not found:
            return None, None
        if way == 'inside':
            mid = row
        elif sym or step % 2:
            top = row
        else:
            bot = row
        todo.remove(i)
        if ss[i] == 666:
            left.remove(a)
        step += 1
    todo = todo if sym else sorted(todo)
    rest = [ss[i] if ss[i] != 666 else left.pop(0) for i in todo]
    for p in itertools.permutations(rest):
        p = list(p)
        if way == 'outside' and sym:
            got = top + p
            got = got + list(ss[half:half + n % 2]) + got[::-1]
        elif way == 'outside':
            got = top + p + bot
        elif sym:
            got = ends[0] + p + mid + p[::-1] + ends[1]
        else:
            got = (ends[0] + p[:len(p)//2] + mid + p[len(p)//2:] + ends[1])
        if compliant(got, cfg, dam):
            return got, (mid if way == 'inside' else None)
    return None, None


def cases_ways(tier):
    if tier == 'quick':
        spaces = [(True, 4, range(2, 10)), (False, 4, range(2, 6))]
    else:
        spaces = [(True, 4, range(2, 12)), (True, 6, range(2, 9)),
                  (False, 4, range(2, 7)), (False, 6, range(2, 5))]
    for sym, na, rng in spaces:
        angles = {4: ref.A4, 6: ref.A6}[na]
        for n in rng:
            for mid in ((0, 90) if sym and n % 2 else (None,)):
                for ci, cfg in enumerate(CONFIGS):
                    if na == 4 and cfg.get('delta_angle') == 30:
                        continue
                    for dam in (0, 1, 2, 3):
                        if dam and n < 6 - (not sym):
                            continue
                        for d1 in (1, 2, 3):
                            if d1 > (n//2 if sym else n) and d1 > 1:
                                continue
                            for f in angles:
                                if dam and abs(f) != 45:
                                    continue
                                for way in ('inside', 'outside'):
                                    yield [sym, na, n, mid, ci, dam, d1, f,
                                           way]


def check_ways(case, ctx):
    "each direction of the repair by itself, plies of the queue included"
    import importlib
    sym, na, n, mid, ci, dam, d1, first, way = case
    name = f'{way}_{"sym" if sym else "asym"}'
    mod = importlib.import_module('src.RELAY.repair_from_' + name)
    func = getattr(mod, 'repair_diso_contig_from_' + name)
    angles = {4: ref.A4, 6: ref.A6}[na]
    cfg = CONFIGS[ci]
    kw = dict(dam_tol=True, dam_tol_rule=dam) if dam else {}
    cons = build.constraints(sym=sym, set_of_angles=angles, **cfg, **kw)
    outer = {0: 0, 1: 1, 2: 2, 3: 2}[dam]
    m = 2 if sym else 1
    order = c12.inward_order(n, sym)
    seen = set()
    for stack in c12.laminates(angles, n, sym, mid, (first,)):
        if dam and not ref.dam_tol_ok(stack, dam):
            continue
        # the outermost plies are known, and all of them from the inside out
        lo = max(outer, 1)*(1 if sym else 2)
        if way == 'inside':
            lo = len(order)
        for k in range(min(lo, len(order)), len(order) + 1):
            ss0 = list(stack)
            queue0 = []
            for i in order[k:]:
                queue0.append(stack[i])
                ss0[i] = 666
                if sym:
                    ss0[n - 1 - i] = 666
            queue0.sort()
            key = (tuple(ss0), tuple(queue0))
            if key in seen:
                continue
            seen.add(key)
            ctx.state(case[:-2], key, way)
            arr = np.array(ss0, int)
            with contextlib.redirect_stdout(io.StringIO()):
                got, done = ctx.call('repair', func, arr, list(queue0), cons,
                                     d1)
            got = [int(a) for a in got]
            ctx.state(case[:-2], key, way, got)
            ctx.ok()

            def text():
                return (f'{way} {sym=} {cfg} dam_tol {dam} n_D1 {d1}: {ss0} '
                        f'+ {queue0} -> {got} {done}')
            want = Counter(a for a in ss0 if a != 666)
            for a in queue0:
                want[a] += m
            ctx.require(arr.tolist() == ss0, 'input-kept', text)
            ctx.require(Counter(got) == want, 'same-plies', text)
            ctx.require(not sym or got == got[::-1], 'symmetry', text)
            ctx.require(not sym or n % 2 == 0 or got[n//2] == mid,
                        'middle-ply', text)
            ends = list(range(outer)) + list(range(n - outer, n))
            ctx.require(all(got[i] == ss0[i] for i in ends), 'outer-plies',
                        text)
            if done:
                ctx.outcome('repaired')
                ctx.require(compliant(got, cfg, dam), 'repaired', text)
            else:
                ctx.outcome('not repaired')
            want, inner = greedy(ss0, queue0, cfg, dam, sym, d1, way, angles)
            ctx.require(bool(done) == (want is not None), 'reached', lambda:
                        f'{text()}: {want}')
            if done and want:
                at = (n - len(inner))//2 if inner else 0
                ctx.require(got == want or way == 'inside' and inner
                            and any(got[i:i + len(inner)] == inner
                                    for i in (at, at + 1)), 'first', lambda:
                            f'{text()} not {want}')
            if k == len(order) and compliant(stack, cfg, dam):
                ctx.outcome('compliant')
                ctx.require(way == 'inside' or done and got == stack,
                            'compliant-kept', text)


def cases_list(tier):
    for sym in (True, False):
        for n in ((6, 8) if sym else (5,)):
            for f in ref.A4:
                yield [sym, n, f]


def check_list(case, ctx):
    "the first laminate of a list that can be repaired is returned"
    from src.RELAY.repair_diso_contig import (
        repair_diso_contig, repair_diso_contig_list)
    sym, n, first = case
    cfg = CONFIGS[1]
    cons = build.constraints(sym=sym, set_of_angles=ref.A4, **cfg)
    bad = [90, 0, 90, 0][:n//2] if sym else [90, 0, 90, 0, 90]
    bad = bad + bad[::-1] if sym else bad
    for stack in c12.laminates(ref.A4, n, sym, None, (first,)):
        one = repair_diso_contig(np.array(stack), [], cons, 4)
        res_bad = repair_diso_contig(np.array(bad), [], cons, 4)
        for lst in itertools.product((stack, bad), repeat=3):
            ctx.state(case, stack, lst)
            got = ctx.call('list', repair_diso_contig_list,
                           [np.array(s) for s in lst], [[], [], []], cons, 4)
            ctx.ok()
            which = [i for i, s in enumerate(lst)
                     if s == stack and one[2]] if one[2] else []
            if which:
                want = (list(one[0]), bool(one[1]), True, which[0])
            else:
                r = one if lst[0] == stack else res_bad
                want = (list(r[0]), False, False, 0)
            got = (list(got[0]), bool(got[1]), bool(got[2]), got[3])
            ctx.outcome('found' if which else 'none')
            ctx.require(got == want, 'list',
                        lambda: f'{lst}: {got} != {want}')


def components(tier):
    comp = FnComponent('list-of-laminates', cases_list, check_list)
    comp.expect_outcomes = ('found', 'none')
    main = FnComponent('repair', cases, check)
    main.expect_outcomes = ('repaired', 'not repaired', 'compliant')
    ways = FnComponent('one-direction', cases_ways, check_ways)
    ways.expect_outcomes = ('repaired', 'not repaired', 'compliant')
    return [main, ways, comp]
