"""C13: RELAY improves the membrane properties and keeps the guidelines."""
import itertools
from collections import Counter
import numpy as np
from mc import ref, build
from mc.core import FnComponent
from mc.checks import c12

ASSUMPTIONS = c12.ASSUMPTIONS[1:] + [
    'the laminates handed over are those left by the repair for balance and '
    'the 10% rule (C12), as in RELAY, wherever a compliant laminate exists',
]
RULES = [
    dict(),
    c12.RULES[1],
    c12.RULES[2],
    c12.RULES[4],
    c12.RULES[3],
    dict(rule_10_percent=True, rule_10_Abdalla=True, percent_Abdalla=10),
    dict(rule_10_percent=True, rule_10_Abdalla=True, percent_Abdalla=3),
]
COEFFS = [(1, 1, 1, 1), (1, .5, 0, 0), (0, 0, 1, 0)]


def targets(angles):
    "lamination parameters far from, near and equal to those of laminates"
    out = [(1., 1., 0., 0.), (-1., 1., 0., 0.), (0., -1., 0., 0.),
           (0., 0., 0., 0.), (.5, 0., .3, 0.), (0., 0., -.8, 0.)]
    for mix in ((0, 45), (0, 90, 45, -45), (angles[1], 0, 0)):
        out.append(tuple(ref.lampam(mix)[:4]))
    return out


def cases(tier):
    tops = {(True, 4): 7, (True, 6): 6, (False, 4): 5, (False, 6): 3}
    if tier != 'quick':
        tops = {(True, 4): 9, (True, 6): 7, (False, 4): 6, (False, 6): 4}
    skip = 2 if tier == 'quick' else 1
    for sym in (True, False):
        for na, angles in ((4, ref.A4), (6, ref.A6)):
            for n in range(3, tops[sym, na] + 1):
                for mid in ((0, 90) if sym and n % 2 else (None,)):
                    for r in range(len(RULES)):
                        for bal in (True, False):
                            for dam in (0, 1, 3):
                                if dam and n < 6:
                                    continue
                                for f in angles:
                                    yield [sym, na, n, mid, r, bal, dam, skip,
                                           f]


def mixes(angles, n, sym, mid, first):
    "one laminate for each number of plies per orientation"
    free = n//2 if sym else n
    i = angles.index(first)
    for rest in itertools.combinations_with_replacement(angles[i:], free - 1):
        half = [first, *rest]
        if sym:
            yield half + ([mid] if n % 2 else []) + half[::-1]
        else:
            yield half


def cases_long(tier):
    tops = {(True, 4): (14, 15), (False, 4): (9,)}
    if tier != 'quick':
        tops = {(True, 4): (10, 14, 15, 20, 24), (True, 6): (12, 14),
                (False, 4): (9, 12, 14), (False, 6): (7, 8)}
    for (sym, na), ns in tops.items():
        for n in ns:
            for mid in ((0, 90) if sym and n % 2 else (None,)):
                for r in range(len(RULES)):
                    if na == 6 and 'rule_10_Abdalla' in RULES[r]:
                        continue
                    for bal in (True, False):
                        for f in {4: ref.A4, 6: ref.A6}[na]:
                            yield [sym, na, n, mid, r, bal, 0,
                                   2 if tier == 'quick' else 1, ['mix', f]]


def check(case, ctx):
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    from src.RELAY.repair_membrane import repair_membrane
    import types
    sym, na, n, mid, r, bal, dam, skip, first = case
    angles = {4: ref.A4, 6: ref.A6}[na]
    m = 2 if sym else 1
    kw = dict(dam_tol=True, dam_tol_rule=dam) if dam else {}
    cons = build.constraints(sym=sym, bal=bal, set_of_angles=angles,
                             **RULES[r], **kw)
    outer = {0: 0, 1: 1, 3: 2}[dam]
    pct = c12.limits(cons)
    model = c12.Model(cons, n, sym, angles, mid)
    if not model.good:
        return
    abdalla = cons.rule_10_percent and cons.rule_10_Abdalla
    cos_sin = {a: ref.lampam((a,))[:4] for a in angles}
    seen = set()
    tgts = [np.array(t + (0.,)*8) for t in targets(angles)]

    def totals(ss, queue):
        c = Counter(int(a) for a in ss if a != 666)
        for a in queue:
            c[int(a)] += m
        return c

    def allowed(c):
        if bal and any(c[a] != c[-a] for a in angles if a not in (0, 90)):
            return False
        if abdalla:
            return ref.abdalla_excess(cons.percent_Abdalla,
                                      *c12.lp12(c, n)) > -1e-9
        return not cons.rule_10_percent or ref.ten_ok(c, n, pct)

    def lampA(c):
        return sum(v*cos_sin[a] for a, v in c.items())/n
    if isinstance(first, list):
        stacks = mixes(angles, n, sym, mid, first[1])
    else:
        stacks = c12.laminates(angles, n, sym, mid, (first,))
    for stack in stacks:
        mini = calc_mini_10(cons, n)
        ss0, queue0 = repair_10_bal(np.array(stack, int), mini, cons)
        key = (tuple(ss0.tolist()), tuple(sorted(queue0)))
        if key in seen:
            continue
        seen.add(key)
        c0 = totals(ss0, queue0)
        if not allowed(c0):
            ctx.outcome('not compliant')
            continue
        ref_list = [int(a) for a in ss0]
        for ti, tgt in enumerate(tgts[::skip]):
            for ci, coeff in enumerate(COEFFS):
                w = np.array(coeff, float)
                for p_A in (100, 50):
                    ctx.state(case[:-1], ref_list, sorted(queue0), ti, ci,
                              p_A)
                    params = types.SimpleNamespace(
                        repair_membrane_switch=True, p_A=p_A)
                    q_in, s_in = list(queue0), ss0.copy()
                    sl, ql, ll = ctx.call(
                        'repair', repair_membrane, ss=s_in, ply_queue=q_in,
                        mini_10=mini.copy(), in_plane_coeffs=w,
                        parameters=params, constraints=cons,
                        lampam_target=tgt)

                    def text(i=None):
                        return (f'{sym=} {bal=} {RULES[r]} dam_tol {dam} '
                                f'p_A {p_A} target {tgt[:4]} {coeff}: '
                                f'{ref_list} + {queue0} -> '
                                f'{[s.tolist() for s in sl]} + {ql}'
                                + ('' if i is None else f' [{i}]'))
                    ctx.require(s_in.tolist() == ref_list
                                and q_in == list(queue0), 'input-kept', text)
                    ctx.require(len(sl) == len(ql) == len(ll), 'lists', text)
                    ctx.require(sl[-1].tolist() == ref_list
                                and sorted(ql[-1]) == sorted(queue0),
                                'starts-from-input', text)
                    objs = []
                    lo = max(outer, (100 - p_A)*n//200)
                    for i, (s, q, lp) in enumerate(zip(sl, ql, ll)):
                        s = [int(a) for a in s]
                        q = [int(a) for a in q]
                        c = totals(s, q)
                        ctx.state(case[:-1], s, sorted(q))
                        ctx.ok()
                        ctx.require(len(s) == n and len(q) == len(queue0)
                                    and [a == 666 for a in s]
                                    == [a == 666 for a in ref_list],
                                    'ply-counts', lambda: text(i))
                        ctx.require(not sym or s == s[::-1], 'symmetry',
                                    lambda: text(i))
                        ctx.require(all(a in angles or a == 666
                                        for a in s + q), 'orientations',
                                    lambda: text(i))
                        ctx.require(allowed(c), 'guidelines',
                                    lambda: text(i))
                        keep = [j for j in range(n)
                                if min(j, n - 1 - j) < lo
                                or (sym and n % 2 and j == n//2)]
                        ctx.require(all(s[j] == ref_list[j] for j in keep),
                                    'outer-plies', lambda: text(i))
                        want = lampA(c)
                        ctx.require(ref.close(lp, want), 'lamination-'
                                    'parameters', lambda: text(i)
                                    + f': {lp} != {want}')
                        objs.append(float((w*(want - tgt[:4])**2).sum()))
                    ctx.require(all(a < b + 1e-12 for a, b in zip(objs, objs[1:])),
                                'improves', lambda: text() + f': {objs}')
                    ctx.outcome('improved' if len(sl) > 1 else 'kept')
                    # no admissible change of plies is left out
                    if objs[0] <= 1e-10:
                        ctx.outcome('target reached')
                        continue
                    s = [int(a) for a in sl[0]]
                    free = Counter(int(a) for a in ql[0])
                    for j in range(lo, n//2 if sym else n - lo):
                        if s[j] != 666:
                            free[s[j]] += 1
                    moves = []
                    if bal:
                        pos = [a for a in angles if a >= 0]
                        for a in pos:
                            if min(free[a], free[-a]) < 1 or (
                                    a in (0, 90) and free[a] < 2):
                                continue
                            moves += [((a, -a), (b, -b)) for b in pos
                                      if b != a]
                        # single exchanges come last, then the repair ends
                        if len(sl) > 1:
                            c1, c2 = totals(sl[0], ql[0]), totals(sl[1], ql[1])
                            if sum(abs(c1[a] - c2[a]) for a in angles) == 2*m:
                                moves = []
                    else:
                        moves = [((a,), (b,)) for a in angles for b in angles
                                 if a != b and free[a]]
                    for olds, news in moves:
                        c = totals(sl[0], ql[0])
                        for a in olds:
                            c[90 if a == -90 else a] -= m
                        for a in news:
                            c[90 if a == -90 else a] += m
                        if not allowed(c):
                            continue
                        obj = float((w*(lampA(c) - tgt[:4])**2).sum())
                        ctx.require(obj > objs[0] - 1e-12, 'best-of-changes',
                                    lambda: text() + f': {olds} to {news} '
                                    f'gives {obj} < {objs[0]}')


def cases_off(tier):
    for sym in (True, False):
        for bal in (True, False):
            for mp in (True, False):
                for why in ('switch', 'coefficients'):
                    yield [sym, bal, mp, why]


def check_off(case, ctx):
    "no membrane repair when switched off or without in-plane objective"
    from src.RELAY.repair_membrane import repair_membrane
    import types
    sym, bal, mp, why = case
    cons = build.constraints(sym=sym, bal=bal, set_of_angles=ref.A4)
    n = 6
    for stack in c12.laminates(ref.A4, n, True, None):
        if bal and not ref.balanced(stack):
            continue
        ss = np.array(stack, int)
        ss[2:4] = 666
        queue = [stack[2]] if sym else [stack[2], stack[3]]
        params = types.SimpleNamespace(
            repair_membrane_switch=why != 'switch', p_A=100)
        w = np.zeros(4) if why == 'coefficients' else np.ones(4)
        ctx.state(case, stack)
        sl, ql, ll = ctx.call(
            'repair', repair_membrane, ss=ss.copy(), ply_queue=list(queue),
            mini_10=np.zeros(5), in_plane_coeffs=w, parameters=params,
            constraints=cons, lampam_target=np.ones(12),
            multipanel=object() if mp else None)
        ctx.ok()
        ctx.require(len(sl) == len(ql) == len(ll) == 1
                    and sl[0].tolist() == ss.tolist()
                    and list(ql[0]) == queue
                    and ref.close(ll[0], ref.lampam(stack)[:4]), 'off',
                    lambda: f'{ss} {queue} -> {sl} {ql} {ll}')


def components(tier):
    return [
        FnComponent('membrane-repair', cases, check, c12.setup_abdalla),
        FnComponent('long-laminates', cases_long, check, c12.setup_abdalla),
        FnComponent('switched-off', cases_off, check_off),
    ]
