"""C12: RELAY repairs a laminate for balance and the 10% rule."""
import itertools
from collections import Counter
from fractions import Fraction
import functools
import numpy as np
from mc import ref, build
from mc.core import FnComponent

ASSUMPTIONS = [
    'contract claimed where the plies asked for exist: laminates with too few '
    'plies for any compliant laminate are only required to end',
    'orientation 666 stands for a ply still to be positioned, a ply queue '
    'for the orientations of those plies (of half of them if symmetric)',
    'the distance to the feasible region of the 10% rule of Abdalla is '
    'evaluated with fewer boundary points (60) than the default (10000)',
]

RULES = [
    dict(),
    dict(rule_10_percent=True, percent_0=10, percent_45=10, percent_90=10,
         percent_135=10),
    dict(rule_10_percent=True, percent_0=10, percent_90=10, percent_45=0,
         percent_135=0, percent_45_135=20),
    dict(rule_10_percent=True, percent_0=25, percent_90=15, percent_45=5,
         percent_135=15),
    dict(rule_10_percent=True, percent_0=30, percent_90=0, percent_45=0,
         percent_135=0, percent_45_135=30),
    dict(rule_10_percent=True, percent_0=0, percent_90=40, percent_45=0,
         percent_135=0, percent_45_135=20),
    dict(rule_10_percent=True, percent_0=10, percent_90=10, percent_45=10,
         percent_135=10, percent_45_135=20),
    dict(rule_10_percent=True, percent_0=10, percent_90=0, percent_45=15,
         percent_135=5, percent_45_135=35),
]


def frac(v):
    return Fraction(v).limit_denominator(1000)*100


def limits(c):
    return {0: frac(c.percent_0), 90: frac(c.percent_90),
            45: frac(c.percent_45), -45: frac(c.percent_135),
            '45': frac(c.percent_45_135)}


def inward_order(n, sym):
    "ply indices from the outside to the inside, as plies are kept"
    if sym:
        return list(range(n//2))
    top, bot = list(range(n//2)), list(range(n//2, n))[::-1]
    out = []
    while top or bot:
        if bot:
            out.append(bot.pop(0))
        if top:
            out.append(top.pop(0))
    return out


class Model:
    "all completions of a laminate with n plies that meet the rules"

    def __init__(self, cons, n, sym, angles, mid):
        pct = limits(cons)
        m = 2 if sym else 1
        self.free = n//2 if sym else n
        self.angles = angles
        self.good = []
        for comp in ref.compositions(self.free, len(angles)):
            c = Counter()
            for a, v in zip(angles, comp):
                c[a] += m*v
            if mid is not None:
                c[mid] += 1
            if cons.rule_10_percent and not cons.rule_10_Abdalla \
            and not ref.ten_ok(c, n, pct):
                continue
            if cons.ipo and any(c[a] != c[-a] for a in angles
                                if a not in (0, 90)):
                continue
            self.good.append(comp)

    @functools.lru_cache(None)
    def completable(self, known):
        return any(all(k <= g for k, g in zip(known, comp))
                   for comp in self.good)

    def kept(self, plies):
        "number of outer plies to keep: the longest completable prefix"
        known = [0]*len(self.angles)
        for i, a in enumerate(plies):
            known[self.angles.index(a)] += 1
            if not self.completable(tuple(known)):
                return i
        return len(plies)


def laminates(angles, n, sym, mid, first=None):
    free = n//2 if sym else n
    for half in itertools.product(angles, repeat=free):
        if first is not None and half[:1] != first:
            continue
        if sym:
            yield list(half) + ([mid] if n % 2 else []) + list(half[::-1])
        else:
            yield list(half)


def settings(layla, **kw):
    "the guidelines as BELLA or as LAYLA define them"
    if not layla:
        return build.constraints(**kw)
    from src.LAYLA_V02.constraints import Constraints
    kw['set_of_angles'] = np.array(kw['set_of_angles'], int)
    if layla == 'ipo' and kw['bal']:
        # LAYLA obtains in-plane orthotropy with balance
        kw.update(bal=False, ipo=True)
    return Constraints(**kw)


def cases_counts(tier):
    tops = {(True, 4): 11, (True, 6): 9, (False, 4): 6, (False, 6): 5}
    if tier != 'quick':
        tops = {(True, 4): 13, (True, 6): 11, (False, 4): 7, (False, 6): 5}
    for sym in (True, False):
        for na, angles in ((4, ref.A4), (6, ref.A6)):
            for n in range(2, tops[sym, na] + 1):
                mids = (0, 90) if sym and n % 2 else (None,)
                for mid in mids:
                    for r in range(len(RULES)):
                        for bal in (True, False):
                            if not RULES[r] and not bal:
                                continue
                            for f in angles:
                                for layla in (False, True, 'ipo')[:2 + bal]:
                                    yield [sym, na, n, mid, r, bal, f, layla]


def check_counts(case, ctx):
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    sym, na, n, mid, r, bal, first, layla = case
    angles = {4: ref.A4, 6: ref.A6}[na]
    cons = settings(layla, sym=sym, bal=bal, set_of_angles=angles, **RULES[r])
    pct = limits(cons)
    m = 2 if sym else 1
    model = Model(cons, n, sym, angles, mid)
    order = inward_order(n, sym)
    if not model.good:
        ctx.outcome('no compliant laminate')
    for stack in laminates(angles, n, sym, mid, (first,)):
        ini = np.array(stack, int)
        ctx.state(sym, na, r, bal, stack)
        ss, queue = ctx.call('repair', repair_10_bal, ini,
                             calc_mini_10(cons, n), cons)
        ss = [int(a) for a in ss]
        queue = [int(a) for a in queue]
        ctx.state(sym, na, r, bal, stack, ss, queue)
        ctx.require(ini.tolist() == stack, 'input-kept',
                    lambda: f'{stack} became {ini.tolist()}')
        ctx.require(len(ss) == n, 'ply-count', lambda: f'{stack} -> {ss}')
        if not model.good:
            continue
        ctx.ok()

        def text():
            return (f'{cons.sym=} {bal=} {RULES[r]} {stack} -> {ss} with '
                    f'queue {queue}')
        want = model.kept([stack[i] for i in order])
        exp = list(stack)
        for i in order[want:]:
            exp[i] = 666
            if sym:
                exp[n - 1 - i] = 666
        left = m*len(queue) == ss.count(666)
        if not ctx.require(left, 'queue-size', text):
            continue
        total = Counter(a for a in ss if a != 666)
        for a in queue:
            total[a] += m
        if cons.rule_10_percent:
            ctx.require(ref.ten_ok(total, n, pct), 'ten-percent', text)
        if bal:
            ctx.require(all(total[a] == total[-a] for a in angles
                            if a not in (0, 90)), 'balance', text)
        ctx.require(all(a in angles for a in queue), 'orientations', text)
        if ctx.require(ss == exp, 'outer-plies-kept', lambda: text()
                       + f', expected the plies {exp}'):
            ctx.outcome('unchanged' if 666 not in ss else 'changed')


# -------------------------------------------------------------------- Abdalla
def setup_abdalla():
    import src.guidelines.ten_percent_rule_Abdalla as mod
    if hasattr(mod, '_mc'):
        return
    real = mod.calc_distance_Abdalla

    @functools.lru_cache(None)
    def cached(lp1, lp2, pct):
        class Cons:
            rule_10_percent = True
            rule_10_Abdalla = True
            percent_Abdalla = pct
        return real(np.array([lp1, lp2]), Cons, 60)

    def dist(LPs, constraints, num=None):
        if not (constraints.rule_10_percent and constraints.rule_10_Abdalla):
            return real(LPs, constraints, 60)
        return cached(round(float(LPs[0]), 10), round(float(LPs[1]), 10),
                      constraints.percent_Abdalla)
    mod.calc_distance_Abdalla = dist
    mod._mc = True
    import sys
    for name in list(sys.modules):
        if name.startswith('src.RELAY') \
        and getattr(sys.modules[name], 'calc_distance_Abdalla', 0) is real:
            sys.modules[name].calc_distance_Abdalla = dist


def cases_abdalla(tier):
    tops = {(True, 4): 9, (True, 6): 7, (False, 4): 5, (False, 6): 4}
    if tier != 'quick':
        tops = {(True, 4): 12, (True, 6): 10, (False, 4): 6, (False, 6): 5}
    for sym in (True, False):
        for na, angles in ((4, ref.A4), (6, ref.A6)):
            for n in range(2, tops[sym, na] + 1):
                for mid in ((0, 90) if sym and n % 2 else (None,)):
                    for p in (10, 15, 20):
                        for bal in (True, False):
                            for dam in (0, 1, 2, 3):
                                if dam and n < 6:
                                    continue
                                for f in angles:
                                    yield [sym, na, n, mid, p, bal, dam, f]


def lp12(total, n):
    lp = np.zeros(2)
    for a, v in total.items():
        lp += v*np.array([np.cos(2*np.radians(a)), np.cos(4*np.radians(a))])
    return lp/n


def check_abdalla(case, ctx):
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    sym, na, n, mid, p, bal, dam, first = case
    angles = {4: ref.A4, 6: ref.A6}[na]
    m = 2 if sym else 1
    kw = dict(dam_tol=True, dam_tol_rule=dam) if dam else {}
    cons = build.constraints(sym=sym, bal=bal, set_of_angles=angles,
                             rule_10_percent=True, rule_10_Abdalla=True,
                             percent_Abdalla=p, **kw)
    base = build.constraints(sym=sym, bal=bal, set_of_angles=angles)
    model = Model(cons, n, sym, angles, mid)
    if not model.good:
        return
    outer = {0: 0, 1: 1, 2: 2, 3: 2}[dam]

    def excess(total):
        return ref.abdalla_excess(p/100, *lp12(total, n))
    import src.guidelines.ten_percent_rule_Abdalla as mod

    def dist(total):
        return float(mod.calc_distance_Abdalla(lp12(total, n), cons))
    fits = []
    for comp in model.good:
        c = Counter()
        for a, v in zip(angles, comp):
            c[a] += m*v
        if mid is not None:
            c[mid] += 1
        if excess(c) > -1e-9:
            fits.append(c)
    for stack in laminates(angles, n, sym, mid, (first,)):
        ini = np.array(stack, int)
        ctx.state(sym, na, p, bal, dam, stack)
        ss, queue = ctx.call('repair', repair_10_bal, ini,
                             calc_mini_10(cons, n), cons)
        ss0, queue0 = ctx.call('repair', repair_10_bal, ini,
                               calc_mini_10(base, n), base)
        ss = [int(a) for a in ss]
        queue = [int(a) for a in queue]
        ctx.state(sym, na, p, bal, dam, stack, ss, queue)
        ctx.ok()

        def text():
            return (f'{cons.sym=} {bal=} {p}% dam_tol {dam} {stack} -> '
                    f'{ss} with queue {queue}')
        ctx.require(ini.tolist() == stack, 'input-kept', text)
        ctx.require(m*len(queue) == ss.count(666), 'queue-size', text)
        ctx.require(not sym or ss == ss[::-1], 'symmetry', text)
        total = Counter(a for a in ss if a != 666)
        total0 = Counter(int(a) for a in ss0 if a != 666)
        for a in queue:
            total[a] += m
        for a in queue0:
            total0[int(a)] += m
        ctx.require(not bal or all(total[a] == total[-a] for a in angles
                                   if a not in (0, 90)), 'balance', text)
        ends = [i for i in list(range(outer)) + list(range(n - outer, n))]
        ctx.require(all(ss[i] == int(ss0[i]) for i in ends), 'outer-plies',
                    text)
        d, d0 = dist(total), dist(total0)
        ctx.require(d <= d0 + 1e-9, 'no-worse', lambda: text()
                    + f', distance {d0} before and {d} after')
        if not bal and not outer and d > 1e-6:
            for a in angles:
                if total[a] >= m + (mid == a):
                    for b in angles:
                        c = Counter(total)
                        c[a] -= m
                        c[b] += m
                        ctx.require(dist(c) > d - 1e-9, 'improvable',
                                    lambda: text() + f': one {a} more to {b}')
        if excess(total0) > 1e-9:
            ctx.outcome('compliant')
            ctx.require(ss == [int(a) for a in ss0]
                        and sorted(queue) == sorted(int(a) for a in queue0),
                        'compliant-kept', text)
        elif excess(total) > -1e-6:
            ctx.outcome('repaired')
        else:
            ctx.outcome('not repaired')
            ctx.outcome('no compliant laminate' if not fits
                        else 'not found')


# ---------------------------------------------------------------------- tools
def cases_tools(tier):
    top = 13 if tier == 'quick' else 25
    for n in range(1, top):
        for r in range(1, len(RULES)):
            for sym in (True, False):
                for bal in (True, False):
                    yield [n, r, sym, bal]


def check_mini(case, ctx):
    "the minimum ply counts accept exactly the compliant ply counts"
    from src.RELAY.repair_10_bal import calc_mini_10
    n, r, sym, bal = case
    cons = build.constraints(sym=sym, bal=bal, set_of_angles=ref.A6,
                             **RULES[r])
    pct = limits(cons)
    mini = ctx.call('minimum', calc_mini_10, cons, n)
    m = 2 if sym else 1
    for mid in ((0, 90) if sym and n % 2 else (None,)):
        for comp in ref.compositions(n//m, 5):
            c = Counter()
            for a, v in zip((0, 90, 45, -45, 30), comp):
                c[a] += m*v
            if mid is not None:
                c[mid] += 1
            if bal and (c[45] != c[-45] or c[30] % 2):
                continue
            ok = ref.ten_ok(c, n, pct)
            half = [Fraction(c[a], m) for a in (0, 90, 45, -45)]
            half.append(half[2] + half[3])
            got = all(h >= Fraction(float(v)) for h, v in zip(half, mini))
            ctx.state(n, r, sym, bal, comp, mid)
            ctx.ok()
            ctx.require(ok == got, 'minimum',
                        lambda: f'{n} plies, {RULES[r]}, counts {dict(c)}: '
                        f'compliant {ok}, minimum {mini.tolist()}')


def cases_lp(tier):
    top = {True: 7, False: 4} if tier == 'quick' else {True: 9, False: 5}
    for sym in (True, False):
        for n in range(1, top[sym] + 1):
            for mid in ((0, 90) if sym and n % 2 else (None,)):
                for f in (ref.A4 if n > 1 or not sym else (None,)):
                    yield [sym, n, mid, f]


def check_lp(case, ctx):
    "membrane lamination parameters of partial laminates, all queues"
    from src.RELAY.repair_10_bal import calc_lampamA_ply_queue, is_equal
    sym, n, mid, first = case
    cons = build.constraints(sym=sym, set_of_angles=ref.A4)
    m = 2 if sym else 1
    order = inward_order(n, sym)
    firsts = None if first is None else (first,)
    for stack in laminates(ref.A4, n, sym, mid, firsts):
        want = ref.lampam(stack)[:4]
        for k in range(len(order) + 1):
            ss = np.array(stack, int)
            queue = []
            for i in order[k:]:
                queue.append(stack[i])
                ss[i] = 666
                if sym:
                    ss[n - 1 - i] = 666
            got = ctx.call('lampamA', calc_lampamA_ply_queue, ss, n,
                           list(queue), cons)
            ctx.state(sym, stack, k)
            ctx.ok()
            ctx.require(ref.close(got, want), 'lampamA',
                        lambda: f'{ss.tolist()} + {queue}: {got} != {want}')
            for rev in (queue, queue[::-1]):
                eq = ctx.call('is_equal', is_equal, ss, list(rev),
                              np.array(stack, int), sym)
                ctx.require(bool(eq), 'is_equal', lambda: f'{ss} {rev} is '
                            f'{stack}')
            for i in range(n):
                for a in ref.A4:
                    if a == stack[i]:
                        continue
                    other = np.array(stack, int)
                    other[i] = a
                    if sym:
                        other[n - 1 - i] = a
                    eq = ctx.call('is_equal', is_equal, ss, list(queue),
                                  other, sym)
                    ctx.ok()
                    ctx.require(not bool(eq), 'is_equal',
                                lambda: f'{ss} {queue} is not {other}')


def cases_ind(tier):
    top = 11 if tier == 'quick' else 17
    for sym in (True, False):
        for n in range(2, top):
            for dam in (0, 1, 2, 3):
                if dam and n < 6:
                    continue
                yield [sym, n, dam]


def check_ind(case, ctx):
    "plies that may change: innermost first, no outer ply, no middle ply"
    from src.RELAY.repair_10_bal import calc_ind_plies
    sym, n, dam = case
    kw = dict(dam_tol=True, dam_tol_rule=dam) if dam else {}
    cons = build.constraints(sym=sym, set_of_angles=ref.A4, **kw)
    outer = {0: 0, 1: 1, 2: 2, 3: 2}[dam]
    order = inward_order(n, sym)
    for shift in range(4):
        half = [ref.A4[(i + shift) % 4] for i in range(n)]
        stack = half if not sym else (
            half[:n//2] + [0]*(n % 2) + half[:n//2][::-1])
        for k in range(len(order) + 1):
            ss = np.array(stack, int)
            queue = []
            for i in order[k:]:
                queue.append(stack[i])
                ss[i] = 666
                if sym:
                    ss[n - 1 - i] = 666
            for p_A in range(0, 101, 20):
                idx, per = ctx.call('plies', calc_ind_plies, ss, n,
                                    list(queue), cons, p_A)
                idx = [int(i) for i in idx]
                ctx.state(sym, n, dam, shift, k, p_A)
                ctx.ok()
                lo = max(outer, int((100 - p_A)*n//200))
                hi = n//2 if sym else n - lo
                ctx.require(sorted(idx) == list(range(lo, max(lo, hi))),
                            'plies', lambda: f'{case} p_A {p_A}: {idx}')
                depth = [min(i, n - 1 - i) for i in idx]
                ctx.require(all(a >= b for a, b in zip(depth, depth[1:])),
                            'innermost-first', lambda: f'{case} {p_A} {idx}')
                for j, a in enumerate(cons.set_of_angles):
                    want = [6666]*queue.count(a) + [
                        i for i in idx if ss[i] == a]
                    ctx.require([int(v) for v in per[j]] == want,
                                'per-orientation',
                                lambda: f'{ss.tolist()} {queue} {a}: {per[j]}')


def components(tier):
    comps = [
        FnComponent('balance-and-10-percent', cases_counts, check_counts),
        FnComponent('abdalla', cases_abdalla, check_abdalla, setup_abdalla),
        FnComponent('minimum-ply-counts', cases_tools, check_mini),
        FnComponent('partial-laminates', cases_lp, check_lp),
        FnComponent('modifiable-plies', cases_ind, check_ind),
    ]
    return comps
