"""C02: violation counts and penalties of the lay-up guidelines."""
import itertools
import math
from types import SimpleNamespace
import numpy as np
from mc import ref
from mc.core import FnComponent
from mc.checks.c01 import (PCT, cases_ss, cons10, extend, make, pct_of)

ASSUMPTIONS = [
    'stacks are explored up to the stated lengths over the stated angle sets',
    'a contiguity violation is counted per ply position from which '
    'n_contig + 1 consecutive plies share their orientation',
    'src.CLA is replaced by a stand-in (textbook lamination parameters)']


def cases_count(tier):
    for c in cases_ss(tier):
        if c[1] >= 3:
            yield c


def check_count(case, ctx):
    from src.guidelines.disorientation import (
        calc_n_penalty_diso_ss, calc_number_violations_diso_mp,
        calc_penalty_diso_mp_0)
    from src.guidelines.contiguity import (
        calc_penalty_contig_mp, calc_penalty_contig_ss, calc_contig_vector)
    angles = ref.A8 if case[0] == 'A8' else ref.A4
    delta = 45 if case[0] != 'A8' else 60
    cons = {}
    for rule in (0, 1, 2, 3):
        for nc in (2, 3):
            kw = dict(dam_tol=bool(rule), diso=True, delta_angle=delta,
                      contig=True, n_contig=nc,
                      set_of_angles=np.array(angles))
            if rule:
                kw['dam_tol_rule'] = rule
            cons[rule, nc] = make(**kw)
            if rule in (1, 2):
                cons[rule, nc, 'plies'] = SimpleNamespace(
                    dam_tol=True, n_plies_dam_tol=rule, delta_angle=delta,
                    n_contig=nc)
    for stack in extend(case):
        arr = np.array(stack, 'int16')
        other = np.array([0, 90, 90, 90, 0, 0][:3 + len(stack) % 4], 'int16')
        ctx.state(stack)
        for key, con in cons.items():
            rule, nc = key[:2]
            core = ref.trimmed(stack, rule, rule)
            core2 = ref.trimmed(other.tolist(), rule, rule)
            w_c = len(ref.contig_windows(core, nc))
            w_c2 = len(ref.contig_windows(core2, nc))
            got = ctx.call('contig-count', calc_penalty_contig_ss, arr, con)
            ctx.require(got == w_c, 'contiguity-count',
                        f'{stack}, at most {nc}, damage tolerance {rule}: '
                        f'{got} violations counted instead of {w_c}')
            got = ctx.call('contig-count', calc_penalty_contig_mp,
                           [arr, other], con)
            ctx.require(list(got) == [w_c, w_c2], 'contiguity-count-panels',
                        f'{[stack, other]}: {got} instead of {[w_c, w_c2]}')
            if nc == 2:
                w_d = len(ref.diso_pairs(core, delta))
                w_d2 = len(ref.diso_pairs(core2, delta))
                got = ctx.call('diso-count', calc_n_penalty_diso_ss, arr, con)
                ctx.require(got == w_d, 'disorientation-count',
                            f'{stack}, damage tolerance {rule}: {got} '
                            f'instead of {w_d}')
                got = ctx.call('diso-count', calc_number_violations_diso_mp,
                               [arr, other], con)
                ctx.require(list(got) == [w_d, w_d2],
                            'disorientation-count-panels',
                            f'{[stack, other]}: {got} instead of '
                            f'{[w_d, w_d2]}')
                ctx.outcome(f'diso-count-{min(w_d, 3)}')
            ctx.outcome(f'contig-count-{min(w_c, 3)}')
        got = ctx.call('diso-where', calc_penalty_diso_mp_0, [arr], delta)
        ctx.require(list(np.flatnonzero(got[0])) ==
                    ref.diso_pairs(stack, delta), 'disorientation-positions',
                    f'{stack}: {got}')
        got = ctx.call('contig-where', calc_contig_vector, arr, 3)
        ctx.require(list(np.flatnonzero(got)) ==
                    ref.contig_windows(stack, 3), 'contiguity-positions',
                    f'{stack}: {got}')
        ctx.ok()


def cases_ten(tier):
    for n in range(1, (9 if tier == 'quick' else 16) + 1):
        for pi in range(len(PCT)):
            for cls in ('BELLA', 'LAYLA'):
                yield [n, pi, cls]


def check_ten(case, ctx):
    from src.guidelines.ten_percent_rule import (
        calc_penalty_10_pc, calc_penalty_10_ss, is_ten_percent_rule)
    n, pi, cls = case
    con = cons10(PCT[pi], cls)
    off = make(cls)
    pct = pct_of(PCT[pi], cls)
    rows, stacks, wants = [], [], []
    for comp in ref.compositions(n, 4):
        counts = dict(zip(ref.A4, comp))
        want = float(ref.ten_penalty(counts, n, pct))
        stack = np.array([a for a in ref.A4 for _ in range(counts[a])])
        row = np.array([counts[a] for a in con.set_of_angles], float)
        ctx.state(n, pi, cls, comp)
        for st in (stack, stack[::-1], list(stack)):
            got = ctx.call('ten-penalty', calc_penalty_10_ss, st, con)
            ctx.require(ref.close(got, want), 'ten-percent-penalty-stack',
                        f'{cls} limits {pct}, stack {list(stack)}: penalty '
                        f'{got} instead of {want}')
        for arg in (row, list(row)):
            got = ctx.call('ten-penalty', calc_penalty_10_pc, arg, con)
            ctx.require(ref.close(got, want), 'ten-percent-penalty-counts',
                        f'{cls} limits {pct}, counts {counts}: penalty '
                        f'{got} instead of {want}')
        got = ctx.call('ten-penalty', calc_penalty_10_pc, row, con, 0.25)
        ctx.require(ref.close(got, want/4), 'ten-percent-penalty-scaling',
                    f'{counts}: {got} instead of {want/4}')
        verdict = ctx.call('ten-verdict', is_ten_percent_rule, con,
                           stack=stack)
        ctx.require(bool(verdict) == (want < 1e-12),
                    'ten-percent-zero-penalty-iff-satisfied',
                    f'{cls} limits {pct}, {list(stack)}: penalty {want}, '
                    f'verdict {verdict}')
        for f, arg in ((calc_penalty_10_ss, stack), (calc_penalty_10_pc, row)):
            got = ctx.call('ten-penalty-off', f, arg, off)
            ctx.require(got == 0, 'ten-percent-inactive',
                        f'inactive rule: penalty {got}')
        ctx.outcome('ten-zero' if want == 0 else 'ten-positive')
        rows.append(row)
        stacks.append(stack)
        wants.append(want)
        ctx.ok()
    stacks.append(np.array([0, 90, 45]))
    wants2 = wants + [float(ref.ten_penalty({0: 1, 90: 1, 45: 1}, 3, pct))]
    got = ctx.call('ten-penalty', calc_penalty_10_ss, stacks, con, mp=True)
    ctx.require(ref.close(got, wants2), 'ten-percent-penalty-panels',
                f'{cls} limits {pct}, {n} plies: {got}')
    # panels of different thicknesses, in any order, one without any ply yet
    one = {0: 1, 90: 1, 45: 1}
    row3 = np.array([one.get(a, 0) for a in con.set_of_angles], float)
    for tab, w in ((rows, wants), (rows + [row3], wants2),
                   ([row3] + rows, wants2[-1:] + wants),
                   ([0*row3] + rows, [0.] + wants)):
        got = ctx.call('ten-penalty', calc_penalty_10_pc, np.array(tab), con)
        ctx.require(ref.close(got, w), 'ten-percent-penalty-panels',
                    f'{cls} limits {pct}, {n} plies: {got}')
        areas = np.linspace(.1, 1, len(tab))
        got = ctx.call('ten-penalty', calc_penalty_10_pc, np.array(tab), con,
                       areas)
        ctx.require(ref.close(got, areas*np.array(w)),
                    'ten-percent-penalty-panels',
                    f'{cls} limits {pct}, {n} plies, areas {areas}: {got}')
    got = ctx.call('ten-penalty-off', calc_penalty_10_ss, stacks, off,
                   mp=True)
    ctx.require(ref.close(got, np.zeros(len(stacks))), 'ten-percent-inactive',
                f'{got}')


def cases_bal(tier):
    for ai in (0, 1, 2):
        for n in range(0, ([7, 4, 3] if tier == 'quick'
                           else [10, 6, 4])[ai] + 1):
            yield [ai, n]


def check_bal(case, ctx):
    from src.guidelines.balance import calc_penalty_bal, is_balanced
    from src.guidelines.ten_percent_rule import (
        calc_n_plies_per_angle, calc_ply_counts)
    ai, n = case
    angles = (ref.A4, ref.A6, ref.A8)[ai]
    con = make(set_of_angles=np.array(angles))

    class Mp:
        pass
    mp = Mp()
    mp.reduced = Mp()
    mp.reduced.n_panels = 2
    rows, wants = [], []
    for comp in ref.compositions(n, len(angles)):
        counts = dict(zip(angles, comp))
        row = np.array([counts[a] for a in con.set_of_angles], float)
        want = sum(abs(counts[a] - counts[-a]) for a in angles
                   if 0 < a < 90)/max(n, 1)
        ctx.state(ai, n, comp)
        for area in (1, 0.5):
            got = ctx.call('bal', calc_penalty_bal, row, con, area)
            ctx.require(ref.close(got, area*want), 'balance-penalty',
                        f'counts {counts}: {got} instead of {area*want}')
        stack = np.array([a for a in angles for _ in range(counts[a])],
                         'int16')
        if n:
            ok = ctx.call('bal', is_balanced, stack, con)
            ctx.require(bool(ok) == (want == 0),
                        'balance-zero-penalty-iff-balanced',
                        f'counts {counts}: penalty {want}, verdict {ok}')
            tab = ctx.call('counts', calc_ply_counts, mp,
                           [stack, stack[::-1][:-1]], con)
            last = row.copy()
            last[list(con.set_of_angles).index(stack[0])] -= 1
            ctx.require(ref.close(tab, [row, last], 1e-6), 'ply-counts',
                        f'{stack}: {tab}')
            ini = np.zeros(len(angles))
            ini[0] = 2
            for mid in (0, 3):
                tab = ctx.call('counts', calc_n_plies_per_angle, ini, con,
                               mid, stack)
                exp = row + ini
                if mid:
                    exp[list(con.set_of_angles).index(stack[-1])] -= 0.5
                ctx.require(ref.close(tab, [exp]), 'ply-counts-half',
                            f'{stack}, middle ply {mid}: {tab}')
        rows.append(row)
        wants.append(want)
        ctx.outcome('balanced' if want == 0 else 'unbalanced')
        ctx.ok()
    got = ctx.call('bal', calc_penalty_bal, np.array(rows), con, 0.5)
    ctx.require(ref.close(got, 0.5*np.array(wants)), 'balance-penalty-panels',
                f'{n} plies over {angles}: {got}')


# ---------------------------------------------------- ply-by-ply counts
def cases_steps(tier):
    for sym, mid, tops in ((True, False, 5), (True, True, 5),
                           (False, False, 5)):
        for n in range(2, tops + (tier != 'quick') + 1):
            for f in ref.A4:
                for g in ref.A4:
                    yield [sym, mid, n, f, g, 0]
        # long runs: sides of two orientations that change at most twice
        for nc in (4, 5, 6):
            for n in (nc + 1, nc + 2) if sym else (2*nc + 2, 2*nc + 3):
                for f in (0, 90):
                    for g in (0, 90):
                        yield [sym, mid, n, f, g, nc]


def few_changes(n, first, k=2):
    "words of two orientations starting with the first, at most k changes"
    for m in range(k + 1):
        for at in itertools.combinations(range(1, n), m):
            word, a = [], first
            for i in range(n):
                if i in at:
                    a = 90 - a
                word.append(a)
            yield word


def check_steps(case, ctx):
    "violations counted as the plies of the panels are laid one after another"
    from src.guidelines.contiguity import calc_n_viola_contig
    from src.guidelines.disorientation import calc_n_viola_diso
    sym, mid, n, first, second, long = case
    cons = {nc: make(sym=sym, diso=True, delta_angle=45, contig=True,
                     n_contig=nc) for nc in ((long,) if long else (2, 3))}
    if not long:
        words = ([first, second] + list(rest)
                 for rest in itertools.product(ref.A4, repeat=n - 2))
        losses = list(itertools.product((False, True), repeat=n - 1))
    else:
        losses = [tuple(i == j for i in range(n - 1)) for j in range(n)]
        if sym:
            words = (w for w in few_changes(n, first) if w[1] == second)
        else:
            words = ([(t if i % 2 else b)[i//2] for i in range(n)]
                     for b in few_changes(n - n//2, first)
                     for t in few_changes(n//2, second))
    for plies in words:
        # the thin panel loses any plies but the outermost ones
        for drops in losses:
            lost = [False] + list(drops)
            if not sym and n > 1:
                lost[1] = False
            pdl = np.array([[-1 if x else i for i, x in enumerate(lost)],
                            list(range(n))])
            ctx.state(case, plies, lost)
            bots = [np.zeros(0, int), np.zeros(0, int)]
            tops = [np.zeros(0, int), np.zeros(0, int)]
            diso, cont = np.zeros(2, int), {nc: np.zeros(2, int)
                                            for nc in cons}
            for k, a in enumerate(plies):
                last = k == n - 1
                child = np.array([a])
                args = (bots, child)
                for nc, con in cons.items():
                    old = cont[nc].copy()
                    cont[nc] = ctx.call(
                        'contig-steps', calc_n_viola_contig, old, *args, 2,
                        con, k, n, pdl, tops, last, mid)
                    ctx.require((old <= cont[nc]).all(), 'increase', case)
                diso = ctx.call(
                    'diso-steps', calc_n_viola_diso, diso, *args, k, 2, n,
                    pdl, con, mother_ss_top=tops, last_level=last)
                for p in range(2):
                    if pdl[p, k] < 0:
                        continue
                    if sym or k % 2 == 0:
                        bots[p] = np.hstack((bots[p], child))
                    else:
                        tops[p] = np.hstack((child, tops[p]))
                if last:
                    break
                for p in range(2):
                    # the two sides of a panel that is not finished
                    w = ref.diso_pairs(bots[p], 45), \
                        ref.diso_pairs(tops[p], 45)
                    want = len(w[0])*(2 if sym else 1) + len(w[1])
                    ctx.require(diso[p] == want, 'disorientation-steps',
                                lambda: f'{sym=} {plies[:k + 1]} lost {lost} '
                                f'panel {p}: {diso[p]} not {want}')
                    for nc in cons:
                        want = (len(ref.contig_windows(bots[p].tolist(), nc))
                                * (2 if sym else 1)
                                + len(ref.contig_windows(tops[p].tolist(),
                                                         nc)))
                        ctx.require(cont[nc][p] == want, 'contiguity-steps',
                                    lambda: f'{sym=} {plies[:k + 1]} lost '
                                    f'{lost} panel {p} at most {nc}: '
                                    f'{cont[nc][p]} not {want}')
            for p in range(2):
                b = bots[p].tolist()
                if not sym:
                    stack = b + tops[p].tolist()
                elif mid and pdl[p, -1] >= 0:
                    stack = b[:-1] + b[::-1]
                else:
                    stack = b + b[::-1]
                want = len(ref.diso_pairs(stack, 45))
                ctx.require(diso[p] == want, 'disorientation-steps',
                            lambda: f'{sym=} {mid=} {stack} of {plies} lost '
                            f'{lost}: {diso[p]} not {want}')
                for nc in cons:
                    want = len(ref.contig_windows(stack, nc))
                    ctx.require(cont[nc][p] == want, 'contiguity-steps',
                                lambda: f'{sym=} {mid=} {stack} of {plies} '
                                f'lost {lost} at most {nc}: {cont[nc][p]} '
                                f'not {want}')
            ctx.outcome('violations' if diso.any() else 'none')
            ctx.ok()


def cases_sums(tier):
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            if n*m < 7:
                yield [n, m]


def check_sums(case, ctx):
    "penalties of panels from their violations, orthotropy of one laminate"
    from src.guidelines.contiguity import penalty_contig
    from src.guidelines.disorientation import calc_penalty_diso
    from src.guidelines.ipo_oopo import (
        calc_penalty_ipo_oopo_ss, calc_penalty_ipo_param, calc_penalty_ipo)
    from types import SimpleNamespace as Ns
    n, m = case
    for tab in itertools.product((0, 1, 2), repeat=n*m):
        viola = np.array(tab).reshape(n, m)
        ctx.state(case, tab)
        for coeff in (1, .5, 10):
            for norm in (1, 4.):
                want = [coeff*sum(r)/norm for r in viola.tolist()]
                got = [ctx.call('sums', calc_penalty_diso, n, viola, True,
                                coeff, norm),
                       ctx.call('sums', penalty_contig, n, viola, True,
                                coeff, norm)]
                ctx.require(ref.close(got[0], want)
                            and ref.close(got[1], want), 'penalty-sums',
                            f'{viola} {coeff} {norm}: {got} not {want}')
        got = calc_penalty_diso(n, viola), penalty_contig(n, viola)
        ctx.require(all(ref.close(g, np.zeros(n)) for g in got),
                    'penalty-off', f'{viola}: {got}')
        vals = viola[0]/2 - .5
        got = ctx.call('sums', calc_penalty_ipo_param, vals, .1)
        ctx.require(ref.close(got, max(abs(vals))/m), 'orthotropy-parameters',
                    f'{vals}: {got}')
        lp = np.arange(12)/12*(-1)**np.arange(12)
        lp[2], lp[3] = tab[0]/2, -tab[-1]/2
        lp[10], lp[11] = -tab[0]/4, tab[-1]/2
        both = np.array([lp, -lp[::-1]])
        for ipo, oopo, switch in itertools.product((True, False), repeat=3):
            con = Ns(ipo=ipo, oopo=oopo)
            par = Ns(penalty_ipo_switch=switch)
            for lam in (lp, both):
                for pr in (None, par):
                    got = ctx.call('sums', calc_penalty_ipo_oopo_ss, lam, con,
                                   pr, 2., 3.)
                    lam2 = np.atleast_2d(lam)
                    w1 = (abs(lam2[:, 2]) + abs(lam2[:, 3])) \
                        * (ipo and (pr is None or switch))
                    w2 = 1.5*(abs(lam2[:, 10]) + abs(lam2[:, 11]))*oopo
                    ctx.require(ref.close(np.ravel(got[0]), w1)
                                and ref.close(np.ravel(got[1]), w2)
                                and np.shape(got[0]) == np.shape(lam)[:-1],
                                'orthotropy-penalties',
                                f'{ipo=} {oopo=} {switch=} {lam}: {got}')
        ctx.ok()


# -------------------------------------------------------------- orthotropy
def cases_ortho(tier):
    for n in range(1, (5 if tier == 'quick' else 6) + 1):
        yield ['A4', n, []]
    for n in range(1, (3 if tier == 'quick' else 4) + 1):
        yield ['A8', n, []]


def check_ortho(case, ctx):
    from src.guidelines.ipo_oopo import (
        calc_penalty_ipo, calc_penalty_ipo_oopo_mp, calc_penalty_oopo_ss,
        ipo_param_1_12, ipo_param_1_6, ipo_param_7_12)
    from src.BELLA.materials import Material
    from src.BELLA.parameters import Parameters
    from mc.standin import A_from_lampam, B_from_lampam, D_from_lampam
    angles = ref.A8 if case[0] == 'A8' else ref.A4
    mat = Material(E11=130e9, E22=9e9, nu12=0.3, G12=4e9)
    on = make(bal=True, oopo=True, set_of_angles=np.array(angles))
    off = make(set_of_angles=np.array(angles))
    params = Parameters(on)
    prev = np.zeros(12)
    for stack in extend(case):
        lp = ref.lampam(stack)
        ctx.state(stack)
        ipo = (abs(lp[2]) + abs(lp[3]))/2
        oopo = (abs(lp[10]) + abs(lp[11]))/2
        pair = np.array([lp, prev])
        ipo2 = np.array([ipo, (abs(prev[2]) + abs(prev[3]))/2])
        oopo2 = np.array([oopo, (abs(prev[10]) + abs(prev[11]))/2])
        ctx.require(ref.close(ctx.call('ipo', calc_penalty_ipo, lp, 3.),
                              3*ipo), 'in-plane-orthotropy-penalty', stack)
        ctx.require(ref.close(ctx.call('ipo', calc_penalty_ipo, pair), ipo2),
                    'in-plane-orthotropy-penalty', stack)
        if ref.balanced(stack):
            ctx.require(ipo < 1e-12, 'stand-in', stack)
            ctx.outcome('balanced')
        for con, fac in ((on, 1), (off, 0)):
            ctx.require(ref.close(
                ctx.call('oopo', calc_penalty_oopo_ss, lp, con, 2.),
                2*fac*oopo), 'out-of-plane-orthotropy-penalty', stack)
            for both in (pair, list(pair)):
                ctx.require(ref.close(
                    ctx.call('oopo', calc_penalty_oopo_ss, both, con),
                    fac*oopo2), 'out-of-plane-orthotropy-penalty', stack)
            for par in (None, params):
                got = ctx.call('ipo-oopo', calc_penalty_ipo_oopo_mp, pair,
                               con, parameters=par, cummul_areas=2.,
                               cummul_sec_mom_areas=3.)
                ctx.require(ref.close(got[0], 2*fac*ipo2)
                            and ref.close(got[1], 3*fac*oopo2),
                            'orthotropy-penalties-panels',
                            f'{stack}: {got}')
        # laminate orthotropy parameters from stiffness / compliance ratios
        A, B, D = (A_from_lampam(lp, mat), B_from_lampam(lp, mat),
                   D_from_lampam(lp, mat))
        sym = tuple(stack) == tuple(stack[::-1])
        for flag in ((True, False) if sym else (False,)):
            a = np.linalg.inv(A - B @ np.linalg.inv(D) @ B)
            def ratios(m):
                return [abs(m[0, 2]/m[0, 0]), abs(m[0, 2]/m[0, 1]),
                        abs(m[0, 2]/m[2, 2]), abs(m[1, 2]/m[0, 1]),
                        abs(m[1, 2]/m[1, 1]), abs(m[1, 2]/m[2, 2])]
            want1 = np.array(ratios(A))
            ra = ratios(a)
            # order used for the compliance ratios
            want2 = np.array(ra)
            p12 = ctx.call('ipo-param', ipo_param_1_12, lp, mat, flag)
            p6 = ctx.call('ipo-param', ipo_param_1_6, lp, mat, flag)
            p7 = ctx.call('ipo-param', ipo_param_7_12, lp, mat, flag)
            scale = 1e-6*(1 + np.abs(np.hstack((want1, want2))))
            ok = np.all(np.abs(p12 - np.hstack((want1, want2))) <= scale)
            if flag:   # symmetric closed form: last three in another order
                ok = np.all(np.abs(p12[:6] - want1) <= scale[:6]) and \
                    np.all(np.abs(np.sort(p12[6:]) - np.sort(want2))
                           <= 1e-6*(1 + np.sort(want2)))
            ctx.require(bool(ok), 'in-plane-orthotropy-parameters',
                        f'{stack} sym={flag}: {p12} instead of '
                        f'{want1} {want2}')
            ctx.require(ref.close(p6, p12[:6], 1e-9)
                        and ref.close(p7, p12[6:], 1e-6*(1 + p12.max())),
                        'in-plane-orthotropy-parameters', f'{stack}')
        prev = lp
        ctx.ok()


# ------------------------------------------------------- distance (LP region)
def true_distance(p, x, y):
    "distance to {y >= 2x^2/k - k, y <= k}, k = 1 - 4p, by projection"
    k = 1 - 4*p
    if k*k + k*y - 2*x*x >= 0 and y <= k:
        return 0.
    best = math.hypot(max(abs(x) - k, 0), y - k)
    # stationary points of the distance to the parabola: cubic in t
    roots = np.roots([16/(k*k), 0, 2 - 8*(y + k)/k, -2*x])
    for r in list(roots) + [k, -k]:
        if abs(np.imag(r)) < 1e-9 and abs(np.real(r)) <= k + 1e-12:
            t = float(np.real(r))
            best = min(best, math.hypot(t - x, 2*t*t/k - k - y))
    return best


def cases_dist(tier):
    ps = (5, 10, 20) if tier == 'quick' else (1, 5, 10, 15, 20, 24)
    step = 4 if tier == 'quick' else 2
    for p in ps:
        for i in range(-20, 21, step):
            yield [p, i, step]


def check_dist(case, ctx):
    from src.guidelines.ten_percent_rule import calc_penalty_10_ss
    from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla
    p, i, step = case
    con = make(rule_10_percent=True, rule_10_Abdalla=True, percent_Abdalla=p)
    tab, wants = [], []
    for j in range(-20, 21, step):
        x, y = i/20., j/20.
        lps = np.array([x, y] + [0.]*10)
        if abs(ref.abdalla_excess(p/100, x, y)) < 1e-9:
            continue
        want = true_distance(p/100, x, y)
        got = ctx.call('distance', calc_distance_Abdalla, lps, con)
        ctx.state(p, i, j)
        ctx.ok()
        ctx.outcome('inside' if want == 0 else 'outside')
        ctx.require(abs(got - want) < 2e-3 and (got == 0) == (want == 0),
                    'distance-to-the-feasible-region',
                    f'{p}% rule, lamination parameters ({x}, {y}): distance '
                    f'{got} instead of {want:.6f}')
        if j % 8 == 0:
            got2 = ctx.call('distance', calc_penalty_10_ss, None, con,
                            LPs=lps)
            ctx.require(got2 == got, 'penalty-is-the-distance', f'{lps}')
            tab.append(lps)
            wants.append(got)
    got = ctx.call('distance', calc_penalty_10_ss, None, con,
                   LPs=np.array(tab), mp=True)
    ctx.require(ref.close(got, wants), 'penalty-is-the-distance', f'{got}')


def components(tier):
    comps = [
        FnComponent('counts', cases_count, check_count),
        FnComponent('ten-percent', cases_ten, check_ten),
        FnComponent('balance', cases_bal, check_bal),
        FnComponent('ply-by-ply', cases_steps, check_steps),
        FnComponent('sums', cases_sums, check_sums),
        FnComponent('orthotropy', cases_ortho, check_ortho),
        FnComponent('lampam-region', cases_dist, check_dist),
    ]
    for c in comps:
        c.block = 1
    return comps
