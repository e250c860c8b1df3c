"""C20: LAYLA returns compliant laminates, reports them exactly, and its beam
search keeps the best nodes (the optimum when the beam is not limited)."""
import contextlib
import io
import itertools
import types
import numpy as np
from mc import ref
from mc.core import FnComponent
from mc.checks import c12, c14

ASSUMPTIONS = [
    'src.CLA (absent from the repository) is replaced by a stand-in checked '
    'against published results (C10)',
    'the branching limit of the last level (local_node_limit_final) equals '
    'the other local limit: its use does not follow its documentation',
    'runs in which two search nodes of equal objective straddle a branching '
    'limit are left out of the comparison with the reference search (either '
    'choice is right); what they return is still checked',
    'the penalties of the 10% rule by ply counts are inactive, as they are by '
    'default',
]
BIG = 100000
GENERIC = np.array([.0231, -.0173, .0119, -.0087, .0071, .0053, -.0147, .0023,
                    -.0193, .0137, .0109, -.0041])*.37

# guidelines: (kw, is balance requested)
GUIDES = {
    'none': dict(),
    'diso': dict(diso=True, delta_angle=45),
    'contig': dict(contig=True, n_contig=2),
    'diso-contig': dict(diso=True, delta_angle=45, contig=True, n_contig=3),
    'bal': dict(bal=True),
    'ipo': dict(ipo=True),
    'bal-diso': dict(bal=True, diso=True, delta_angle=45),
    'ten': dict(rule_10_percent=True, percent_0=10, percent_45=10,
                percent_90=10, percent_135=10),
    'ten-bal': dict(rule_10_percent=True, percent_0=15, percent_90=15,
                    percent_45_135=30, bal=True),
    'dam1': dict(dam_tol=True, dam_tol_rule=1),
    'dam2': dict(dam_tol=True, dam_tol_rule=2, contig=True, n_contig=2),
    'dam2-diso': dict(dam_tol=True, dam_tol_rule=2, diso=True,
                      delta_angle=45),
    'dam3': dict(dam_tol=True, dam_tol_rule=3),
    'oopo': dict(oopo=True),
    'oopo-ipo-diso': dict(oopo=True, ipo=True, diso=True, delta_angle=45),
    'all': dict(diso=True, delta_angle=45, contig=True, n_contig=3, bal=True,
                rule_10_percent=True, percent_0=10, percent_90=10,
                percent_45_135=20, dam_tol=True, dam_tol_rule=1),
}


def guide(name):
    kw = dict(GUIDES[name])
    cfg = dict(diso=kw.get('diso', False),
               delta_angle=kw.get('delta_angle', 180),
               contig=kw.get('contig', False), n_contig=kw.get('n_contig', 1))
    return kw, cfg, kw.get('bal', False) or kw.get('ipo', False), \
        kw.get('dam_tol_rule', 0)


def complies(stack, cons, cfg, bal, dam):
    c = ref.counts_of(stack)
    if bal and any(c.get(a, 0) != c.get(-a, 0) for a in c
                   if a not in (0, 90)):
        return False
    if cons.rule_10_percent and not ref.ten_ok(c, len(stack),
                                               c12.limits(cons)):
        return False
    if dam and not ref.dam_tol_ok(stack, dam):
        return False
    return c14.compliant(stack, cfg, dam)


# ----------------------------------------------------------------- reference
class Search:
    "LAYLA's search, written from its description"

    def __init__(self, cons, cfg, dam, par, n, target, groups):
        self.__dict__.update(cons=cons, cfg=cfg, dam=dam, par=par, n=n,
                             target=target)
        sym = cons.sym
        half = n//2 + n % 2
        if sym:
            self.order = list(range(half))
        else:
            bot, top = list(range(half)), list(range(half, n))[::-1]
            self.order = [x for pair in itertools.zip_longest(bot, top)
                          for x in pair if x is not None]
        self.half = half
        self.angles = [int(a) for a in cons.set_of_angles]
        self.groups, i = [], 0
        for g in groups:
            self.groups.append(self.order[i:i + g])
            i += g
        # what each ply contributes
        self.delta = {}
        edge = [2*k/n - 1 for k in range(n + 1)]
        for k in self.order:
            lo, hi = edge[k], edge[k + 1]
            if sym:
                hi = min(hi, 0.)
            mom = [hi - lo, hi**2 - lo**2, hi**3 - lo**3]
            mom = [m*(1. if sym else .5) for m in mom]
            if sym:
                mom[1] = 0.
            for a in self.angles:
                t = np.deg2rad(a)
                f = np.array([np.cos(2*t), np.cos(4*t), np.sin(2*t),
                              np.sin(4*t)])
                self.delta[k, a] = np.hstack([m*f for m in mom])
        # amounts of material known at each level of the search
        self.known = []
        tot = np.zeros(3)
        for i, k in enumerate(self.order):
            lo, hi = edge[k], edge[k + 1]
            if sym:
                hi = min(hi, 0.)
                mom = np.abs([hi - lo, hi**2 - lo**2, hi**3 - lo**3])
            elif i == n - 1:
                mom = np.array([abs(hi)**p + abs(lo)**p for p in (1, 2, 3)])/2
            else:
                mom = np.abs([hi - lo, hi**2 - lo**2, hi**3 - lo**3])/2
            tot = tot + mom
            self.known.append(tot)
        self.tie = False

    def objective(self, lp, level, plies=()):
        amount = self.known[level]
        w = np.asarray(self.par.lampam_weightings_final)*np.repeat(amount, 4)
        w = w/w.sum()
        gap = np.abs(lp - self.target)
        obj = float((w*(gap**2 if self.par.type_obj_func == 2
                        else gap)).sum())
        bal = 0
        if self.cons.ipo and self.par.penalty_ipo_switch:
            bal = amount[0]*(abs(lp[2]) + abs(lp[3]))/2
        if self.cons.ipo and self.par.penalty_bal_switch and plies:
            weights = [1.]*len(plies)
            if self.cons.sym and self.n % 2 and len(plies) == self.half:
                weights[-1] = .5
            uneven = sum(abs(sum(
                w*((p == a) - (p == -a)) for p, w in zip(plies, weights)))
                         for a in self.angles if 0 < a < 90)
            bal = max(bal, amount[0]*uneven/sum(weights))
        obj *= 1 + self.par.coeff_bal_ipo*bal
        if self.cons.oopo:
            obj *= 1 + self.par.coeff_oopo*amount[2]*(
                abs(lp[10]) + abs(lp[11]))/2
        return obj

    def children(self, bot, top, k):
        "orientations the guidelines allow for ply k"
        cand, sym, n = self.angles, self.cons.sym, self.n
        if sym and n % 2 and k == n//2:
            cand = [0, 90]
        if self.dam:
            outer = {0: None, 1: bot[:1]}
            if not sym:
                outer.update({n - 1: None, n - 2: top[-1:]})
            if k in outer and (outer[k] is None or self.dam > 1):
                cand = [a for a in cand if abs(a) == 45]
                if outer[k] is not None and (
                        self.dam == 2 or (self.cfg['diso'] and ref.ang_dist(
                            45, -45) > self.cfg['delta_angle'])):
                    cand = [a for a in cand if a == -outer[k][0]]
                return cand
        last = k == self.order[-1]
        below = sym or k < self.half
        out = []
        for a in cand:
            near = []
            if bot and (below or last):
                near.append(bot[-1])
            if not sym and top and (not below or last):
                near.append(top[0])
            if self.cfg['diso'] and any(
                    ref.ang_dist(a, b) > self.cfg['delta_angle']
                    for b in near):
                continue
            if self.cfg['contig']:
                if last:
                    full = bot + [a] + top
                    if sym:
                        full = bot + [a]*(2 - n % 2) + bot[::-1]
                elif below:
                    full = (bot + [a])[-self.cfg['n_contig'] - 1:]
                else:
                    full = ([a] + top)[:self.cfg['n_contig'] + 1]
                if ref.longest_run(full) > self.cfg['n_contig']:
                    continue
            out.append(a)
        return out

    def best(self, nodes, limit):
        if len(nodes) <= limit:
            return nodes
        ranked = sorted(nodes, key=lambda nd: nd[3])
        a, b = ranked[limit - 1][3], ranked[limit][3]
        if b - a <= 1e-9*max(1., abs(b)):
            self.tie = True
        return ranked[:limit]

    def run(self, previous):
        """laminates reached at the end of the search (None when there is
        none); previous: laminate of the previous outer step"""
        par = self.par
        bot, top, level = [], [], 0
        lp0 = np.zeros(12)
        if previous is not None:
            for k in self.order:
                lp0 = lp0 + self.delta[k, previous[k]]
        for gi, plies in enumerate(self.groups):
            last_group = gi == len(self.groups) - 1
            if previous is not None:
                for k in plies:
                    lp0 = lp0 - self.delta[k, previous[k]]
            nodes = [(bot, top, lp0, 0.)]
            for li, k in enumerate(plies):
                nxt = []
                for b, t, lp, _ in nodes:
                    kids = []
                    for a in self.children(b, t, k):
                        new = lp + self.delta[k, a]
                        if self.cons.sym or k < self.half:
                            nb, nt = b + [a], t
                        else:
                            nb, nt = b, [a] + t
                        kids.append((nb, nt, new, self.objective(
                            new, level, nb + nt)))
                    if li < len(plies) - 1:
                        kids = self.best(kids, par.local_node_limit)
                    nxt.extend(kids)
                level += 1
                if not nxt:
                    return None
                if li < len(plies) - 1:
                    nxt = self.best(
                        nxt, par.global_node_limit_p
                        if last_group and li == len(plies) - 2
                        else par.global_node_limit)
                nodes = nxt
            if last_group:
                break
            bot, top, lp0, _ = self.best(nodes, 1)[0]
        if self.cons.sym:
            m = self.n//2
            return [tuple(b + b[:m][::-1]) for b, t, _, _ in nodes]
        return [tuple(b + t) for b, t, _, _ in nodes]


# -------------------------------------------------------------- observations
@contextlib.contextmanager
def observed():
    "records the laminates repaired at each outer step"
    import src.LAYLA_V02.beam_search as bs
    import src.LAYLA_V02.optimiser as op
    steps = []
    real, sym, asym = bs.repair_ss, op.outer_step_sym, op.outer_step_asym

    def repair(ss, *args, **kw):
        before = tuple(int(a) for a in ss)
        out = real(ss, *args, **kw)
        steps[-1].append((before, tuple(int(a) for a in out[0]),
                          bool(out[1])))
        return out

    def step(func):
        def inner(*args, **kw):
            steps.append([])
            return func(*args, **kw)
        return inner
    bs.repair_ss = repair
    op.outer_step_sym, op.outer_step_asym = step(sym), step(asym)
    try:
        yield steps
    finally:
        bs.repair_ss = real
        op.outer_step_sym, op.outer_step_asym = sym, asym


def solve(case, ctx):
    from src.LAYLA_V02.optimiser import LAYLA_optimiser
    from src.LAYLA_V02.targets import Targets
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.constraints import Constraints
    sym, na, n, name, gmin, gmax, limits, switches, weights, norm, stacks = \
        case
    kw, cfg, bal, dam = guide(name)
    angles = {4: ref.A4, 6: ref.A6}[na]
    loc, glo, glo_p = limits
    unlimited = min(limits) >= BIG
    lto = {'AD': [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1],
           'A': [1]*4 + [0]*8, 'D': [0]*8 + [1]*4}[weights]
    for stack in stacks:
        for exact in (True, False):
            cons = Constraints(sym=sym, set_of_angles=np.array(angles), **kw)
            par = Parameters(
                constraints=cons, n_outer_step=len(gmax),
                group_size_min=gmin, group_size_max=np.array(gmax),
                global_node_limit=glo, global_node_limit_p=glo_p,
                local_node_limit=loc, local_node_limit_final=loc,
                repair_membrane_switch=switches[0],
                repair_flexural_switch=switches[1], p_A=80, n_D1=4, n_D2=3,
                n_D3=1, penalty_ipo_switch=switches[2],
                penalty_bal_switch=switches[3], coeff_bal_ipo=1,
                coeff_oopo=1., type_obj_func=norm,
                first_level_sensitivities=np.linspace(1, 2, 12),
                lampam_to_be_optimised=np.array(lto))
            if len(stack) == n:
                full = stack
            elif n % 2:
                full = list(stack) + [(0, 90)[sum(stack) % 2]] + stack[::-1]
            else:
                full = list(stack) + stack[::-1]
            lp = np.array(ref.lampam(tuple(full)))
            if not exact:
                lp = .8*lp + GENERIC
            targ = Targets(n_plies=n, lampam=lp)
            wanted = lp.copy()
            if sym:
                wanted[4:8] = 0
            if bal:
                wanted[2:4] = 0
            if cons.oopo:
                wanted[10:] = 0
            check_run(ctx, case, (cons, par, targ), (kw, cfg, bal, dam, n),
                      wanted, lp, unlimited, (tuple(full), exact),
                      LAYLA_optimiser)


def check_run(ctx, case, given, rules, wanted, lp, unlimited, label, run):
    from src.LAYLA_V02.divide_laminate_sym import divide_laminate_sym
    from src.LAYLA_V02.divide_laminate_asym import divide_laminate_asym
    cons, par, targ = given
    kw, cfg, bal, dam, n = rules
    sym = cons.sym
    ctx.state(case[:10], label)
    ctx.step()

    def text():
        return f'{case[:10]} target {label}'
    with observed() as steps, contextlib.redirect_stdout(io.StringIO()):
        error = None
        try:
            res = run(par, cons, targ, None)
        except Exception as exc:
            error = str(exc).strip()
            if type(exc).__name__ == 'PartitioningError':
                return ctx.outcome('no partition (C08)')
            if type(exc) is not Exception or not (
                    error.startswith('Infeasible beam-search')
                    or error.startswith('No successfull repair during beam')
                    or error.endswith(' not satisfied')):
                return ctx.fail('runs', f'{text()}: {type(exc).__name__} '
                                f'{error}')
    ctx.ok()
    if error is not None and error.endswith(' not satisfied'):
        ctx.outcome('guidelines no laminate meets')
        angles = [int(a) for a in cons.set_of_angles]
        if len(angles)**(n//2 if sym else n) <= 5000:
            ctx.require(not any(complies(s, cons, cfg, bal, dam)
                                for s in everything(n, sym, angles)),
                        'refused', lambda: text() + f': {error}')
        return
    divide = divide_laminate_sym if sym else divide_laminate_asym

    def reference(step, previous):
        groups = [int(g) for g in divide(par, targ, step=step)[0]]
        model = Search(cons, cfg, dam, par, n, wanted, groups)
        return model, model.run(previous)

    def objective(stack):
        model = Search(cons, cfg, dam, par, n, wanted, [])
        m = model.objective(np.array(ref.lampam(stack)), len(model.order) - 1)
        return m
    # the laminates reached by the search, step by step
    previous = None
    for i, repairs in enumerate(steps):
        model, leaves = reference(i, previous)
        for before, after, done in repairs:
            ctx.state(case[:4], before, after)
        if model.tie:
            ctx.outcome('tie')
        elif leaves is None:
            ctx.outcome('no laminate in the beam')
            ctx.require(not repairs and error is not None
                        and error.startswith('Infeasible'), 'beam',
                        lambda: text() + ': the search should be infeasible')
        else:
            ctx.outcome('searched')
            ctx.require(sorted(r[0] for r in repairs) == sorted(leaves),
                        'beam', lambda: text() + f' step {i}: laminates '
                        f'{[r[0] for r in repairs][:4]}.., expected '
                        f'{leaves[:4]}..')
        done = [r[1] for r in repairs if r[2]]
        good = [s for s in done if complies(s, cons, cfg, bal, dam)]
        if error is not None and i == len(steps) - 1:
            ctx.outcome('refused')
            ctx.require(not good, 'refused-though-repaired',
                        lambda: text() + f': {good[:3]}')
            if unlimited and len(model.groups) == 1 \
                    and not any(case[7][:2]):
                ctx.require(not any(
                    complies(s, cons, cfg, bal, dam) for s in everything(
                        n, sym, model.angles)), 'refused',
                            lambda: text() + ': a compliant laminate exists')
            return
        if error is not None:
            if case[7][3]:
                return
            # the results of the steps before the infeasible one are lost
            vals = sorted((objective(s), s) for s in set(good))
            if not vals or len(vals) > 1 and vals[1][0] - vals[0][0] < 1e-9:
                ctx.outcome('tie')
                return
            previous = vals[0][1]
            continue
        got = tuple(int(a) for a in res.ss_tab[i])
        ctx.require(got in good, 'design-of-the-step', lambda: text()
                    + f' step {i}: {got} is no repaired laminate')
        vals = {s: objective(s) for s in set(good)}
        # (the penalties of ply counts are those of the laminates before repair)
        ctx.require(case[7][3] or vals.get(got, np.inf) <= min(vals.values()) + 1e-9,
                    'best-of-the-step', lambda: text() + f' step {i}: {got} '
                    f'({vals.get(got)}), best {min(vals.values())}')
        ctx.require(abs(res.obj_tab[i] - objective(got)) <= 1e-9,
                    'objective-of-the-step', lambda: text() + f' step {i}: '
                    f'{res.obj_tab[i]} instead of {objective(got)}')
        ctx.require(ref.close(res.lampam_tab_tab[i], ref.lampam(got)),
                    'lampam-of-the-step', lambda: text() + f' step {i}: '
                    f'{res.lampam_tab_tab[i]} for {got}')
        ctx.require(
            (res.n_designs_last_level_tab[i], res.n_designs_repaired_tab[i],
             res.n_designs_repaired_unique_tab[i])
            == (len(repairs), len(done), len(set(done))), 'counts',
            lambda: text() + f' step {i}: {res.n_designs_last_level_tab[i]} '
            f'{res.n_designs_repaired_tab[i]} '
            f'{res.n_designs_repaired_unique_tab[i]}')
        stop = objective(got) < 1e-10 or got == previous \
            or i == len(case[5]) - 1
        if i:
            ctx.outcome(f'step {i + 1}' if got != previous else 'same')
            if got != previous and sorted(got) == sorted(previous):
                ctx.outcome('permutation of the previous laminate')
        ctx.require(stop == (i == len(steps) - 1), 'outer-steps',
                    lambda: text() + f': {len(steps)} steps')
        previous = got
    if error is not None:
        return ctx.fail('runs', f'{text()}: {error} ({len(steps)} steps)')
    # the laminate returned
    got = tuple(int(a) for a in res.ss)
    ctx.sample({'target': label[0], 'laminate': got,
                'objective': float(res.objective)})
    objs = [float(v) for v in res.obj_tab[:len(steps)]]
    ctx.require(res.completed is True and np.isnan(
        res.obj_tab[len(steps):]).all(), 'completed', text)
    ctx.require(res.number_of_outer_steps_performed == len(steps),
                'outer-steps', text)
    ind = int(res.n_outer_step_best_solution) - 1
    ctx.require(0 <= ind < len(steps) and objs[ind] == min(objs)
                and res.objective == objs[ind]
                and got == tuple(int(a) for a in res.ss_tab[ind])
                and np.array_equal(res.lampam, res.lampam_tab_tab[ind]),
                'best-step', lambda: text() + f': {objs}, step {ind + 1}')
    ctx.require(len(got) == n and set(got) <= set(cons.set_of_angles)
                and (not sym or got == got[::-1])
                and (not sym or not n % 2 or got[n//2] in (0, 90)),
                'laminate', lambda: text() + f': {got}')
    ctx.require(complies(got, cons, cfg, bal, dam), 'compliant',
                lambda: text() + f': {got}')
    ctx.require(ref.close(res.lampam, ref.lampam(got)), 'lampam',
                lambda: text() + f': {got} {res.lampam}')
    ctx.require(abs(res.objective - objective(got)) <= 1e-9, 'objective',
                lambda: text() + f': {res.objective}, {objective(got)}')
    ctx.require(np.array_equal(targ.lampam_initial, lp), 'target-kept', text)
    rep = ctx.call('repr', repr, res)
    ctx.require(str(res.ss) in rep, 'repr', lambda: f'{got}: {rep}')
    if unlimited and len(model.groups) == 1 and not case[7][0] \
            and not case[7][1]:
        ctx.outcome('optimum')
        least = min(objective(s) for s in everything(n, sym, model.angles)
                    if complies(s, cons, cfg, bal, dam))
        ctx.require(res.objective <= least + 1e-9, 'optimum', lambda: text()
                    + f': {got} {res.objective}, optimum {least}')


def everything(n, sym, angles):
    if not sym:
        yield from itertools.product(angles, repeat=n)
        return
    for half in itertools.product(angles, repeat=n//2):
        for mid in ((0,), (90,)) if n % 2 else ((),):
            yield half + mid + half[::-1]


# --------------------------------------------------------------------- cases
UN = (BIG, BIG, BIG)
# repairs of the in-plane and out-of-plane lamination parameters, penalties for
# balance by lamination parameters and by ply counts
OFF, IPO, BAL, REP, ALL = [tuple(c == '1' for c in w) for w in (
    '0000', '0010', '0001', '1010', '1110')]


def families(free, size):
    "every sequence of `free` plies, in lists"
    words = [list(w) for w in itertools.product(ref.A4, repeat=free)]
    return [words[i::max(1, len(words)//size)]
            for i in range(max(1, len(words)//size))]


def fits(sym, n, name, gmin):
    if GUIDES[name].get('dam_tol') and n < 6:
        return False
    return gmin <= (n//2 if sym else n)


def spread(sym, ns, names, combos, keep, size=8, six=0):
    """cases: every target of the family of laminates, in lists of `size`;
    for each number of plies n, keep[n] lists per set of guidelines, each with
    the next of the combinations; one list in `six` with six orientations"""
    out, k = [], 0
    for n in ns:
        for name in names:
            fam = families(n//2 if sym else n, size)
            every = max(1, int(len(fam)/keep[n]))
            for j, part in enumerate(fam[k % every::every]):
                k += 1
                for t in range(len(combos)):
                    (gmin, gmax), lim, sw, w, norm = combos[
                        (k + t) % len(combos)]
                    gmin = max(gmin, GUIDES[name].get('n_contig', 1))
                    if fits(sym, n, name, gmin) and gmin <= min(gmax) and (
                            'bal' in GUIDES[name] or 'ipo' in GUIDES[name]
                            or not sw[2] and not sw[3]):
                        out.append([sym, 6 if six and k % six == 0 else 4, n, name, gmin, list(gmax), lim,
                                    sw, w, norm, part])
                        break
    return out[::-1]


def combos(groupings, limits, switches, weights=('AD', 'D', 'A'),
           norms=(2, 1)):
    return list(itertools.product(groupings, limits, switches, weights,
                                  norms))


ONE = [(1, (12,))]
STEPS = [(1, (2,)), (1, (3, 2)), (2, (3,)), (1, (4, 3, 2)), (1, (2, 2, 2)),
         (1, (12, 12)), (2, (4, 2))]
SCHEDULES = [(1, (4, 2, 4)), (1, (3, 2, 3, 3)), (1, (2, 2, 2)),
             (1, (2, 3, 3, 2)), (1, (3, 4, 2)), (2, (3, 5, 3, 4)),
             (1, (1, 2, 1)), (2, (4, 4, 2))]
LIMITED = [(1, 1, 1), (2, 3, 2), (3, 4, 3), (4, 2, 5), (1, 6, 6), (2, 2, 4)]


def cases_optimum(tier):
    full = combos(ONE, [UN], [OFF])
    if tier == 'quick':
        return spread(True, (4, 5, 6, 7), GUIDES, full,
                      {4: 2, 5: 2, 6: 2, 7: .5}) + \
            spread(False, (4, 5), GUIDES, full, {4: 2, 5: 1}, 4)
    return spread(True, (4, 5, 6, 7, 8, 9), GUIDES, full,
                  {4: 9, 5: 9, 6: 9, 7: 9, 8: 8, 9: 4}) + \
        spread(False, (4, 5, 6), GUIDES, full, {4: 8, 5: 8, 6: 8}, 2)


def cases_beam(tier):
    full = combos(STEPS, LIMITED, [OFF, IPO, BAL])
    if tier == 'quick':
        return spread(True, (8, 9, 11, 12), GUIDES, full,
                      dict.fromkeys((8, 9, 11, 12), 3), six=3) + \
            spread(False, (6, 7, 8, 9), GUIDES, full,
                   dict.fromkeys((6, 7, 8, 9), 3), six=3)
    return spread(True, range(6, 15), GUIDES, full,
                  dict.fromkeys(range(6, 15), 16), six=3) + \
        spread(False, range(5, 11), GUIDES, full,
               dict.fromkeys(range(5, 11), 16), six=3)


def cases_repair(tier):
    full = combos(STEPS, LIMITED[:4], [REP, ALL, OFF])
    if tier == 'quick':
        return spread(True, (10, 13, 16), GUIDES, full,
                      dict.fromkeys((10, 13, 16), 2), six=3) + \
            spread(False, (8, 9), GUIDES, full, dict.fromkeys((8, 9), 2), six=3)
    return spread(True, range(8, 19), GUIDES, full,
                  dict.fromkeys(range(8, 19), 8), six=3) + \
        spread(False, range(6, 11), GUIDES, full,
               dict.fromkeys(range(6, 11), 8), six=3)


def cases_steps(tier):
    """narrow searches in several outer steps, over grouping schedules where
    the group sizes grow, shrink, repeat and alternate"""
    full = combos(SCHEDULES, [(1, 1, 1), (1, 2, 2), (2, 1, 3)],
                  [OFF, IPO, BAL])
    names = ('none', 'diso', 'contig', 'ipo', 'oopo', 'oopo-ipo-diso')
    if tier == 'quick':
        return spread(True, (10, 11, 12, 14), names, full,
                      dict.fromkeys((10, 11, 12, 14), 6), six=3) + \
            spread(False, (7, 8), names, full,
                   dict.fromkeys((7, 8), 6), six=3)
    return spread(True, range(8, 16), names, full,
                  dict.fromkeys(range(8, 16), 24), six=3) + \
        spread(False, range(6, 11), names, full,
               dict.fromkeys(range(6, 11), 24), six=3)


def cases_unmet(tier):
    for n in ((9, 10, 12, 13, 15) if tier == 'quick'
              else range(6, 24)):
        for name in ('none', 'diso', 'contig', 'bal', 'dam1'):
            for pick in range(5):
                for percent in (15, 20, 25):
                    yield [n, name, pick, percent]


def check_unmet(case, ctx):
    """a 10% rule that the laminate must not satisfy (symmetric laminates): the
    orientation to be kept rare is drawn at random; here, each in turn"""
    import src.LAYLA_V02.outer_step_sym as sym_step
    from src.LAYLA_V02.optimiser import LAYLA_optimiser
    from src.LAYLA_V02.targets import Targets
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.constraints import Constraints
    n, name, pick, percent = case
    kw, cfg, bal, dam = guide(name)
    four = dict(percent_0=percent, percent_90=percent)
    if pick == 4:
        four['percent_45_135'] = 2*percent
    else:
        four.update(percent_45=percent, percent_135=percent)
    words = list(itertools.product(ref.A4, repeat=4))
    for word in words[(n + pick) % 43::43]:
        cons = Constraints(sym=True, set_of_angles=np.array(ref.A4), **kw)
        unmet = Constraints(sym=True, set_of_angles=np.array(ref.A4),
                            rule_10_percent=True, **four)
        gmin = max(1, GUIDES[name].get('n_contig', 1))
        par = Parameters(
            constraints=cons, n_outer_step=2, group_size_min=gmin,
            group_size_max=np.array([3, 4]), global_node_limit=4,
            global_node_limit_p=4, local_node_limit=4,
            local_node_limit_final=4, repair_membrane_switch=False,
            repair_flexural_switch=False,
            lampam_to_be_optimised=np.ones(12))
        half = [word[i % 4] for i in range(n//2)]
        full = half + [90]*(n % 2) + half[::-1]
        targ = Targets(n_plies=n, lampam=np.array(ref.lampam(tuple(full))))
        real, draws = sym_step.random, []
        sym_step.random = types.SimpleNamespace(
            randint=lambda lo, hi: draws.append((lo, hi)) or pick)
        ctx.state(case, word)
        ctx.step()
        try:
            with observed() as steps, \
                    contextlib.redirect_stdout(io.StringIO()):
                res = LAYLA_optimiser(par, cons, targ, None,
                                      not_constraints=unmet)
        except Exception as exc:
            ctx.ok()
            ctx.require(type(exc).__name__ == 'PartitioningError'
                        or type(exc) is Exception, 'runs', lambda: f'{case} '
                        f'{word}: {type(exc).__name__} {exc}')
            ctx.outcome('refused')
            continue
        finally:
            sym_step.random = real
        ctx.ok()
        ctx.outcome('returned')
        got = tuple(int(a) for a in res.ss)
        for found in [r[0] for step in steps for r in step] + [got]*(
                name != 'bal'):
            # (a repair for balance does not know about this rule)
            ctx.require(not ref.ten_ok(ref.counts_of(found), n,
                                       c12.limits(unmet)), 'not-satisfied',
                        lambda: f'{case} {word}: {found} satisfies the rule')
        ctx.require(complies(got, cons, cfg, bal, dam), 'compliant',
                    lambda: f'{case} {word}: {got}')
        ctx.require(all(d == (0, 4) for d in draws), 'draw',
                    lambda: f'{draws}')


def components(tier):
    a = FnComponent('optimum', cases_optimum, solve)
    a.expect_outcomes = ('optimum',)
    b = FnComponent('beam', cases_beam, solve)
    b.expect_outcomes = ('searched', 'refused')
    c = FnComponent('retrieval', cases_repair, solve)
    c.expect_outcomes = ('searched',)
    d = FnComponent('outer-steps', cases_steps, solve)
    d.expect_outcomes = ('searched', 'step 3',
                         'permutation of the previous laminate')
    e = FnComponent('rule-not-to-meet', cases_unmet, check_unmet)
    e.expect_outcomes = ('returned',)
    return [a, b, c, d, e]
