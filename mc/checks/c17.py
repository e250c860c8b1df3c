"""C17: the ply drops of a repaired structure are valid and the best ones."""
import contextlib
import io
import itertools
import types
from collections import Counter
import numpy as np
from mc import ref, build
from mc.core import FnComponent
from mc.checks import c12, c14, c16

ASSUMPTIONS = [
    'reference panels that meet contiguity and the 10% rule, as step 4.1 '
    'returns them',
    'ply counts of a symmetric structure all even or all odd (the mix is a '
    'known finding)',
    'balance is kept ply by ply: a panel may hold one unbalanced angle where '
    'its ply count leaves no choice or the targets ask for it',
]
RULES = [
    dict(),
    dict(contig=True, n_contig=2),
    dict(bal=True),
    dict(diso=True, delta_angle=45, contig=True, n_contig=3),
    dict(rule_10_percent=True, percent_0=15, percent_90=15, percent_45=0,
         percent_135=0, percent_45_135=0),
    dict(rule_10_percent=True, rule_10_Abdalla=True, percent_Abdalla=10),
    dict(bal=True, diso=True, delta_angle=45, covering=True, n_covering=1),
    dict(covering=True, n_covering=2, contig=True, n_contig=3),
    dict(rule_10_percent=True, percent_0=20, percent_90=0, percent_45=0,
         percent_135=0, percent_45_135=40),
    dict(pdl_spacing=True, min_drop=3, covering=True, n_covering=1,
         diso=True, delta_angle=45),
    dict(pdl_spacing=True, min_drop=2, bal=True),
    dict(pdl_spacing=True, min_drop=3, rule_10_percent=True, percent_0=20,
         percent_90=0, percent_45=0, percent_135=0, percent_45_135=40),
]
TARGETS = [
    (1., 1., 0., 0., 0., 0., 0., 0., -1., 1., 0., 0.),
    (-.3, .2, .1, 0., 0., 0., 0., 0., .3, -.6, .2, 0.),
    (0., -1., 0., 0., 0., 0., 0., 0., 1., 1., 0., 0.),
    (.2, .1, -.4, 0., 0., 0., 0., 0., 0., -.2, .5, 0.),
]
BIG = 10**6


class Search:
    """the choices of one direction of the repair, all of them

    a state is the stack of the panel under design (with -1 where the
    reference panel has a ply that is dropped, thick to thin)"""

    def __init__(self, mp, cons, counts, i_ref, sym, angles, coeff, thin):
        self.mp = mp
        self.cons, self.counts, self.sym = cons, counts, sym
        self.angles, self.coeff, self.thin = angles, coeff, thin
        red = mp.reduced
        self.w = red.actual_panel_weightings
        self.panels = red.panels
        self.order = (list(range(i_ref))[::-1] if thin
                      else list(range(i_ref + 1, len(counts))))
        self.i_ref = i_ref
        self.cov = cons.n_covering if cons.covering else 0
        self.memo_ok, self.memo_cost = {}, {}

    def valid(self, stack):
        hit = self.memo_ok.get(stack)
        if hit is None:
            c = self.cons
            hit = not (c.contig and ref.contig_windows(stack, c.n_contig))
            if hit and not self.thin and c.diso:
                hit = not ref.diso_pairs(stack, c.delta_angle)
            if hit and c.rule_10_percent and c.rule_10_Abdalla:
                lp = ref.lampam(stack)
                hit = ref.abdalla_excess(c.percent_Abdalla, lp[0],
                                         lp[1]) > -1e-12
            elif hit and c.rule_10_percent:
                hit = ref.ten_ok(Counter(stack), len(stack), c12.limits(c))
            self.memo_ok[stack] = hit
        return hit

    def cost(self, panel, stack):
        key = panel, stack
        hit = self.memo_cost.get(key)
        if hit is None:
            p = self.panels[panel]
            lp = np.array(ref.lampam(stack))
            hit = float((p.lampam_weightings
                         * (lp - p.lampam_target)**2).sum())*self.w[panel]
            if self.thin and self.cons.diso:
                hit *= 1 + self.coeff*len(
                    ref.diso_pairs(stack, self.cons.delta_angle))
            self.memo_cost[key] = hit
        return hit

    @staticmethod
    def stack(state):
        return tuple(a for a in state if a != -1)

    def owed(self, base, state):
        "angle that must come next for balance, if any"
        if not self.cons.bal:
            return None
        diff = Counter(self.stack(base))
        diff.subtract(Counter(self.stack(state)))
        for a in diff:
            if a not in (0, 90) and abs(diff[a]) > abs(diff[-a]):
                return -a
        return None

    def children(self, base, state, all_of_them=False):
        owed = self.owed(base, state)
        n = len(state)
        out = set()
        if self.thin:
            last = n//2 if self.sym else n - self.cov
            for i in range(self.cov, last):
                if state[i] == -1 or owed not in (None, state[i]):
                    continue
                new = list(state)
                new[i] = -1
                if self.sym:
                    new[n - 1 - i] = -1
                out.add(tuple(new))
        else:
            last = n//2 if self.sym else n - self.cov
            for i in range(self.cov, last + 1):
                for a in self.angles:
                    if owed not in (None, a):
                        continue
                    if self.sym:
                        new = (state[:i] + (a,) + state[i:n - i] + (a,)
                               + state[n - i:])
                    else:
                        new = state[:i] + (a,) + state[i:]
                    out.add(new)
        if not all_of_them:
            out = [s for s in out if self.valid(self.stack(s))]
        return list(out)

    def spacing(self, obj, rows):
        from src.guidelines.ply_drop_spacing import calc_penalty_spacing
        return calc_penalty_spacing(
            pdl=[None if r is None else np.array(r) for r in rows], multipanel=self.mp,
            obj_func_param=obj, constraints=self.cons,
            on_blending_strip=True)

    def steps(self):
        "panel under design at each step, and whether it is then complete"
        n = self.counts[self.i_ref]
        inc = 2 if self.sym else 1
        for p in self.order:
            while n != self.counts[p]:
                n += -inc if self.thin else inc
                yield p, n == self.counts[p]

    def best(self, base):
        "least total over all valid chains, and the number of states"
        front = {base: 0.}
        seen = 1
        for p, done in self.steps():
            new = {}
            for s, c in front.items():
                for t in self.children(base, s):
                    d = c + (self.cost(p, self.stack(t)) if done else 0.)
                    if d < new.get(t, np.inf):
                        new[t] = d
            front = new
            seen += len(front)
        return (min(front.values()) if front else None), seen

    def greedy(self, base):
        "totals reachable by the best choice of each step (ties: all)"
        steps = list(self.steps())
        totals = set()

        def rec(k, state, acc):
            p, done = steps[k]
            kids = [(acc + self.cost(p, self.stack(t)), t)
                    for t in self.children(base, state)]
            if not kids:
                totals.add(None)
                return
            low = min(c for c, _ in kids)
            if k == len(steps) - 1:
                totals.add(low)
                return
            for c, t in kids:
                if c <= low + 1e-9:
                    rec(k + 1, t, c if done else acc)
        if steps:
            rec(0, base, 0.)
        return totals

    def beam(self, obj, table, local, general):
        """objective reached with node limits, None for a failure, or 'tie'
        if equal values of different designs leave the choice open"""
        n_pan, ref_row = len(self.counts), tuple(table[self.i_ref])
        rows = [None]*n_pan
        if self.thin:
            rows[self.i_ref] = ref_row
        else:
            for i in range(self.i_ref + 1):
                rows[i] = tuple(a for a, b in zip(table[i], ref_row)
                                if b != -1)
        base = rows[self.i_ref]
        spaced = self.cons.pdl_spacing
        front = [(tuple(rows), 0., 0.)]
        steps = list(self.steps())
        tie = []

        def groups(nodes, limit):
            if not spaced or len(nodes) <= limit:
                return nodes
            cut = sorted(x[2] for x in nodes)[limit - 1]
            return [x for x in nodes if x[2] <= cut]

        def lowest(nodes, limit):
            if len(nodes) <= limit:
                return nodes
            nodes = sorted(nodes, key=lambda x: x[1])
            cut = nodes[limit - 1][1]
            near = {x[0] if spaced else self.stack(x[0][now])
                    for x in nodes if abs(x[1] - cut) < 1e-9}
            if len(near) > 1 and abs(nodes[limit][1] - cut) < 1e-9:
                tie.append(1)
            return nodes[:limit]

        for k, (now, done) in enumerate(steps):
            last = k == len(steps) - 1
            new = []
            for rows, acc, _ in front:
                was = rows[now]
                if was is None:
                    was = rows[now + (1 if self.thin else -1)]
                n = len(was)
                first = base if self.thin else self.stack(rows[self.i_ref])
                owed = self.owed(first, was)
                kids = []
                end = n//2 if self.sym else n - self.cov
                for i in range(self.cov, end + (not self.thin)):
                    if self.thin:
                        if was[i] == -1 or owed not in (None, was[i]):
                            continue
                        row = list(was)
                        row[i] = -1
                        if self.sym:
                            row[n - 1 - i] = -1
                        kids.append(rows[:now] + (tuple(row),)
                                    + rows[now + 1:])
                        continue
                    for a in self.angles:
                        if owed not in (None, a):
                            continue
                        kid = list(rows)
                        kid[now] = was
                        for j in range(now + 1):
                            b, row = a if j == now else -1, kid[j]
                            kid[j] = (row[:i] + (b,) + row[i:n - i] + (b,)
                                      + row[n - i:] if self.sym
                                      else row[:i] + (b,) + row[i:])
                        kids.append(tuple(kid))
                kids = [(kid, 0., self.spacing(obj, kid) if spaced else 0.)
                        for kid in kids]
                kids = [(kid, acc + self.cost(now, self.stack(kid[now])), s)
                        for kid, _, s in groups(kids, local)
                        if self.valid(self.stack(kid[now]))]
                new += kids if last else lowest(kids, local)
                new[:] = [(kid, val, s, acc) if len(x) == 3 else x
                          for x in new for kid, val, s in [x[:3]]]
            if self.thin:
                new = list({x[0]: x for x in new}.values())
            if not last:
                new = lowest(groups(new, general), general)
            if tie:
                return 'tie'
            if not new:
                return None
            if last:
                return min(x[1] for x in new)
            front = [(kid, val if done else acc, s)
                     for kid, val, s, acc in new]
        return 0.

    def reachable(self, base, start, goal, n):
        "goal reached from start by valid steps"
        front = {start}
        for _ in range(n):
            front = {t for s in front for t in self.children(base, s)}
        return goal in front


LIMITS = [(BIG, BIG), (1, 1), (2, 3)]


def params(limit2, limit3):
    return types.SimpleNamespace(
        local_node_limit2=limit2[0], global_node_limit2=limit2[1],
        local_node_limit3=limit3[0], global_node_limit3=limit3[1],
        **vars(c16.params(False, False)))


def nested(table):
    "rows from thin to thick: the plies of each one are in the next one"
    return all(a == -1 or a == b for r, s in zip(table, table[1:])
               for a, b in zip(r, s))


def covered(table, cov):
    return all(r[j] != -1 and r[-1 - j] != -1 for r in table
               for j in range(cov))


STRUCTS = {
    'quick': {True: [(4, 6), (4, 8), (6, 8), (4, 6, 8), (2, 4, 8), (5, 7),
                     (5, 9), (3, 5, 7), (6, 6, 8)],
              False: [(3, 4), (2, 4), (3, 4, 5), (4, 5, 6)]},
    'thorough': {True: [(4, 10), (6, 10), (6, 8, 10), (8, 10), (5, 7, 9),
                        (4, 6, 8, 10)],
                 False: [(3, 5), (2, 3, 4, 5)]},
}


SMALL = [(4, 6), (5, 7)]


def cases(tier):
    tops = {'quick': {4: 8, 6: 6}, 'thorough': {4: 8, 6: 7}}[tier]
    structs = {s: list(v) for s, v in STRUCTS['quick'].items()}
    if tier != 'quick':
        for s in structs:
            structs[s] += STRUCTS[tier][s]
    for sym in (True, False):
        for counts in structs[sym]:
            uniq = sorted(set(counts))
            for i in range(len(uniq)):
                for na, angles in ((4, ref.A4), (6, ref.A6)):
                    scale = 1 if sym else 2
                    if scale*uniq[i] > tops[na]:
                        continue
                    for r in range(len(RULES)):
                        if (sym and uniq[i] > 8
                                and r not in (0, 3, 5, 6, 8, 9, 10)):
                            continue
                        if counts == (4, 5, 6) and r not in (6, 7):
                            continue
                        if (RULES[r].get('rule_10_Abdalla')
                                and (na == 6 or not sym
                                     or counts not in SMALL)):
                            # thousands of points per distance
                            continue
                        for mid in ((0, 90) if sym and uniq[i] % 2
                                    else (None,)):
                            for f in angles:
                                yield [sym, list(counts), i, na, r, mid, f]


def references(cons, n, sym, angles, mid, first, search):
    for s in c12.laminates(angles, n, sym, mid, (first,)):
        if search.valid(tuple(s)):
            if cons.bal and any(Counter(s)[a] != Counter(s)[-a]
                                for a in s if a not in (0, 90)):
                continue
            yield tuple(int(a) for a in s)


def layouts(n, top, sym, cov):
    "columns of the reference panel in the thickest one"
    if sym:
        for keep in itertools.combinations(range(top//2), n//2):
            if all(j in keep for j in range(cov)):
                yield (keep + ((top//2,) if n % 2 else ())
                       + tuple(top - 1 - j for j in keep[::-1]))
    else:
        for keep in itertools.combinations(range(top), n):
            if all(j in keep and top - 1 - j in keep for j in range(cov)):
                yield keep


def check(case, ctx):
    from src.RELAY.thick_to_thin import repair_thick_to_thin
    from src.RELAY.thin_to_thick import repair_thin_to_thick
    sym, given, i_ref, na, r, mid, first = case
    angles = {4: ref.A4, 6: ref.A6}[na]
    cons = build.constraints(sym=sym, set_of_angles=angles, **RULES[r])
    counts = sorted(set(given))
    if 2*(cons.n_covering if cons.covering else 0) > counts[0]:
        return
    tgts = [TARGETS[k % len(TARGETS)] for k in range(len(given))]
    coeff = 7.
    obj = build.obj_function(cons, coeff_diso=coeff)
    mp = build.multipanel(given, cons, targets=tgts,
                          weightings=[k + 1. for k in range(len(given))],
                          lampam_w=[c16.WEIGHTS[k % 3]
                                    for k in range(len(given))])
    mp.filter_lampam_weightings(cons, obj)
    n_ref, top = counts[i_ref], counts[-1]
    mp.from_mp_to_blending_strip(cons, n_ref)
    if mp.reduced.ind_ref != i_ref:
        ctx.fail('reference', f'{given}: {mp.reduced.ind_ref} not {i_ref}')
    args = (mp, cons, counts, i_ref, sym, angles, coeff)
    thin, thick = Search(*args, True), Search(*args, False)
    cov = thin.cov
    for k, stack in enumerate(references(cons, n_ref, sym, angles, mid,
                                         first, thin)):
        if cons.diso and ref.diso_pairs(stack, cons.delta_angle):
            # the rule is then broken by all thicker panels or by none
            ctx.outcome('reference not oriented')
        places = list(layouts(n_ref, top, sym, cov))
        place = places[k % len(places)]
        run_thin(ctx, case, repair_thick_to_thin, mp, cons, obj, thin, stack,
                 place, top)
        run_thick(ctx, case, repair_thin_to_thick, mp, cons, obj, thick,
                  stack, place, top)


def table(counts, i_ref, stack, place, top, sym, cov):
    "some stacking sequence table with this reference panel"
    row = [-1]*top
    for a, j in zip(stack, place):
        row[j] = a
    rows = [None]*len(counts)
    rows[i_ref] = row
    for i in range(i_ref + 1, len(counts)):
        new = rows[i - 1][:]
        free = [j for j in range(top//2 if sym else top) if new[j] == -1]
        need = (counts[i] - counts[i - 1])//(2 if sym else 1)
        for j in free[:need]:
            new[j] = 0
            if sym:
                new[top - 1 - j] = 0
        rows[i] = new
    for i in range(i_ref)[::-1]:
        new = rows[i + 1][:]
        # plies dropped from the middle outwards, those in the middle of an
        # odd symmetric laminate kept
        used = [j for j in range(top//2 if sym else top) if new[j] != -1]
        need = (counts[i + 1] - counts[i])//(2 if sym else 1)
        used = used[cov:] if sym else used[cov:len(used) - cov]
        for j in used[::-1][:need]:
            new[j] = -1
            if sym:
                new[top - 1 - j] = -1
        rows[i] = new
    return rows


def start(ctx, search, stack, place, top, cov):
    rows = table(search.counts, search.i_ref, stack, place, top, search.sym,
                 cov)
    ss = [np.array([a for a in row if a != -1]) for row in rows]
    lp = np.array([ref.lampam(tuple(s.tolist())) for s in ss])
    return rows, lp, ss


def run_thin(ctx, case, func, mp, cons, obj, search, stack, place, top):
    counts, i_ref, sym = search.counts, search.i_ref, search.sym
    rows, lp0, ss0 = start(ctx, search, stack, place, top, search.cov)
    base = tuple(rows[i_ref])
    least, n = search.best(base)
    ctx.step(n)
    for limits in LIMITS:
        limit = limits[0]
        ctx.state('thin', case, base, limit)
        sst_in, ss_in = np.array(rows), [s.copy() for s in ss0]
        lp_in = lp0.copy()
        with contextlib.redirect_stdout(io.StringIO()):
            done, sst, lp, ss = ctx.call(
                'thick-to-thin', func, lp_in, sst_in, ss_in, mp,
                params(limits, LIMITS[limit == BIG]), obj, cons)
        ctx.ok()
        sst = np.array(sst).tolist()
        ss = [[int(a) for a in s] for s in ss]

        def text():
            return (f'{counts} reference {i_ref} {RULES[case[4]]} {sym=} '
                    f'{limit=} {list(base)}: {done} {sst[:i_ref]}')
        beam = 'tie'
        if limit != BIG and (limit > 1 or cons.pdl_spacing):
            beam = search.beam(obj, rows, *limits)
            ctx.outcome('beam' if beam != 'tie' else 'tie')
        if not done:
            ctx.require(beam in (None, 'tie'), 'thin-beam-failed', text)
            ctx.outcome('thin failed')
            ctx.require(least is None or limit != BIG, 'thin-missed', text)
            if limit == 1 and not cons.pdl_spacing:
                ctx.require(None in search.greedy(base), 'thin-greedy', text)
            ctx.require(sst == rows and ss == [s.tolist() for s in ss0]
                        and np.array_equal(lp, lp0), 'thin-given-back', text)
            continue
        ctx.outcome('thin' if i_ref else 'thin nothing')
        ctx.require(sst[i_ref:] == rows[i_ref:]
                    and ss[i_ref:] == [s.tolist() for s in ss0[i_ref:]],
                    'reference-kept', text)
        finish(ctx, 'thin', search, sst, ss, lp, text)
        prev = base
        inc = 2 if sym else 1
        for i in range(i_ref)[::-1]:
            ctx.require(search.reachable(
                base, prev, tuple(sst[i]), (counts[i + 1] - counts[i])//inc),
                'thin-valid', text)
            prev = tuple(sst[i])
        got = sum(search.cost(i, tuple(ss[i])) for i in range(i_ref))
        ctx.require(beam == 'tie' or beam is not None
                    and abs(beam - got) < 1e-9, 'thin-beam',
                    lambda: f'{text()} {got} not {beam}')
        if limit == BIG:
            ctx.require(abs(got - (least or 0.)) < 1e-9, 'thin-best',
                        lambda: f'{text()} {got} not {least}')
        elif limit == 1 and i_ref and not cons.pdl_spacing:
            opts = search.greedy(base)
            ctx.require(any(o is not None and abs(got - o) < 1e-8
                            for o in opts), 'thin-greedy',
                        lambda: f'{text()} {got} not {opts}')


def run_thick(ctx, case, func, mp, cons, obj, search, stack, place, top):
    counts, i_ref, sym = search.counts, search.i_ref, search.sym
    rows, lp0, ss0 = start(ctx, search, stack, place, top, search.cov)
    least, n = search.best(stack)
    ctx.step(n)
    for limits in LIMITS:
        limit = limits[0]
        if limit == BIG and n > 30000:
            continue
        ctx.state('thick', case, stack, place, limit)
        sst_in, ss_in = np.array(rows), [s.copy() for s in ss0]
        with contextlib.redirect_stdout(io.StringIO()):
            done, sst, lp, ss = ctx.call(
                'thin-to-thick', func, lp0.copy(), sst_in, ss_in, mp,
                params(LIMITS[limit == BIG], limits), obj, cons)
        ctx.ok()
        sst = np.array(sst).tolist()
        ss = [[int(a) for a in s] for s in ss]

        def text():
            return (f'{counts} reference {i_ref} {RULES[case[4]]} {sym=} '
                    f'{limit=} {rows}: {done} {sst}')
        beam = 'tie'
        if limit != BIG and (limit > 1 or cons.pdl_spacing):
            beam = search.beam(obj, rows, *limits)
            ctx.outcome('beam' if beam != 'tie' else 'tie')
        if not done:
            ctx.require(beam in (None, 'tie'), 'thick-beam-failed', text)
            ctx.outcome('thick failed')
            ctx.require(least is None or limit != BIG, 'thick-missed', text)
            if limit == 1 and not cons.pdl_spacing:
                ctx.require(None in search.greedy(stack), 'thick-greedy',
                            text)
            ctx.require(sst == rows and ss == [s.tolist() for s in ss0],
                        'thick-given-back', text)
            continue
        ctx.outcome('thick' if i_ref + 1 < len(counts) else 'thick nothing')
        ctx.require(ss[:i_ref + 1] == [s.tolist() for s in ss0[:i_ref + 1]],
                    'thin-panels-kept', text)
        finish(ctx, 'thick', search, sst, ss, lp, text)
        prev = stack
        inc = 2 if sym else 1
        for i in range(i_ref + 1, len(counts)):
            ctx.require(search.reachable(
                stack, prev, tuple(ss[i]), (counts[i] - counts[i - 1])//inc),
                'thick-valid', text)
            prev = tuple(ss[i])
        got = sum(search.cost(i, tuple(ss[i]))
                  for i in range(i_ref + 1, len(counts)))
        ctx.require(beam == 'tie' or beam is not None
                    and abs(beam - got) < 1e-9, 'thick-beam',
                    lambda: f'{text()} {got} not {beam}')
        if limit == BIG:
            ctx.require(abs(got - (least or 0.)) < 1e-9, 'thick-best',
                        lambda: f'{text()} {got} not {least}')
        elif (limit == 1 and i_ref + 1 < len(counts)
              and not cons.pdl_spacing):
            opts = search.greedy(stack)
            ctx.require(any(o is not None and abs(got - o) < 1e-8
                            for o in opts), 'thick-greedy',
                        lambda: f'{text()} {got} not {opts}')


def finish(ctx, name, search, sst, ss, lp, text):
    "what holds for the structure after either repair"
    counts = search.counts
    ctx.require([len(s) for s in ss] == counts, name + '-ply-counts', text)
    ctx.require(ss == [[a for a in row if a != -1] for row in sst]
                and len(sst[0]) == counts[-1], name + '-stacks', text)
    ctx.require(nested(sst), name + '-blended', text)
    ctx.require(covered(sst, search.cov), name + '-covering', text)
    ctx.require(not search.sym or all(row == row[::-1] for row in sst),
                name + '-symmetric', text)
    ctx.require(np.allclose(lp, [ref.lampam(tuple(s)) for s in ss],
                            atol=1e-9), name + '-lampam', text)


# --------------------------------------------------------------- whole repair
MP_STRUCTS = {'quick': [(4, 6), (6, 8), (4, 6, 8), (5, 7), (4, 8)],
              'thorough': [(4, 6), (6, 8), (4, 6, 8), (5, 7), (4, 8),
                           (6, 8, 10), (8, 10), (5, 7, 9)]}
MP_RULES = [(0, 0), (0, 2), (2, 1), (1, 0)]


def cases_mp(tier):
    for counts in MP_STRUCTS[tier]:
        for i in range(len(counts)):
            for r, ci in MP_RULES:
                for cov in (0, 1):
                    for mid in ((0, 90) if counts[-1] % 2 else (None,)):
                        for mem in (True, False):
                            for f in ref.A4:
                                yield [list(counts), i, r, ci, cov, mid,
                                       mem, f]


def check_mp(case, ctx):
    from src.RELAY.repair_mp import repair_mp
    counts, i_ref, r, ci, cov, mid, mem, first = case
    rules, bal = c16.RULES[r]
    cfg = c16.CONFIGS[ci]
    kw = dict(covering=True, n_covering=cov) if cov else {}
    cons = build.constraints(sym=True, set_of_angles=ref.A4, bal=bal,
                             **rules, **cfg, **kw)
    n_ref = counts[i_ref]
    if not c12.Model(cons, n_ref, True, ref.A4,
                     mid if n_ref % 2 else None).good:
        return
    tgts = [TARGETS[k] for k in range(len(counts))]
    obj = build.obj_function(cons, coeff_diso=3.)
    mp = build.multipanel(counts, cons, targets=tgts,
                          lampam_w=c16.WEIGHTS[:len(counts)])
    mp.filter_lampam_weightings(cons, obj)
    mp.from_mp_to_blending_strip(cons, n_ref)
    args = (mp, cons, counts, i_ref, True, ref.A4, 3.)
    thin, thick = Search(*args, True), Search(*args, False)
    pars = types.SimpleNamespace(
        local_node_limit2=BIG, global_node_limit2=BIG, local_node_limit3=3,
        global_node_limit3=3, **vars(c16.params(mem, mem)))
    top = counts[-1]
    lays = [c16.full_layout(k, counts, True)
            for k in c16.half_layouts([n//2 for n in counts])]
    lays = [p for p in lays if covered(p, cov)]
    k = 0
    for half in itertools.product(ref.A4, repeat=top//2):
        if half[0] != first:
            continue
        guide = list(half) + ([mid] if top % 2 else []) + list(half[::-1])
        k += 1
        pdl = lays[k % len(lays)]
        sst0 = [[a if v != -1 else -1 for a, v in zip(guide, row)]
                for row in pdl]
        ss0 = [[a for a in row if a != -1] for row in sst0]
        ctx.state(case, guide, pdl)
        given = [np.array(s) for s in ss0]
        tab = np.array(pdl)
        with contextlib.redirect_stdout(io.StringIO()):
            done, ss, sst, new, code = ctx.call(
                'structure', repair_mp, mp, given, cons, pars, obj, tab)
        ctx.ok()
        ss = [[int(a) for a in s] for s in ss]
        sst, new = np.array(sst).tolist(), np.array(new).tolist()

        def text():
            return (f'{counts} reference {i_ref} {rules} {bal=} {cfg} {kw} '
                    f'{mem=} {ss0} {pdl}: {done} {code} {sst} {new}')
        ctx.outcome(f'code {code}')
        ctx.require([s.tolist() for s in given] == ss0
                    and tab.tolist() == pdl, 'input-kept', text)
        ctx.require(done == (code == 4) and code in (1, 2, 3, 4), 'code',
                    text)
        ctx.require([len(s) for s in ss] == counts, 'ply-counts', text)
        ctx.require(ss == [[a for a in row if a != -1] for row in sst],
                    'stacks', text)
        ctx.require([[v != -1 for v in row] for row in new]
                    == [[a != -1 for a in row] for row in sst], 'layout',
                    text)
        ctx.require(nested(sst) and all(row == row[::-1] for row in sst)
                    and covered(sst, cov), 'blended', text)
        good = c16.complies(ss0[i_ref], cfg, rules, bal, 0, cons)
        if code == 1:
            ctx.require(ss == ss0 and not good, 'given-back', text)
            continue
        ctx.require(c16.complies(ss[i_ref], cfg, rules, bal, 0, cons),
                    'compliant', text)
        if good and not mem:
            ctx.require(ss[i_ref] == ss0[i_ref], 'reference-kept', text)
        if code == 2:
            ctx.require(new == pdl, 'layout-kept', text)
        base = [-1]*top
        for a, v in zip(sst[i_ref], range(top)):
            base[v] = a
        least, _ = thin.best(tuple(base))
        ctx.require((code == 2) == (least is None), 'drops', text)
        if code >= 3:
            got = sum(thin.cost(i, tuple(ss[i])) for i in range(i_ref))
            ctx.require(abs(got - least) < 1e-9, 'best', text)
            ctx.require(all(thin.valid(tuple(s)) for s in ss[:i_ref]),
                        'thin-panels', text)
        if code == 4:
            ctx.require(all(thick.valid(tuple(s)) for s in ss[i_ref + 1:]),
                        'thick-panels', text)


def components(tier):
    main = FnComponent('ply-drops', cases, check)
    main.expect_outcomes = ('thin', 'thick', 'thin failed', 'thick failed',
                            'beam')
    mpc = FnComponent('structure', cases_mp, check_mp)
    mpc.expect_outcomes = ('code 1', 'code 2', 'code 4')
    return [main, mpc]
