"""C16: RELAY hands back compliant laminates or the laminate it was given."""
import contextlib
import functools
import io
import itertools
import types
from collections import Counter
import numpy as np
from mc import ref, build
from mc.core import FnComponent
from mc.checks import c12, c14

ASSUMPTIONS = [
    'ply counts and outer plies for which a laminate meets balance and the '
    '10% rule',
    'outer plies comply with damage tolerance from the start (no step of '
    'RELAY repairs it)',
]
RULES = [
    (dict(), True),
    (dict(), False),
    (c12.RULES[1], True),
    (c12.RULES[2], True),
    (c12.RULES[4], False),
]
CONFIGS = [
    dict(diso=True, delta_angle=45, contig=True, n_contig=3),
    dict(diso=False, contig=True, n_contig=2),
    dict(diso=False, contig=False),
]
TARGETS = [
    (1., 1., 0., 0., 0., 0., 0., 0., -1., 1., 0., 0.),
    (0., -1., 0., 0., 0., 0., 0., 0., 1., 1., 0., 0.),
    (-.3, .2, .1, 0., 0., 0., 0., 0., .3, -.6, .2, 0.),
]


# importance of each lamination parameter in the objective of each panel
WEIGHTS = [
    (1., .1, .5, 0., 0., 0., 0., 0., 1., .2, .3, 0.),
    (.1, 1., .2, 0., 0., 0., 0., 0., .3, 1., .1, 0.),
    (.4, .3, 1., 0., 0., 0., 0., 0., .1, .4, 1., 0.),
]


def complies(stack, cfg, rules, bal, dam, cons):
    n = len(stack)
    c = Counter(stack)
    if bal and any(c[a] != c[-a] for a in c if a not in (0, 90)):
        return False
    if cons.rule_10_percent and not ref.ten_ok(c, n, c12.limits(cons)):
        return False
    if dam and not ref.dam_tol_ok(stack, dam):
        return False
    return c14.compliant(stack, cfg, dam)


def cases(tier):
    if tier == 'quick':
        tops = {(True, 4): 8, (True, 6): 7, (False, 4): 4, (False, 6): 3}
    else:
        tops = {(True, 4): 11, (True, 6): 9, (False, 4): 6, (False, 6): 4}
    for sym in (True, False):
        for na, angles in ((4, ref.A4), (6, ref.A6)):
            for n in range(2, tops[sym, na] + 1):
                for mid in ((0, 90) if sym and n % 2 else (None,)):
                    for r in range(len(RULES)):
                        for ci in range(len(CONFIGS)):
                            for dam in (0, 1, 3):
                                if dam and n < 6:
                                    continue
                                for f in angles:
                                    if dam and abs(f) != 45:
                                        continue
                                    yield [sym, na, n, mid, r, ci, dam, f]


def params(mem, flex, w=1.):
    return types.SimpleNamespace(
        repair_membrane_switch=mem, repair_flexural_switch=flex, p_A=80,
        n_D1=4, n_D2=3, n_D3=1, weighting_finalA=np.full(4, .25*w),
        weighting_finalD=np.full(4, .25*w), type_obj_func=2,
        lampam_weightings_final=np.arange(1., 13.))


def check(case, ctx):
    from src.RELAY.repair_ss import repair_ss
    sym, na, n, mid, r, ci, dam, first = case
    angles = {4: ref.A4, 6: ref.A6}[na]
    rules, bal = RULES[r]
    cfg = CONFIGS[ci]
    kw = dict(dam_tol=True, dam_tol_rule=dam) if dam else {}
    cons = build.constraints(sym=sym, set_of_angles=angles, bal=bal, **rules,
                             **cfg, **kw)
    model = c12.Model(cons, n, sym, angles, mid)
    if not model.good:
        return
    outer = {0: 0, 1: 1, 3: 2}[dam]

    def dist(stack, tgt, part):
        lp = np.array(ref.lampam(tuple(stack)))
        return float(((lp - tgt)[part]**2).sum())
    A, D = slice(0, 4), slice(8, 12)
    for stack in c12.laminates(angles, n, sym, mid, (first,)):
        if dam and not ref.dam_tol_ok(stack, dam):
            continue
        kept = outer*(1 if sym else 2)
        if model.kept([stack[i] for i in c12.inward_order(n, sym)[:kept]]) \
                < kept:
            continue
        good = complies(stack, cfg, rules, bal, dam, cons)
        for ti, tgt in enumerate(TARGETS):
            tgt = np.array(tgt)
            for mem, flex in ((True, True), (False, True), (True, False),
                              (False, False)):
                if ti and not (mem or flex):
                    continue
                ctx.state(case, stack, ti, mem, flex)
                arr = np.array(stack, int)
                got, done, calls = ctx.call(
                    'repair', repair_ss, arr, cons, params(mem, flex), tgt,
                    count_obj=True)
                got = [int(a) for a in got]
                ctx.ok()

                def text():
                    return (f'{sym=} {rules} {bal=} {cfg} dam_tol {dam} '
                            f'target {tgt} membrane {mem} flexural {flex}: '
                            f'{stack} -> {got} {done}')
                ctx.require(arr.tolist() == stack, 'input-kept', text)
                if not done:
                    ctx.outcome('not repaired')
                    ctx.require(got == stack and calls == 0, 'given-back',
                                text)
                    ctx.require(not good, 'compliant-refused', text)
                    continue
                ctx.outcome('repaired')
                ctx.state(case, got)
                ctx.require(len(got) == n and set(got) <= set(angles)
                            and (not sym or got == got[::-1])
                            and (mid is None or got[n//2] == mid),
                            'laminate', text)
                ctx.require(got[:outer] == stack[:outer]
                            and got[n - outer:] == stack[n - outer:],
                            'outer-plies', text)
                ctx.require(complies(got, cfg, rules, bal, dam, cons),
                            'compliant', text)
                if good:
                    ctx.outcome('compliant')
                    ctx.require(dist(got, tgt, A)
                                <= dist(stack, tgt, A) + 1e-9,
                                'in-plane', text)
                    if not mem:
                        ctx.require(sorted(got) == sorted(stack)
                                    and dist(got, tgt, D)
                                    <= dist(stack, tgt, D) + 1e-9,
                                    'out-of-plane', text)
                    if not mem and not flex:
                        ctx.require(got == stack, 'unchanged', text)
                if ti == 0 and mem and flex:
                    res = [ctx.call('variants', repair_ss, arr, cons,
                                    params(mem, flex), tgt),
                           ctx.call('variants', repair_ss, arr, cons,
                                    params(mem, flex), tgt, 1.),
                           ctx.call('variants', repair_ss, arr, cons,
                                    params(mem, flex), tgt, 1., True)]
                    lp = np.array(ref.lampam(tuple(got)))
                    obj = float((np.arange(1., 13.)*(lp - tgt)**2).sum())
                    ctx.require(
                        [len(x) for x in res] == [2, 3, 4]
                        and all(list(x[0]) == got and x[1] for x in res)
                        and abs(res[1][2] - obj) < 1e-9
                        and abs(res[2][2] - obj) < 1e-9
                        and res[2][3] == calls, 'objective', text)


# --------------------------------------------------------- reference panel
def half_layouts(halves):
    """all nested layouts of panels with these numbers of designed plies,
    thinnest first: the columns each panel keeps"""
    top = halves[-1]

    def rec(i, cols):
        if i < 0:
            yield ()
            return
        for keep in itertools.combinations(cols, halves[i]):
            for rest in rec(i - 1, keep):
                yield rest + (keep,)
    yield from rec(len(halves) - 1, tuple(range(top)))


def full_layout(keeps, counts, sym):
    "ply-drop layout table of nested panels"
    top = counts[-1]
    rows = []
    for keep, n in zip(keeps, counts):
        row = [-1]*top
        for j in keep:
            row[j] = j
            if sym:
                row[top - 1 - j] = top - 1 - j
        if sym and n % 2:
            row[top//2] = top//2
        rows.append(row)
    return rows


STRUCTS = {'quick': [(4, 6), (6, 8), (4, 6, 8), (5, 7), (4, 7), (6, 6)],
           'thorough': [(4, 6), (6, 8), (4, 6, 8), (6, 8, 10), (5, 7), (4, 7),
                        (8, 10), (4, 9), (7, 9), (8, 11)]}


def cases_ref(tier):
    for counts in STRUCTS[tier]:
        if len(set(counts)) < len(counts):
            continue
        for i in range(len(counts)):
            for r in (0, 2, 1):
                for ci in (0, 2):
                    for mid in ((0, 90) if counts[-1] % 2 else (None,)):
                        for mem in (True, False):
                            for f in ref.A4:
                                yield [list(counts), i, r, ci, mid, mem, f]


def check_ref(case, ctx):
    from src.RELAY.repair_reference_panel import repair_reference_panel
    from src.RELAY.repair_ss import repair_ss
    counts, i_ref, r, ci, mid, mem, first = case
    rules, bal = RULES[r]
    cfg = CONFIGS[ci]
    cons = build.constraints(sym=True, set_of_angles=ref.A4, bal=bal,
                             **rules, **cfg)
    n_ref = counts[i_ref]
    if not c12.Model(cons, n_ref, True, ref.A4,
                     mid if n_ref % 2 else None).good:
        return
    tgts = [TARGETS[k % 3] for k in range(len(counts))]
    mp = build.multipanel(counts, cons, targets=tgts,
                          lampam_w=WEIGHTS[:len(counts)])
    mp.filter_lampam_weightings(cons, build.obj_function(cons))
    mp.from_mp_to_blending_strip(cons, n_ref)
    if mp.reduced.ind_ref != i_ref:
        ctx.fail('reference', f'{counts}: {mp.reduced.ind_ref} not {i_ref}')
    pars = params(mem, mem)
    # the reference panel as a laminate on its own
    own = mp.reduced.panels[i_ref]
    alone = params(mem, mem)
    alone.weighting_finalA = own.lampam_weightings[:4]
    alone.weighting_finalD = own.lampam_weightings[8:]
    single = functools.lru_cache(None)(lambda stack: repair_ss(
        np.array(stack), cons, alone, np.array(tgts[i_ref])))
    top = counts[-1]
    layouts = [full_layout(k, counts, True)
               for k in half_layouts([n//2 for n in counts])]
    for half in itertools.product(ref.A4, repeat=top//2):
        if half[0] != first:
            continue
        guide = list(half) + ([mid] if top % 2 else []) + list(half[::-1])
        for pdl in layouts:
            sst0 = [[a if v != -1 else -1 for a, v in zip(guide, row)]
                    for row in pdl]
            ss0 = [[a for a in row if a != -1] for row in sst0]
            ctx.state(case, guide, pdl)
            given = [np.array(s) for s in ss0]
            table = np.array(pdl)
            with contextlib.redirect_stdout(io.StringIO()):
                done, lp, sst, ss = ctx.call(
                    'reference', repair_reference_panel, mp, given, cons,
                    pars, None, table)
            ctx.ok()
            ss = [[int(a) for a in s] for s in ss]

            def text():
                return (f'{counts} reference {i_ref} {rules} {bal=} {cfg} '
                        f'{mem=} {ss0} {pdl}: {done} {ss}')
            ctx.require([s.tolist() for s in given] == ss0
                        and table.tolist() == pdl, 'input-kept', text)
            good = complies(ss0[i_ref], cfg, rules, bal, 0, cons)
            with contextlib.redirect_stdout(io.StringIO()):
                lone = ctx.call('alone', single, tuple(ss0[i_ref]))
            ctx.require(done == lone[1] and ss[i_ref] == [int(a) for a in
                                                          lone[0]],
                        'as-if-alone', lambda: f'{text()}, alone {lone}')
            if not done:
                ctx.outcome('not repaired')
                ctx.require(ss == ss0 and not good, 'given-back', text)
                continue
            ctx.outcome('repaired')
            ctx.state(case, ss)
            ctx.require(complies(ss[i_ref], cfg, rules, bal, 0, cons),
                        'compliant', text)
            new = [row[:] for row in sst0]
            it = iter(ss[i_ref])
            for j in range(top):
                if pdl[i_ref][j] != -1:
                    a = next(it)
                    for row in new:
                        if row[j] != -1:
                            row[j] = a
            ctx.require(np.array_equal(sst, new), 'blended',
                        lambda: f'{text()} {sst.tolist()} not {new}')
            ctx.require(ss == [[a for a in row if a != -1] for row in new],
                        'stacks', text)
            want = [ref.lampam(tuple(s)) for s in ss]
            ctx.require(np.allclose(lp, want, atol=1e-9), 'lampam', text)
            if good and not mem:
                ctx.outcome('compliant')
                ctx.require(ss == ss0, 'unchanged', text)
            tgt = np.array(tgts[i_ref])
            if good:
                a0 = np.array(ref.lampam(tuple(ss0[i_ref])))
                a1 = np.array(want[i_ref])
                w = np.array(WEIGHTS[i_ref])
                ctx.require((w*(a1 - tgt)**2)[:4].sum()
                            <= (w*(a0 - tgt)**2)[:4].sum() + 1e-9, 'in-plane',
                            text)


def components(tier):
    main = FnComponent('repair', cases, check)
    main.expect_outcomes = ('repaired', 'not repaired', 'compliant')
    rp = FnComponent('reference-panel', cases_ref, check_ref)
    rp.expect_outcomes = ('repaired', 'not repaired', 'compliant')
    return [main, rp]
