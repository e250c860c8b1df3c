"""C01: verdicts of the lay-up guideline checkers."""
import itertools
import types
import numpy as np
from mc import ref
from mc.core import FnComponent

ASSUMPTIONS = [
    'stacks are explored up to the stated lengths over the stated angle sets',
    'src.CLA (absent from the repository) is replaced by a stand-in that '
    'evaluates the textbook lamination-parameter integrals',
    '10% rule limits are whole percents; angles are whole degrees']

PCT = [
    # percent_0, 45, 90, 135, 45_135 , (constructor arguments)
    (10, 10, 10, 10, 0), (10, 0, 10, 0, 20), (50, 0, 0, 0, 0),
    (0, 25, 0, 25, 0), (20, 0, 0, 0, 60), (0, 0, 30, 0, 40),
    (25, 25, 25, 25, 0), (0, 30, 0, 10, 0), (40, 10, 20, 30, 0),
    (0, 0, 0, 0, 80)]


def make(cls='BELLA', **kw):
    if cls == 'BELLA':
        from src.BELLA.constraints import Constraints
    else:
        from src.LAYLA_V02.constraints import Constraints
    return Constraints(**kw)


def pct_of(args, cls='BELLA'):
    "percentages in force for constructor arguments (see C07)"
    p0, p45, p90, p135, p2 = args
    if cls == 'BELLA':
        if p45 > p2/2 or p135 > p2/2:
            return {0: p0, 45: p45, 90: p90, -45: p135, '45': 0}
        return {0: p0, 45: 0, 90: p90, -45: 0, '45': p2}
    return {0: p0, 45: p45, 90: p90, -45: p135, '45': max(p2, p45 + p135)}


def cons10(args, cls='BELLA', sym=False):
    return make(cls, rule_10_percent=True, percent_0=args[0],
                percent_45=args[1], percent_90=args[2], percent_135=args[3],
                percent_45_135=args[4], sym=sym)


# --------------------------------------------------------------- pairs / diso
def cases_pair(tier):
    step = 15 if tier == 'quick' else 5
    angles = list(range(-90 + step, 91, step))
    for delta in (30, 45, 60, 90, 180):
        for a in angles:
            yield [delta, a, angles]


def check_pair(case, ctx):
    from src.guidelines.disorientation import is_diso
    delta, a, angles = case
    for b in angles:
        got = ctx.call('pair', is_diso, a, b, delta)
        want = ref.ang_dist(a, b) <= delta
        ctx.state(delta, a, b)
        ctx.ok()
        ctx.outcome(f'pair-{want}')
        ctx.require(bool(got) == want, 'disorientation-of-two-plies',
                    f'is_diso({a}, {b}, {delta}) = {got}, expected {want}')


def cases_ss(tier):
    "prefix blocks: the check explores every extension of the prefix"
    q = tier == 'quick'
    for n in range(1, (6 if q else 8) + 1):
        for pre in itertools.product(ref.A4, repeat=min(n, 2)):
            yield ['A4', n, list(pre)]
    for n in range(1, (4 if q else 5) + 1):
        for pre in itertools.product(ref.A8, repeat=min(n, 2)):
            yield ['A8', n, list(pre)]
    for n in range(5, (11 if q else 15) + 1):
        for pre in itertools.product((45, -45), repeat=2):
            yield ['A2', n, list(pre)]


def extend(case):
    alpha = {'A4': ref.A4, 'A8': ref.A8, 'A2': (45, -45)}[case[0]]
    pre = tuple(case[2])
    for rest in itertools.product(alpha, repeat=case[1] - len(pre)):
        yield pre + rest


def check_diso_contig(case, ctx):
    from src.guidelines.disorientation import is_diso_ss
    from src.guidelines.contiguity import is_contig
    deltas = (45,) if case[0] == 'A4' else (30, 45, 60)
    for stack in extend(case):
        arr = np.array(stack, 'int16' if len(stack) % 2 else float)
        ctx.state(stack)
        for delta in deltas:
            got = ctx.call('diso-stack', is_diso_ss, arr, delta)
            want = not ref.diso_pairs(stack, delta)
            ctx.require(bool(got) == want, 'disorientation-of-stack',
                        f'is_diso_ss({stack}, {delta}) = {got}')
            for rule in (1, 2, 3):
                if len(stack) < 2:
                    continue
                got = ctx.call('diso-stack', is_diso_ss, arr, delta,
                               dam_tol=True, dam_tol_rule=rule)
                want = not ref.diso_pairs(
                    ref.trimmed(stack, True, rule), delta)
                ctx.outcome(f'diso-rule{rule}-{want}')
                ctx.require(
                    bool(got) == want, 'disorientation-of-stack',
                    f'is_diso_ss({stack}, {delta}, damage tolerance rule '
                    f'{rule}) = {got}, expected {want}')
        run = ref.longest_run(stack)
        for n_contig in (2, 3, 4, 5, 6):
            got = ctx.call('contiguity', is_contig, arr, n_contig)
            want = run <= n_contig
            ctx.outcome(f'contig{n_contig}-{want}')
            ctx.require(bool(got) == want, 'contiguity',
                        f'is_contig({stack}, {n_contig}) = {got}')
        ctx.ok()
        ctx.sample({'stack': stack, 'run': run})


def cases_damtol(tier):
    for c in cases_ss(tier):
        if c[0] != 'A2':
            yield c


def check_damtol_bal(case, ctx):
    from src.guidelines.dam_tol import is_dam_tol
    from src.guidelines.balance import is_balanced
    angles = ref.A8 if case[0] == 'A8' else ref.A4
    cons = {}
    for cls in ('BELLA', 'LAYLA'):
        cons[cls, 0] = make(cls, set_of_angles=np.array(angles))
        for rule in (1, 2, 3):
            cons[cls, rule] = make(cls, dam_tol=True, dam_tol_rule=rule,
                                   set_of_angles=np.array(angles))
    # constraints that state the number of outer plies instead of a rule
    for k in (1, 2):
        cons['plies', k] = types.SimpleNamespace(dam_tol=True,
                                                 n_plies_dam_tol=k)
    for stack in extend(case):
        arr = np.array(stack, 'int16')
        ctx.state(stack)
        for (cls, rule), con in cons.items():
            if rule > 1 and len(stack) < 2:
                continue
            got = ctx.call('damage-tolerance', is_dam_tol, arr, con)
            want = ref.dam_tol_ok(stack, rule)
            ctx.outcome(f'damtol{rule}-{want}')
            ctx.require(bool(got) == want, 'damage-tolerance',
                        f'is_dam_tol({stack}, rule {rule}, {cls}) = {got}')
        got = ctx.call('balance', is_balanced, arr, cons['BELLA', 0])
        want = ref.balanced(stack)
        ctx.outcome(f'balance-{want}')
        ctx.require(bool(got) == want, 'balance',
                    f'is_balanced({stack}) = {got}')
        ctx.ok()


# ------------------------------------------------------------------- 10% rule
def cases_ten(tier):
    for n in range(1, (10 if tier == 'quick' else 20) + 1):
        for pi in range(len(PCT)):
            for cls in ('BELLA', 'LAYLA'):
                yield [n, pi, cls]


def check_ten(case, ctx):
    """verdict depends only on the counts: complete stack (two orders),
    ply counts in set_of_angles order"""
    from src.guidelines.ten_percent_rule import is_ten_percent_rule
    n, pi, cls = case
    con = cons10(PCT[pi], cls)
    pct = pct_of(PCT[pi], cls)
    for comp in ref.compositions(n, 4):
        counts = dict(zip(ref.A4, comp))
        stack = [a for a in ref.A4 for _ in range(counts[a])]
        ctx.state(n, pi, cls, comp)
        for st in (stack, stack[::-1], stack[1::2] + stack[0::2]):
            for e45, e090 in itertools.product((False, True), repeat=2):
                got = ctx.call('ten-stack', is_ten_percent_rule, con,
                               stack=np.array(st), equality_45_135=e45,
                               equality_0_90=e090)
                want = ref.ten_ok(counts, n, pct, e45, e090)
                ctx.outcome(f'ten-{want}')
                ctx.require(bool(got) == want, 'ten-percent-stack',
                            f'{cls} limits {pct}: stack {st} '
                            f'(+-45 alike {e45}, 0/90 alike {e090}): {got}')
        got = ctx.call('ten-counts', is_ten_percent_rule, con,
                       n_plies_per_angle=np.array(
                           [counts[a] for a in con.set_of_angles], float))
        want = ref.ten_ok(counts, n, pct)
        ctx.require(bool(got) == want, 'ten-percent-counts',
                    f'{cls} limits {pct}: ply counts {counts}: {got}, '
                    f'expected {want}')
        ctx.ok()


def cases_queue(tier):
    q = tier == 'quick'
    for sym in (False, True):
        top = (5 if q else 6) if not sym else (9 if q else 11)
        for n in range(2, top + 1):
            for pi in range(len(PCT)):
                yield [n, sym, pi]


def check_queue(case, ctx):
    """a partial stack (666 = unknown) plus the queue of the remaining plies
    gets the verdict of the completed stack"""
    from src.guidelines.ten_percent_rule import is_ten_percent_rule
    n, sym, pi = case
    con = cons10(PCT[pi], 'BELLA', sym)
    pct = pct_of(PCT[pi])
    half = n // 2 if sym else n
    for word in itertools.product(ref.A4, repeat=half):
        mids = ((0, 90, 45, -45) if n % 2 else (None,)) if sym else (None,)
        for mid in mids:
            full = list(word)
            if sym:
                full = full + ([mid] if n % 2 else []) + full[::-1]
            counts = ref.counts_of(full)
            # the innermost k plies of each half are still to be placed
            for k in range(0, half + 1):
                part = list(full)
                for i in range(half - k, half):
                    part[i] = 666
                    if sym:
                        part[n - 1 - i] = 666
                queue = list(word[half - k:])
                for e45, e090 in ((False, False), (True, False),
                                  (True, True)):
                    got = ctx.call(
                        'ten-queue', is_ten_percent_rule, con,
                        stack=np.array(part), ply_queue=queue,
                        equality_45_135=e45, equality_0_90=e090)
                    want = ref.ten_ok(counts, n, pct, e45, e090)
                    ctx.outcome(f'queue-{want}')
                    ctx.require(
                        bool(got) == want, 'ten-percent-partial-stack',
                        f'sym={sym}, limits {pct}: partial stack {part} with '
                        f'remaining plies {queue}: {got}, expected {want}')
                ctx.state(n, sym, pi, tuple(part), tuple(queue))
                ctx.ok()


def cases_abdalla(tier):
    for p in (0, 5, 10, 15, 20, 24):
        for i in range(-20, 21):
            yield ['grid', p, i]
        for n in range(1, 6 if tier == 'quick' else 9):
            yield ['stacks', p, n]


def check_abdalla(case, ctx):
    from src.guidelines.ten_percent_rule import is_ten_percent_rule
    kind, p, arg = case
    con = make(rule_10_percent=True, rule_10_Abdalla=True, percent_Abdalla=p)
    if kind == 'grid':
        pts = [(arg/20., j/20.) for j in range(-20, 21)]
    else:
        pts = []
        for comp in ref.compositions(arg, 4):
            st = [a for a, c in zip(ref.A4, comp) for _ in range(c)]
            pts.append(tuple(ref.lampam(st)[:2]))
    for lp1, lp2 in pts:
        exc = ref.abdalla_excess(p/100, lp1, lp2)
        if abs(exc) < 1e-9:
            continue
        lps = np.array([lp1, lp2] + [0.]*10)
        got = ctx.call('ten-lp', is_ten_percent_rule, con, LPs=lps)
        ctx.state(p, round(lp1, 9), round(lp2, 9))
        ctx.ok()
        ctx.outcome(f'lp-{exc > 0}')
        ctx.require(bool(got) == (exc > 0), 'ten-percent-lamination-params',
                    f'{p}% rule on lamination parameters ({lp1}, {lp2}): '
                    f'{got}')


# ------------------------------------------------------------- overall verdict
def cases_all(tier):
    q = tier == 'quick'
    for cls in ('BELLA', 'LAYLA'):
        for rule in (0, 1, 2, 3):
            for flags in itertools.product((0, 1), repeat=4):
                for lim in (0, 1):
                    if lim and not flags[3]:
                        continue
                    for n in range(2, (5 if q else 6) + 1):
                        yield [cls, rule, list(flags), n, 'A4', lim]
                    if flags[0] or flags[3]:
                        yield [cls, rule, list(flags), 4, 'A6', lim]


def check_all(case, ctx):
    from src.guidelines.one_stack import check_lay_up_rules
    cls, rule, (bal, diso, contig, ten), n, alpha, lim = case
    lim = ((20, 15, 10, 15, 0), (0, 30, 25, 0, 0))[lim]
    angles = ref.A4 if alpha == 'A4' else ref.A6
    kw = dict(dam_tol=bool(rule), bal=bool(bal), diso=bool(diso),
              contig=bool(contig), n_contig=2, rule_10_percent=bool(ten),
              percent_0=lim[0], percent_45=lim[1], percent_90=lim[2],
              percent_135=lim[3],
              set_of_angles=np.array(angles))
    if rule:
        kw['dam_tol_rule'] = rule
    con = make(cls, **kw)
    pct = pct_of(lim, cls)
    for stack in itertools.product(angles, repeat=n):
        want = True
        if rule and not ref.dam_tol_ok(stack, rule):
            want = False
        if bal and not ref.balanced(stack):
            want = False
        if diso and ref.diso_pairs(ref.trimmed(stack, rule, rule), 45):
            want = False
        if contig and ref.longest_run(stack) > 2:
            want = False
        if ten and not ref.ten_ok(ref.counts_of(stack), n, pct):
            want = False
        res, exc = ctx.attempt(check_lay_up_rules, np.array(stack), con)
        got = exc is None
        ctx.state(cls, rule, bal, diso, contig, ten, stack)
        ctx.ok()
        ctx.outcome(f'all-{want}')
        ctx.require(
            got == want, 'overall-verdict',
            f'{cls}, damage tolerance {rule}, balance {bal}, disorientation '
            f'{diso}, contiguity {contig}, 10% {ten}: stack {stack} '
            f'{"accepted" if got else "rejected (%s)" % exc}')
        if ten or bal:
            # rules left out or relaxed on request
            flat = all(abs(x) < 1e-10 for x in ref.lampam(stack)[2:4])
            for e45, e090, no_ipo, no_bal in (
                    (True, False, False, False), (False, True, False, False),
                    (True, True, True, True), (False, False, True, False),
                    (False, False, False, True), (False, False, True, True)):
                want2 = not (
                    rule and not ref.dam_tol_ok(stack, rule)
                    or bal and not no_bal and not ref.balanced(stack)
                    or con.ipo and not no_ipo and not flat
                    or diso and ref.diso_pairs(
                        ref.trimmed(stack, rule, rule), 45)
                    or contig and ref.longest_run(stack) > 2
                    or ten and not ref.ten_ok(ref.counts_of(stack), n, pct,
                                              e45, e090))
                res, exc = ctx.attempt(
                    check_lay_up_rules, np.array(stack), con,
                    no_ipo_check=no_ipo, no_bal_check=no_bal,
                    equality_45_135=e45, equality_0_90=e090)
                ctx.require(
                    (exc is None) == want2, 'relaxed-verdict',
                    f'{case}: +-45 alike {e45}, 0/90 alike {e090}, without '
                    f'orthotropy {no_ipo}, without balance {no_bal}: stack '
                    f'{stack}: {exc}')
        if got:
            res2, exc2 = ctx.attempt(check_lay_up_rules, np.array(stack), con,
                                     n_plies=n + 1)
            ctx.require(exc2 is not None, 'ply-count-verdict',
                        f'{stack} accepted as a stack of {n + 1} plies')


def cases_drops(tier):
    for cov in (0, 1, 2):
        for n in range(2, 6 if tier == 'quick' else 7):
            yield [cov, n]


def check_drops(case, ctx):
    "covering: no ply drop in the outer plies of any panel"
    from src.guidelines.one_stack import check_ply_drop_rules
    cov, n = case
    con = make(covering=bool(cov), n_covering=cov)
    for thin in itertools.product((-1, 0, 45), repeat=n):
        sst = np.array([[0 if a == -1 else a for a in thin], thin])
        for tab in (sst, sst[::-1]):
            _, exc = ctx.attempt(check_ply_drop_rules, tab, None, con)
            want = not cov or -1 not in thin[:cov] + thin[-cov:]
            ctx.state(cov, tab.tolist())
            ctx.ok()
            ctx.outcome(f'covering-{want}')
            ctx.require((exc is None) == want, 'covering',
                        f'covering={cov}: table {tab.tolist()}: {exc}')


def components(tier):
    comps = [
        FnComponent('two-plies', cases_pair, check_pair),
        FnComponent('disorientation-contiguity', cases_ss, check_diso_contig),
        FnComponent('damage-tolerance-balance', cases_damtol,
                    check_damtol_bal),
        FnComponent('ten-percent', cases_ten, check_ten),
        FnComponent('ten-percent-partial', cases_queue, check_queue),
        FnComponent('ten-percent-lampam', cases_abdalla, check_abdalla),
        FnComponent('overall', cases_all, check_all),
        FnComponent('covering', cases_drops, check_drops),
    ]
    for c in comps:
        c.block = 1
    return comps
