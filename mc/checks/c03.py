"""C03: pruning of the ply-angle search keeps exactly the extendable angles."""
import itertools
import numpy as np
from mc import ref, build
from mc.core import FnComponent

ASSUMPTIONS = [
    'the guide laminates of BELLA are symmetric (its search of asymmetric '
    'laminates does not run end to end at this commit, see DESIGN.md)',
    'maximum contiguity 2 to 6, the values the code supports',
    'the beam search starts with at least three plies to place']


class _Targets:
    def __init__(self, n_plies):
        self.n_plies = n_plies


def rule_sets(tier):
    out = []
    for dam in (0, 1, 2, 3):
        for diso in (0, 45, 90) if tier == 'quick' else (0, 30, 45, 60, 90):
            for contig in (0, 2, 3, 4) if tier == 'quick' else (0, 2, 3, 4,
                                                               5, 6):
                out.append((dam, diso, contig))
    return out


def kwargs(rules, angles, sym=True):
    dam, diso, contig = rules
    kw = dict(sym=sym, set_of_angles=np.array(angles))
    if dam:
        kw.update(dam_tol=True, dam_tol_rule=dam)
    if diso:
        kw.update(diso=True, delta_angle=diso)
    if contig:
        kw.update(contig=True, n_contig=contig)
    return kw


def expected(angles, mother, level, n_half, mid, rules):
    """(must, may): orientations that must be kept / may be kept"""
    dam, diso, contig = rules
    cand = list(angles)
    last = level == n_half - 1
    if last and mid:
        cand = [0, 90]
    if dam:
        if level == 0:
            s = {a for a in cand if abs(a) == 45}
            return s, s
        if level == 1 and dam == 2:
            s = {a for a in cand if a == -mother[0]}
            return s, s
        if level == 1 and dam == 3:
            s = {a for a in cand if abs(a) == 45}
            # +-45 next to each other is a choice left to the search
            return ({a for a in s if a == -mother[0]}, s)
    keep = set()
    for a in cand:
        if diso and mother and ref.ang_dist(mother[-1], a) > diso:
            continue
        if contig:
            half = list(mother) + [a]
            if not last:
                if ref.longest_run(half[-contig - 1:]) > contig:
                    continue
            else:
                full = half + (half[:-1] if mid else half)[::-1]
                if ref.longest_run(full) > contig:
                    continue
        keep.add(a)
    return keep, keep


def compare(ctx, got, must, may, what):
    got = [] if got is None else [int(a) for a in np.ravel(got)]
    ctx.ok()
    ctx.outcome('kept-%s' % ('none' if not got else 'some'))
    ctx.require(len(got) == len(set(got)), 'no-duplicates',
                lambda: f'{what}: {got}')
    ctx.require(set(got) <= may, 'sound',
                lambda: f'{what}: kept {got}, but only {sorted(may)} can be '
                        'extended into a feasible laminate')
    ctx.require(set(got) >= must, 'complete',
                lambda: f'{what}: kept {got}, although {sorted(must)} satisfy '
                        'the guidelines')


def cases_bella(tier):
    q = tier == 'quick'
    for angles, nmax in ((ref.A4, 6 if q else 7), (ref.A8, 3 if q else 4),
                         ((0, 90), 9 if q else 12)):
        for rules in rule_sets(tier):
            if angles == (0, 90) and rules[0]:
                continue
            for n in range(3, nmax + 1):
                for mid in (False, True):
                    yield [list(angles), list(rules), n, mid]


def check_bella(case, ctx):
    """walks the complete search tree of one problem, level by level: at every
    node the kept children are compared with the definition; the tree is
    continued from the reference so that all feasible prefixes are visited"""
    from src.BELLA.pruning import pruning_diso_contig_damtol as prune
    angles, rules, n, mid = case
    cons = build.constraints(**kwargs(rules, angles))
    front = [()]
    for level in range(n):
        nxt = []
        for mother in front:
            ctx.state(rules, n, mid, mother)
            must, may = expected(angles, mother, level, n, mid, rules)
            child = np.array(cons.set_of_angles)
            before = child.copy()
            m = np.array(mother, int)
            got = ctx.call('prune', prune, child_ss=child, mother_ss_bot=m,
                           level=level, constraints=cons,
                           n_plies_to_optimise=n, has_middle_ply=mid)
            compare(ctx, got, must, may,
                    f'level {level} of {n} (middle ply: {mid}), placed '
                    f'{mother}, rules dam/diso/contig {rules}')
            ctx.require(np.array_equal(m, np.array(mother, int))
                        and np.array_equal(
                            before, np.array(cons.set_of_angles)),
                        'inputs-unchanged', f'{mother} -> {m}')
            nxt.extend(mother + (a,) for a in sorted(may))
        front = nxt
    for half in front[:200]:
        full = list(half) + list(half[:-1] if mid else half)[::-1]
        ctx.sample({'stack': full})


def cases_layla(tier):
    q = tier == 'quick'
    for angles, nmax in ((ref.A4, 11 if q else 13), ((0, 90), 15 if q else 20)):
        for rules in rule_sets(tier):
            if angles == (0, 90) and rules[0]:
                continue
            for n in range(5, nmax + 1):
                half = n // 2 + n % 2
                # (half - 1: the last group is a single ply)
                for split in sorted({0, 2, half - 2, half - 1} if q
                                    else {0, 2, 3, 4, half - 2, half - 1}):
                    if split < half:
                        yield [list(angles), list(rules), n, split]


def check_layla(case, ctx):
    """the laminate is searched in ply groups: the first `split` plies belong
    to an earlier group"""
    from src.LAYLA_V02.pruning import pruning_diso_contig_damtol as prune
    from src.LAYLA_V02.constraints import Constraints
    angles, rules, n, split = case
    cons = Constraints(**kwargs(rules, angles))
    half, mid = n // 2 + n % 2, bool(n % 2)
    front = [()]
    for level in range(half):
        nxt = []
        for mother in front:
            must, may = expected(angles, mother, level, half, mid, rules)
            if level >= split:
                ctx.state(rules, n, split, mother)
                bot = np.array(mother[:split], int)
                if rules[2] and bot.size > rules[2]:
                    bot = bot[-rules[2]:]
                got = ctx.call(
                    'prune', prune, child_ss=np.array(cons.set_of_angles),
                    mother_ss_bot=np.array(mother[split:], int),
                    ss_bot_simp=bot, level=level, constraints=cons,
                    targets=_Targets(n))
                compare(ctx, got, must, may,
                        f'level {level}, {n} plies, groups '
                        f'{mother[:split]} + {mother[split:]}, rules {rules}')
            nxt.extend(mother + (a,) for a in sorted(may))
        front = nxt


def cases_asym(tier):
    q = tier == 'quick'
    for angles, nmax in ((ref.A4, 6 if q else 7), ((0, 90), 8 if q else 11)):
        for rules in rule_sets(tier):
            if angles == (0, 90) and rules[0]:
                continue
            for n in range(5, nmax + 1):
                for split in (0, 2, 3, n - 1) if q else range(n):
                    yield [list(angles), list(rules), n, split]


def expected_asym(angles, bot, top, k, n, last, rules):
    dam, diso, contig = rules
    cand = set(angles)
    if dam:
        if k in (0, n - 1):
            s = {a for a in cand if abs(a) == 45}
            return s, s
        if k in (1, n - 2) and dam > 1:
            s = {a for a in cand
                 if a == -(bot[0] if k == 1 else top[-1])}
            return s, s if dam == 2 else {a for a in cand if abs(a) == 45}
    below = k < n // 2 + n % 2
    keep = set()
    for a in cand:
        lo = list(bot) if below or last else []
        hi = list(top) if not below or last else []
        full = lo + [a] + hi
        i = len(lo)
        if diso and any(ref.ang_dist(full[j], full[j + 1]) > diso
                        for j in (i - 1, i) if 0 <= j < len(full) - 1):
            continue
        if contig:
            j, m = i, i
            while j and full[j - 1] == a:
                j -= 1
            while m + 1 < len(full) and full[m + 1] == a:
                m += 1
            if m - j + 1 > contig:
                continue
        keep.add(a)
    return keep, keep


def check_asym(case, ctx):
    """asymmetric laminates: plies are added from both surfaces to the middle;
    the first `split` plies belong to earlier groups"""
    from src.LAYLA_V02.pruning import pruning_diso_contig_damtol as prune
    from src.LAYLA_V02.constraints import Constraints
    angles, rules, n, split = case
    cons = Constraints(**kwargs(rules, angles, sym=False))
    half = n // 2 + n % 2
    order = [x for p in itertools.zip_longest(
        range(half), range(n - 1, half - 1, -1)) for x in p if x is not None]
    cut_bot = sum(k < half for k in order[:split])
    cut_top = split - cut_bot
    front = [((), ())]
    for level, k in enumerate(order):
        nxt = []
        for bot, top in front:
            must, may = expected_asym(angles, bot, top, k, n, level == n - 1,
                                      rules)
            if level >= split:
                ctx.state(rules, n, split, bot, top)
                t = len(top) - cut_top
                got = ctx.call(
                    'prune', prune, child_ss=np.array(cons.set_of_angles),
                    mother_ss_bot=np.array(bot[cut_bot:], int),
                    ss_bot_simp=np.array(bot[:cut_bot], int),
                    mother_ss_top=np.array(top[:t], int),
                    ss_top_simp=np.array(top[t:], int),
                    level=k, constraints=cons, targets=_Targets(n))
                compare(ctx, got, must, may, f'ply {k} of {n}, below {bot}, '
                        f'above {top}, split {split}, rules {rules}')
            nxt.extend((bot + (a,), top) if k < half else (bot, (a,) + top)
                       for a in sorted(may))
        front = nxt


# ------------------------------------------------------------ stack filters
def cases_filter(tier):
    q = tier == 'quick'
    for contig in (2, 3, 4, 5, 6):
        for diso in (0, 45, 60):
            for alpha, nb, ng in ((ref.A4, 2, 3), ((0, 90), 6 if q else 7,
                                   max(5, contig)),
                                  ((60, -60, 0), 3, 4 if q else 5)):
                for b in range(nb + 1):
                    yield [contig, diso, list(alpha), b, ng]
            yield [contig, diso, [0, 90], 0, 9 if q else 11]


def check_filter(case, ctx):
    from src.guidelines.internal_contig import internal_contig, \
        internal_contig2
    from src.guidelines.external_contig import external_contig
    from src.guidelines.internal_diso_contig import internal_diso_contig
    from src.guidelines.external_diso_contig import external_diso_contig
    contig, diso, alpha, b, ng = case
    from src.LAYLA_V02.constraints import Constraints
    full_alpha = sorted(set(alpha) | {-a for a in alpha if a not in (0, 90)}
                        | {0, 45, -45, 90})
    kw = dict(contig=True, n_contig=contig, set_of_angles=np.array(full_alpha))
    if diso:
        kw.update(diso=True, delta_angle=diso)
    cons_layla, cons = Constraints(**kw), build.constraints(**kw)
    for g in range(1, ng + 1):
        rows = list(itertools.product(alpha, repeat=g))
        mat = np.array(rows, int)
        other = np.arange(len(rows)).reshape(-1, 1)

        def good(seqs):
            return [r for r in range(len(rows)) if seqs(rows[r])]

        def verify(rule, func, want, *args):
            for with2 in (False, True):
                kw2 = dict(angle2=other.copy()) if with2 else {}
                for cc in (cons, cons_layla):
                    got, got2 = ctx.call(rule, func, mat.copy(), *[
                        cc if a is None else a for a in args], **kw2)
                    ctx.ok()
                    got = [tuple(int(x) for x in r) for r in got]
                    ctx.require(got == [rows[r] for r in want], rule,
                                lambda: f'kept {got[:8]}.., expected '
                                f'{[rows[r] for r in want][:8]}..')
                    if with2:
                        ctx.require(
                            [int(x) for x in np.ravel(got2)] == want,
                            rule + '-second-sublaminate',
                            lambda: f'{np.ravel(got2)[:9]} vs {want[:9]}')

        ok_in = good(lambda r: ref.longest_run(r) <= contig)
        ok_in_d = [r for r in ok_in if not diso
                   or not ref.diso_pairs(rows[r], diso)]
        if b == 0:
            verify('internal-contiguity', internal_contig, ok_in, None)
            verify('internal-disorientation-contiguity', internal_diso_contig,
                   ok_in_d, None)
            for r in rows:
                got = ctx.call('stack-contiguity', internal_contig2,
                               np.array(r), cons)
                ctx.require(bool(got) == (ref.longest_run(r) <= contig),
                            'stack-contiguity', f'{r} {contig}: {got}')
        for before in itertools.product(alpha, repeat=b):
            ctx.state(contig, diso, before, g)
            bef = np.array(before, int)

            def junction(r):
                s = list(before) + list(r)
                for i in range(max(0, b - contig), b):
                    w = s[i:i + contig + 1]
                    if len(w) == contig + 1 and len(set(w)) == 1 \
                            and i + contig >= b:
                        return False
                return True
            want = good(junction)
            verify('junction-contiguity', external_contig, want, g, None, bef)
            want_d = [r for r in want if not diso or not b or ref.ang_dist(
                before[-1], rows[r][0]) <= diso]
            verify('junction-disorientation-contiguity', external_diso_contig,
                   want_d, g, None, bef)


def components(tier):
    b = FnComponent('bella-pruning', cases_bella, check_bella)
    b.expect_outcomes = ('kept-none', 'kept-some')
    b.block = 4
    la = FnComponent('layla-pruning', cases_layla, check_layla)
    la.block = 4
    f = FnComponent('stack-filters', cases_filter, check_filter)
    f.block = 1
    asy = FnComponent('layla-pruning-asymmetric', cases_asym, check_asym)
    asy.block = 4
    asy.expect_outcomes = ('kept-none', 'kept-some')
    return [b, la, asy, f]
