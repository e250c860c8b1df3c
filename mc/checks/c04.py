"""C04: ply-drop spacing and covering of a ply-drop layout."""
import itertools
from fractions import Fraction
import numpy as np
from mc import ref, build
from mc.core import FnComponent

ASSUMPTIONS = [
    'layouts are guide-based: the plies of a panel are a subset of those of '
    'every thicker panel',
    'adjacent ply drops miss min_drop plies between them, as drops k plies '
    'apart miss min_drop - k']


def missing(layout, min_drop):
    "plies missing between consecutive ply drops"
    drops = [i for i, v in enumerate(layout) if v == -1]
    return sum(max(0, min_drop - (b - a - 1))
               for a, b in zip(drops, drops[1:]))


def boundary_penalty(row1, row2, min_drop):
    """rows of two panels: the plies that cover neither are left out; the
    drops are those of the thinner panel"""
    both = [(a, b) for a, b in zip(row1, row2) if a != -1 or b != -1]
    if not both:
        return Fraction(0)
    lay = [-1 if a == -1 or b == -1 else 0 for a, b in both]
    return Fraction(missing(lay, min_drop), len(lay))


# ---------------------------------------------------------------- one layout
def cases_row(tier):
    for n in range(1, (12 if tier == 'quick' else 16) + 1):
        for min_drop in (1, 2, 3, 4, 5):
            yield [n, min_drop]


def check_row(case, ctx):
    from src.guidelines.ply_drop_spacing import calc_penalty_spacing_1ss
    n, min_drop = case
    for bits in itertools.product((0, 1), repeat=n):
        lay = np.array([-1 if b else i % 4 for i, b in enumerate(bits)])
        got = ctx.call('layout', calc_penalty_spacing_1ss, lay, min_drop)
        want = Fraction(missing(lay.tolist(), min_drop), n)
        ctx.state(min_drop, bits)
        ctx.ok()
        ctx.outcome('row-zero' if want == 0 else 'row-positive')
        ctx.require(abs(got - want) < 1e-12, 'spacing-of-a-layout',
                    lambda: f'{lay.tolist()} min_drop={min_drop}: {got} '
                            f'instead of {want}')


# ----------------------------------------------------------------- structures
def structures(tier):
    """(panel ply counts as ranks, neighbours, boundary weights): ranks refer
    to the distinct thicknesses, thinnest = 0"""
    out = [
        ((0, 1), [(1, 2)], {(1, 2): 1}),
        ((1, 0), [(1, 2)], {(2, 1): 3}),
        ((0, 1, 2), [(1, 2), (2, 3)], {(1, 2): 1, (2, 3): 2}),
        ((2, 0, 1), [(1, 2), (2, 3), (1, 3)],
         {(1, 2): 1, (3, 2): 2, (1, 3): 5}),
        ((1, 0, 1, 0), [(1, 2), (2, 3), (3, 4), (4, 1)],
         {(1, 2): 1, (2, 3): 2, (3, 4): 4, (1, 4): 0}),
        ((2, 1, 1, 0), [(1, 2), (2, 3), (3, 4), (4, 1), (1, 3)], None),
    ]
    return out


def build_mp(struct, counts, cons):
    ranks, edges, weights = struct
    n = len(ranks)
    neigh = {i: [] for i in range(1, n + 1)}
    for a, b in edges:
        neigh[a].append(b)
        neigh[b].append(a)
    return build.multipanel([counts[r] for r in ranks], cons,
                            neighbours=neigh, boundary_weights=weights)


def nested(n_ranks, n_cols):
    "all nested layouts: column j covers the panels of rank >= t_j"
    for ts in itertools.product(range(n_ranks), repeat=n_cols):
        if all(any(t <= r < t + 1 for t in ts) or r == 0
               for r in range(n_ranks)):
            rows = [[j if t <= r else -1 for j, t in enumerate(ts)]
                    for r in range(n_ranks)]
            counts = [sum(v != -1 for v in row) for row in rows]
            if counts[0] >= 1 and len(set(counts)) == n_ranks:
                yield np.array(rows)


def cases_struct(tier):
    for i, s in enumerate(structures(tier)):
        nr = max(s[0]) + 1
        top = {2: 8, 3: 6} if tier == 'quick' else {2: 11, 3: 8}
        for n in range(2, top[nr] + 1):
            for md in (1, 2, 3, 5):
                for on in (True, False):
                    yield [i, n, md, on]


def reference(struct, rows, min_drop):
    ranks, edges, weights = struct
    tot = Fraction(0)
    for a, b in edges:
        w = 1 if weights is None else weights.get((a, b), weights.get((b, a)))
        ra, rb = ranks[a - 1], ranks[b - 1]
        if ra != rb:
            tot += w*boundary_penalty(rows[ra], rows[rb], min_drop)
    return tot


def check_struct(case, ctx):
    from src.guidelines.ply_drop_spacing import calc_penalty_spacing
    from src.guidelines.one_stack import check_ply_drop_rules
    i, n, md, on = case
    struct = structures(None)[i]
    nr = max(struct[0]) + 1
    cons = build.constraints(sym=False, pdl_spacing=on, min_drop=md)
    mps = {}
    for pdl in nested(nr, n):
        counts = tuple(int((r != -1).sum()) for r in pdl)
        if counts not in mps:
            mp = build_mp(struct, counts, cons)
            mp.from_mp_to_blending_strip(cons)
            mps[counts] = mp
        mp = mps[counts]
        rows = pdl.tolist()
        want = reference(struct, rows, md) if on else 0
        ctx.state(i, md, on, rows)
        ctx.outcome('struct-zero' if want == 0 else 'struct-positive')
        keep = pdl.copy()
        got = ctx.call('strip', calc_penalty_spacing, pdl=pdl,
                       multipanel=mp, constraints=cons,
                       on_blending_strip=True)
        ctx.require(abs(got - want) < 1e-9, 'spacing-of-strip',
                    lambda: f'structure {struct}, layout {rows}, '
                    f'min_drop {md}: {got} instead of {want}')
        full = np.array([pdl[r] for r in struct[0]])
        for data in (full, [r.copy() for r in full]):
            got = ctx.call('panels', calc_penalty_spacing, pdl=data,
                           multipanel=mp, constraints=cons)
            ctx.require(abs(got - want) < 1e-9, 'spacing-of-panels',
                        lambda: f'structure {struct}, layout {rows}, '
                        f'min_drop {md}: {got} instead of {want}')
        ctx.require(np.array_equal(keep, pdl), 'layout-unchanged', rows)
        for data, red in ((pdl, True), (full, False)):
            _, exc = ctx.attempt(check_ply_drop_rules, data, mp, cons, red)
            ctx.require((exc is None) == (want == 0), 'drop-rule-verdict',
                        f'{struct}, {rows}, min_drop {md}: {exc!r}, '
                        f'penalty {want}')
        # plies given in three consecutive ply groups
        if n >= 4 and on:
            for c1, c2 in ((0, n - 2), (1, n - 1), (2, n), (2, n - 1),
                           (0, 1), (1, 2), (n - 1, n)):
                got = ctx.call(
                    'groups', calc_penalty_spacing, pdl=pdl[:, c1:c2],
                    multipanel=mp, constraints=cons, on_blending_strip=True,
                    pdl_before=pdl[:, :c1], pdl_after=pdl[:, c2:])
                ctx.require(abs(got - want) < 1e-9, 'spacing-across-groups',
                            lambda: f'{rows} as {c1}:{c2}, {got} vs {want}')
        # panels not designed yet do not count
        if nr == 3 and on:
            part = [None, pdl[1], pdl[2]]
            sub = Fraction(0)
            for a, b in struct[1]:
                ra, rb = struct[0][a - 1], struct[0][b - 1]
                if ra != rb and 0 not in (ra, rb):
                    w = 1 if struct[2] is None else struct[2].get(
                        (a, b), struct[2].get((b, a)))
                    sub += w*boundary_penalty(rows[ra], rows[rb], md)
            got = ctx.call('undesigned', calc_penalty_spacing, pdl=part,
                           multipanel=mp, constraints=cons,
                           on_blending_strip=True)
            ctx.require(abs(got - sub) < 1e-9, 'spacing-of-designed-panels',
                        lambda: f'{rows} without panel 0: {got} vs {sub}')
        ctx.ok()
        if want:
            ctx.sample({'layout': rows, 'penalty': str(want)})


# ---------------------------------------------------------------- same layout
def cases_same(tier):
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        yield [n]


def check_same(case, ctx):
    from src.guidelines.ply_drop_spacing import is_same_pdl
    n = case[0]
    rows = [None] + [np.array(r) for r in
                     itertools.product((-1, 0), repeat=2)]
    other = [np.array(r) for r in itertools.product((-1, 0), repeat=2)]
    for p1 in itertools.product(range(5), repeat=n):
        l1 = [rows[k] for k in p1]
        for p2 in itertools.product(range(4), repeat=n):
            l2 = [other[k] for k in p2]
            for ind_ref in range(n):
                for thin in (True, False):
                    got = ctx.call('same', is_same_pdl, l1, l2, ind_ref, thin)
                    scope = range(ind_ref) if thin else range(n)
                    want = all(l1[k] is None or np.array_equal(l1[k], l2[k])
                               for k in scope)
                    ctx.require(bool(got) == want, 'same-layout',
                                f'{p1} {p2} ref {ind_ref} {thin}: {got}')
        ctx.state(n, p1)
        ctx.ok()


def components(tier):
    a = FnComponent('layout', cases_row, check_row)
    a.expect_outcomes = ('row-zero', 'row-positive')
    a.block = 1
    b = FnComponent('structure', cases_struct, check_struct)
    b.expect_outcomes = ('struct-zero', 'struct-positive')
    b.block = 1
    return [a, b, FnComponent('same-layout', cases_same, check_same)]
