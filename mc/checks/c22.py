"""C22: the helper functions do what they say."""
import contextlib
import copy
import io
import itertools
import re
import numpy as np
from mc import core
from mc.core import FnComponent

ASSUMPTIONS = [
    'sorting: the list that gives the order names each item once',
    'subset sums: values sorted in ascending order for the functions that '
    'ask for it, positive weights for the table',
    'printing: the numbers on the terminal, in order; spaces, commas, colours '
    'and line lengths are free',
]


# ------------------------------------------------------------------ sorting
def cases_sort(tier):
    top, n = (4, 5) if tier == 'quick' else (5, 6)
    for k in range(n + 1):
        for items in itertools.combinations_with_replacement(range(top), k):
            yield [list(items), top]


def check_sort(case, ctx):
    from src.divers.sorting import sortAccording
    items, top = case
    for given in set(itertools.permutations(items)):
        for k in range(4):
            for order in itertools.permutations(range(top + 1), k):
                here = list(given)
                there = list(order)
                ctx.state(given, order)
                ctx.call('sorted', sortAccording, here, there)
                ctx.ok()
                want = [x for o in order for x in items if x == o]
                want += sorted(x for x in items if x not in order)
                ctx.require(here == want and there == list(order), 'sorted',
                            lambda: f'{given} by {order}: {here}')


# ------------------------------------------------------------------- maxima
def cases_max(tier):
    n = 3 if tier == 'quick' else 4
    sides = [['scalar', v] for v in (-1, 0, 2.5, 3)]
    for k in range(1, n + 1):
        sides += [['array', list(v)]
                  for v in itertools.product((-1., 0., 2.5), repeat=k)]
    for a in sides:
        yield [a, sides]


def check_max(case, ctx):
    from src.divers.arrays import max_arrays
    (kind, v), sides = case

    def build(kind, v):
        return v if kind == 'scalar' else np.array(v)
    for other, w in sides:
        a, b = build(kind, v), build(other, w)
        pa, pb = copy.deepcopy(a), copy.deepcopy(b)
        la = [v] if kind == 'scalar' else v
        lb = [w] if other == 'scalar' else w
        ctx.state(kind, v, other, w)
        got, exc = ctx.attempt(max_arrays, a, b)
        ctx.ok()
        if len(la) > 1 and len(lb) > 1 and len(la) != len(lb):
            ctx.outcome('refused')
            ctx.require(isinstance(exc, ValueError), 'refused',
                        f'{la}, {lb}: {got}, {exc!r}')
            continue
        ctx.outcome('maxima')
        n = max(len(la), len(lb))
        want = [max(x, y) for x, y in zip(la*(n//len(la)), lb*(n//len(lb)))]
        ctx.require(exc is None and list(got) == want, 'maxima',
                    lambda: f'{la}, {lb}: {got}, {exc!r}')
        ctx.require(np.array_equal(a, pa) and np.array_equal(b, pb),
                    'arguments-kept', f'{la}, {lb}')


# -------------------------------------------------------------- subset sums
def cases_subset(tier):
    n, top = (5, 5) if tier == 'quick' else (7, 6)
    for k in range(1, n + 1):
        for w in itertools.combinations_with_replacement(range(1, top + 1), k):
            yield [list(w)]


def subsets(n):
    return list(itertools.product((0, 1), repeat=n))


def check_subset(case, ctx):
    from src.divers import subset_sum as mod
    w, = case
    n, arr = len(w), np.array(w)
    every = subsets(n)
    t, rank = [False]*n, -1
    seen = []
    for _ in range(len(every) + 1):
        t, rank = ctx.call('next', mod.subset_next, n, t, rank)
        if rank == -1:
            break
        seen.append((rank, tuple(int(v) for v in t)))
    ctx.require(seen == list(enumerate(every)) and rank == -1, 'all-subsets',
                f'{n}: {seen}')
    for total in range(sum(w) + 2):
        ctx.state(w, total)
        good = [u for u in every if sum(a*b for a, b in zip(u, w)) == total]
        ctx.outcome('solutions' if good else 'none')
        count = ctx.call('count', mod.subset_sum_count, n, arr, total)
        ctx.require(count == len(good), 'count', f'{w} {total}: {count}')
        got = ctx.call('find', mod.subset_sum_find, n, arr, total)
        u = tuple(int(v) for v in got)
        ctx.require(u in good if good else not any(u), 'find',
                    f'{w} {total}: {u}')
        if total:
            more, u, t = False, np.zeros(n), 0
            found = []
            for _ in range(len(every) + 1):
                more, u, t = ctx.call('each', mod.subset_sum_next, total, n,
                                      arr, more, u, t)
                if not more:
                    break
                found.append(tuple(int(v) for v in u))
            # of equal values, it takes the first ones that lead to the sum
            names = [{tuple(a for a, b in zip(w, u) if b) for u in us}
                     for us in (found, good)]
            ctx.require(not more and set(found) <= set(good)
                        and len(set(found)) == len(found)
                        and names[0] == names[1], 'each',
                        f'{w} {total}: {found}')
        table = ctx.call('table', mod.subset_sum_table, total, n, arr)
        ok = len(table) == total + 1
        for i in range(1, total + 1):
            can = any(sum(a*b for a, b in zip(u, w)) == i for u in every)
            ok = ok and (table[i] in w) == can and (can or table[i] == 0)
        ctx.require(ok, 'table', f'{w} {total}: {table}')
        m, items = ctx.call('list', mod.subset_sum_table_to_list, total, table)
        items = [int(v) for v in items]
        fine = m == len(items)
        if good:
            fine = fine and sum(items) == total and all(
                items.count(v) <= w.count(v) for v in items)
        else:
            fine = fine and not items
        ctx.require(fine, 'list', f'{w} {total}: {m} {items}')
        ctx.ok()


def cases_backup(tier):
    for n in range(1, 6 if tier == 'quick' else 9):
        for u in subsets(n):
            yield [list(u)]


def check_backup(case, ctx):
    from src.divers.subset_sum import backup_one
    u, = case
    for told in range(len(u) + 1):
        ctx.state(u, told)
        got = ctx.call('last', backup_one, len(u), np.array(u), told)
        ctx.ok()
        want = max([i for i in range(told) if u[i] == 1], default=-1)
        ctx.require(got == want, 'last', f'{u} {told}: {got}')


# ----------------------------------------------------------------- printing
NUMBER = re.compile(r'-?\d+(?:\.\d+)?')


def shown(func, *args):
    screen = io.StringIO()
    with contextlib.redirect_stdout(screen):
        func(*args)
    text = re.sub(r'\x1b\[[0-9;]*m', '', screen.getvalue())
    return [line for line in text.split('\n')], text


def floats(values):
    out = [f'{v:.5f}' for v in values]
    return ['0.00000' if v == '-0.00000' else v for v in out]


def plain(words):
    return ['0.00000' if w == '-0.00000' else w for w in words]


def cases_print(tier):
    n = 5 if tier == 'quick' else 7
    for k in range(n + 1):
        for ss in itertools.product((0, -45, 90), repeat=k):
            yield ['ss', list(ss)]
    for k in range(13):
        for v in (-1., 0., .123456, 1e-7, 1.):
            for w in (None, 0., -.5, .987654):
                yield ['lampam', k, v, w]


def check_print(case, ctx):
    from src.divers import pretty_print as mod
    ctx.state(case)
    if case[0] == 'ss':
        ss = np.array(case[1], int)
        for per in (1, 2, 3, 200):
            for name, arg, want in (
                    ('print_ss', ss, [str(v) for v in case[1]]),
                    ('print_list', [float(v)/7 for v in case[1]],
                     floats(v/7 for v in case[1])),
                    ('print_list', np.array(case[1])/7,
                     floats(v/7 for v in case[1])),
                    ('print_list_ss', [ss, ss[::-1]],
                     [str(v) for v in case[1] + case[1][::-1]]),
                    ('print_list_ss', np.array([ss, ss[::-1]]),
                     [str(v) for v in case[1] + case[1][::-1]])):
                kept = copy.deepcopy(arg)
                lines, text = ctx.call(name, shown, getattr(mod, name), arg,
                                       per)
                ctx.ok()
                got = plain(NUMBER.findall(text))
                ctx.require(got == want, 'numbers', lambda: f'{name} '
                            f'{case[1]} {per} per line: {text!r}')
                ctx.require(np.array_equal(arg, kept), 'arguments-kept', name)
        return
    _, k, v, w = case
    one = np.arange(12)/13 - .4
    if k:
        one[k - 1] = v
    two = None if w is None else np.roll(one, 5)*-.5
    if two is not None and k:
        two[k - 1] = w
    for diff in ((False,) if two is None else (False, True)):
        for shape in ((12,), (12, 1)):
            if diff and shape != (12,):
                continue
            args = [one.reshape(shape)] + (
                [] if two is None else [two.reshape(shape), diff])
            lines, text = ctx.call('print_lampam', shown, mod.print_lampam,
                                   *args)
            ctx.ok()
            rows = [plain(NUMBER.findall(r.split(':', 1)[1]))
                    for r in lines if ':' in r]
            tags = [NUMBER.findall(r.split(':', 1)[0]) for r in lines
                    if ':' in r]
            want = [[x] for x in floats(one)]
            if two is not None:
                want = [a + [b] for a, b in zip(want, floats(two))]
            if diff:
                want = [a + [b] for a, b in zip(want, floats(two - one))]
            ctx.require(rows == want and tags == [[str(i + 1)]
                                                  for i in range(12)],
                        'numbers', lambda: f'{case} {diff}: {text!r}')


def components(tier):
    most = FnComponent('maxima', cases_max, check_max)
    most.expect_outcomes = ('maxima', 'refused')
    sub = FnComponent('subset-sums', cases_subset, check_subset)
    sub.expect_outcomes = ('solutions', 'none')
    return [sub, most, FnComponent('sort', cases_sort, check_sort),
            FnComponent('last-one', cases_backup, check_backup),
            FnComponent('print', cases_print, check_print)]
