"""Reference definitions of the lay-up guidelines, written from their
statement (README / docstrings), independent of BELLA's code."""
import itertools
from fractions import Fraction
import numpy as np

A4 = (0, 45, 90, -45)
A6 = (0, 30, -30, 45, -45, 90)
A8 = (0, 30, -30, 45, -45, 60, -60, 90)


def ang_dist(a, b):
    d = abs(a - b) % 180
    return min(d, 180 - d)


def diso_pairs(stack, delta):
    "indices i such that plies i, i+1 break the disorientation rule"
    return [i for i in range(len(stack) - 1)
            if ang_dist(stack[i], stack[i + 1]) > delta]


def contig_windows(stack, n_contig):
    "indices i such that plies i..i+n_contig all share one orientation"
    return [i for i in range(len(stack) - n_contig)
            if len(set(stack[i:i + n_contig + 1])) == 1]


def longest_run(stack):
    return max((len(list(g)) for _, g in itertools.groupby(stack)), default=0)


def dam_tol_ok(stack, rule):
    s = list(stack)
    if rule not in (1, 2, 3):
        return True
    if rule == 1:
        return abs(s[0]) == 45 and abs(s[-1]) == 45
    outer = [abs(s[i]) == 45 for i in (0, 1, -1, -2)]
    if rule == 3:
        return all(outer)
    return all(outer) and s[0] == -s[1] and s[-1] == -s[-2]


def balanced(stack):
    return all(list(stack).count(a) == list(stack).count(-a)
               for a in set(stack) if a not in (0, 90))


def trimmed(stack, dam_tol, rule):
    return list(stack)[1:-1] if dam_tol and rule in (2, 3) else list(stack)


def ten_ok(counts, n, pct, eq45=False, eq090=False):
    """counts: dict angle -> Fraction/int, pct: dict with keys 0, 45, 90, -45,
    '45' (combined), integers in percent"""
    c = {a: Fraction(counts.get(a, 0)) for a in (0, 45, 90, -45)}

    def short(k, p):
        return k*100 < Fraction(p)*n
    if eq090:
        if short(c[0] + c[90], Fraction(pct[0]) + Fraction(pct[90])):
            return False
    elif short(c[0], pct[0]) or short(c[90], pct[90]):
        return False
    if eq45:
        if short(c[45] + c[-45], Fraction(pct[45]) + Fraction(pct[-45])):
            return False
    elif short(c[45], pct[45]) or short(c[-45], pct[-45]):
        return False
    return not short(c[45] + c[-45], pct['45'])


def ten_penalty(counts, n, pct):
    "sum of the missing ply fractions"
    c = {a: Fraction(counts.get(a, 0))/n for a in (0, 45, 90, -45)}
    tot = Fraction(0)
    for a in (0, 45, 90, -45):
        tot += max(Fraction(0), Fraction(pct[a])/100 - c[a])
    tot += max(Fraction(0), Fraction(pct['45'])/100 - c[45] - c[-45])
    return tot


def abdalla_excess(p, lp1, lp2):
    "min of the two region inequalities (>= 0 inside)"
    k = 1 - 4*p
    return min(k*k + k*lp2 - 2*lp1*lp1, k - lp2)


def counts_of(stack):
    out = {}
    for a in stack:
        out[int(a)] = out.get(int(a), 0) + 1
    return out


def words(alphabet, nmin, nmax):
    for n in range(nmin, nmax + 1):
        yield from itertools.product(alphabet, repeat=n)


def compositions(total, parts):
    "all tuples of `parts` non-negative integers summing to total"
    if parts == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for rest in compositions(total - i, parts - 1):
            yield (i,) + rest


def lampam(stack):
    from mc.standin import lampam_of
    return lampam_of(stack)


def close(a, b, tol=1e-9):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))
