"""C11: objective functions and buckling factors follow their definitions."""
import itertools
import math
import types
import numpy as np
from mc import ref, build
from mc.core import FnComponent

ASSUMPTIONS = [
    'lamination parameters are those of classical lamination theory with '
    'plies of equal thickness (src.CLA is not shipped: mc/standin is the '
    'reference)',
    'where some panels have no objective yet, the others are given per-panel '
    'penalties, one common penalty (except balance and weight) or none',
]
TOL = 1e-9


def rel(a, b):
    return abs(a - b) <= TOL*max(1, abs(a), abs(b))


# ------------------------------------------------------------------ one panel
def cases_one(tier):
    top = 3 if tier == 'quick' else 4
    for k in range(0, top + 1):
        for where in itertools.combinations(range(12), k):
            yield list(where)


def check_one(case, ctx):
    """all lamination parameters that differ from their targets in the given
    components; all weights"""
    from src.BELLA.objectives import calc_obj_one_panel, calc_obj_each_panel
    from src.LAYLA_V02.objectives import objectives
    from src.LAYLA_V02.targets import Targets
    base = np.linspace(-.5, .5, 12)
    cons = types.SimpleNamespace()
    rows, want1, want2 = [], [], []
    for diff in itertools.product((-.5, .25, 1.), repeat=len(case)):
        lp = base.copy()
        lp[case] += diff
        for w in (np.ones(12), np.arange(12.), np.arange(12.)[::-1]/66):
            v2 = sum(w[i]*d*d for i, d in zip(case, diff))
            v1 = sum(w[i]*abs(d) for i, d in zip(case, diff))
            got = ctx.call('one-panel', calc_obj_one_panel, lampam=lp,
                           lampam_target=base, lampam_weightings=w)
            ctx.state(case, diff, w.tolist())
            ctx.ok()
            ctx.require(rel(got, v2), 'one-panel',
                        lambda: f'difference {diff} at {case}: {got} != {v2}')
            targ = Targets(n_plies=8, lampam=base)
            for t, v in ((1, v1), (2, v2)):
                par = types.SimpleNamespace(type_obj_func=t)
                got = ctx.call('LAYLA-objective', objectives, lp, targ, w,
                               cons, par)
                ctx.require(rel(got, v), 'LAYLA-objective',
                            lambda: f'type {t}, difference {diff} at {case}: '
                                    f'{got} != {v}')
        rows.append(lp)
        want1.append(sum(abs(d) for d in diff))
        want2.append(sum(d*d for d in diff))
    for t, want in ((1, want1), (2, want2)):
        par = types.SimpleNamespace(type_obj_func=t)
        got = ctx.call('LAYLA-objectives', objectives, np.array(rows),
                       Targets(n_plies=8, lampam=base), np.ones(12), cons, par)
        ctx.ok()
        ctx.require(np.allclose(got, want), 'LAYLA-objectives',
                    lambda: f'type {t} at {case}: {got} != {want}')


# ---------------------------------------------------------------- each panel
def cases_each(tier):
    counts = range(2, 8 if tier == 'quick' else 12, 2)
    for n in (1, 2, 3):
        for plies in itertools.product(counts, repeat=n):
            yield list(plies)


def check_each(case, ctx):
    from src.BELLA.objectives import calc_obj_each_panel
    cons = build.constraints(sym=True)
    # panels of equal thickness share their target
    targets = [[(7*p + j) % 5/5 - .4 for j in range(12)] for p in case]
    mp = build.multipanel(case, cons, targets=targets,
                          weightings=[1., 2., 4.][:len(case)])
    obj = build.obj_function(cons)
    mp.filter_target_lampams(cons, obj)
    mp.from_mp_to_blending_strip(cons)
    m = mp.reduced.n_panels
    thick = sorted(set(case))
    for k in range(4):
        lp = np.array([[((3 + k)*i + j*j) % 7/7 - .5 for j in range(12)]
                       for i in range(m)])
        w = np.array([[1 + ((1 + k)*i + j) % 3 for j in range(12)]
                      for i in range(m)], float)
        got = ctx.call('each-panel', calc_obj_each_panel, mp, lp, obj,
                       lampam_weightings=w)
        ctx.state(case, k)
        ctx.ok()
        for i, n in enumerate(thick):
            t = np.array(targets[case.index(n)])
            t[4:8] = 0
            if cons.bal:
                t[2:4] = 0
            if cons.oopo:
                t[10:12] = 0
            want = float(sum(w[i]*(lp[i] - t)**2))
            ctx.require(np.shape(got) == (m,) and rel(got[i], want),
                        'each-panel', lambda: f'{case}: {got}, panel of {n} '
                                              f'plies should have {want}')


# --------------------------------------------------------------- whole structure
NAMES = ('diso', 'contig', '10', 'bal_ipo', 'oopo', 'weight')


def cases_multi(tier):
    top = 3 if tier == 'quick' else 4
    for n in range(1, top + 1):
        for on in itertools.product((0, 1), repeat=6):
            yield [n, list(on)]


def check_multi(case, ctx):
    from src.BELLA.objectives import calc_obj_multi_panel
    n, on = case
    weights = np.array([1., 2., 4., 8.][:n])/3
    for obj in itertools.product((0., .5, 2.), repeat=n):
        for turn in range(2):
            kw = {}
            terms = [np.array(obj)*weights]
            for k, name in enumerate(NAMES):
                if not on[k]:
                    continue
                pen = np.array([((k + i*(turn + 1)) % 3)/2 for i in range(n)])
                if turn and k % 2:
                    pen = .5    # the same penalty for every panel
                coeff = (k + 2)/2
                kw['penalty_' + name] = pen
                kw['coeff_' + name] = coeff
                terms.append(np.ones(n)*(1 + coeff*pen))
            want = float(np.prod(terms, axis=0).sum())
            got = ctx.call('structure', calc_obj_multi_panel,
                           objective=np.array(obj),
                           actual_panel_weightings=weights, **kw)
            ctx.state(n, on, obj, turn)
            ctx.ok()
            ctx.require(rel(got, want), 'structure',
                        lambda: f'{obj} {kw}: {got} != {want}')


def cases_none(tier):
    top = 3 if tier == 'quick' else 4
    for n in range(2, top + 1):
        for known in itertools.product((0, 1), repeat=n):
            for how in itertools.product(range(4), repeat=6):
                # balance and weight always have a penalty per panel
                if how[NAMES.index('bal_ipo')] == 3 \
                or how[NAMES.index('weight')] == 3:
                    continue
                if sum(h != 0 for h in how) <= (2 if tier == 'quick' else 3):
                    yield [n, list(known), list(how)]


def check_none(case, ctx):
    from src.BELLA.objectives import calc_obj_multi_panel
    n, known, how = case
    weights = np.array([1., 2., 4., 8.][:n])/3
    obj = [(i + 1)/2 if known[i] else None for i in range(n)]
    kw = {}
    fac = np.ones(n)
    for k, name in enumerate(NAMES):
        pen = [((k + i) % 3)/2 for i in range(n)]
        coeff = (k + 2)/2
        kw['coeff_' + name] = coeff
        if how[k] == 0:
            kw['penalty_' + name] = None
            continue
        if how[k] == 3:
            # one penalty for all panels
            kw['penalty_' + name] = np.array(pen[-1:])
            fac = fac*(1 + coeff*pen[-1])
            continue
        fac = fac*(1 + coeff*np.array(pen))
        kw['penalty_' + name] = np.array(pen) if how[k] == 1 else [
            v if known[i] else None for i, v in enumerate(pen)]
    want = sum(weights[i]*obj[i]*fac[i] for i in range(n) if known[i])
    got = ctx.call('partial-structure', calc_obj_multi_panel, objective=obj,
                   actual_panel_weightings=weights, with_Nones=True, **kw)
    ctx.state(case)
    ctx.ok()
    ctx.require(rel(float(np.squeeze(got)), want), 'partial-structure',
                lambda: f'{obj} {kw}: {got} != {want}')


def cases_layla(tier):
    for n in (0, 1, 3):
        for on in itertools.product((0, 1), repeat=3):
            yield [n, list(on)]


def check_layla(case, ctx):
    "n = 0: one stack, otherwise an array of stacks"
    from src.LAYLA_V02.objectives import calc_obj_multi_ss
    n, on = case
    vals = (0., .5, 2.)
    names = ('10', 'bal_ipo', 'oopo')
    for vec in itertools.product(vals, repeat=4):
        for coeffs in itertools.product((0., 1., 3.), repeat=3):
            kw, want = {}, vec[0]
            for k, name in enumerate(names):
                if on[k]:
                    kw['penalty_' + name] = vec[k + 1]
                    kw['coeff_' + name] = coeffs[k]
                    want = want*(1 + coeffs[k]*vec[k + 1])
                elif coeffs[k]:
                    break
            else:
                arg = vec[0]
                if n:
                    arg = np.arange(1., n + 1)*arg
                    want = np.arange(1., n + 1)*want
                got = ctx.call('LAYLA-penalties', calc_obj_multi_ss, arg, **kw)
                ctx.state(case, vec, coeffs)
                ctx.ok()
                ctx.require(np.shape(got) == np.shape(want)
                            and np.allclose(got, want), 'LAYLA-penalties',
                            lambda: f'{arg} {kw}: {got} != {want}')


# ------------------------------------------------------------------- buckling
MATS = [dict(), dict(E11=130e9, E22=9e9, nu12=.3, G12=4e9, ply_t=.0002),
        dict(E11=70e9, E22=70e9, nu12=.3, G12=27e9, ply_t=.001)]
LOADS = [(1000., 0.), (0., 500.), (1000., 500.), (-300., 410.)]
SIZES = [(1., 1.), (.5, .3), (.2, 1.)]


def bending(ss, mat):
    "D11, D12, D22, D66 from the ply stiffnesses"
    nu21 = mat.nu12*mat.E22/mat.E11
    d = 1 - mat.nu12*nu21
    q11, q22, q12, q66 = (mat.E11/d, mat.E22/d, mat.nu12*mat.E22/d, mat.G12)
    n = len(ss)
    out = np.zeros(4)
    for k, a in enumerate(ss):
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        q = np.array([
            q11*c**4 + 2*(q12 + 2*q66)*s*s*c*c + q22*s**4,
            (q11 + q22 - 4*q66)*s*s*c*c + q12*(s**4 + c**4),
            q11*s**4 + 2*(q12 + 2*q66)*s*s*c*c + q22*c**4,
            (q11 + q22 - 2*q12 - 2*q66)*s*s*c*c + q66*(s**4 + c**4)])
        z1, z2 = (k - n/2)*mat.ply_t, (k + 1 - n/2)*mat.ply_t
        out += q*(z2**3 - z1**3)/3
    return out


def critical(d, n_x, n_y, lx, ly, modes):
    return min(
        math.pi**2*(d[0]*(m/lx)**4 + 2*(d[1] + 2*d[3])*(m/lx)**2*(n/ly)**2
                    + d[2]*(n/ly)**4)
        / (abs(n_x)*(m/lx)**2 + abs(n_y)*(n/ly)**2)
        for m in range(1, modes + 1) for n in range(1, modes + 1))


def cases_buck(tier):
    top = 3 if tier == 'quick' else 4
    for stack in ref.words(ref.A6, 1, top):
        yield list(stack)


def check_buck(case, ctx):
    from src.buckling.buckling import (buckling_factor, buckling_factor_ss,
                                       buckling_factor_m_n, buckling_margin)
    ss = case + case[::-1]
    lp = ref.lampam(ss)
    for im, kw in enumerate(MATS):
        mat = build.material(**kw)
        d = bending(ss, mat)
        for (n_x, n_y), (lx, ly), modes in itertools.product(
                LOADS, SIZES, (1, 2, 4)):
            a = dict(N_x=n_x, N_y=n_y, length_x=lx, length_y=ly)
            want = critical(d, n_x, n_y, lx, ly, modes)
            got = {
                'buckling-stack': ctx.call(
                    'buckling', buckling_factor_ss, np.array(ss), mat=mat,
                    n_modes=modes, **a),
                'buckling-lampams': ctx.call(
                    'buckling', buckling_factor, np.array(lp), mat, len(ss),
                    n_modes=modes, **a),
                'buckling-bending-lampams': ctx.call(
                    'buckling', buckling_factor, np.array(lp[8:12]), mat,
                    len(ss), n_modes=modes, **a)}
            if modes == 1:
                got['buckling-mode'] = ctx.call(
                    'buckling', buckling_factor_m_n, *d, **a)
            ctx.state(ss, im, n_x, n_y, lx, ly, modes)
            ctx.ok()
            for rule, v in got.items():
                ctx.require(abs(v - want) <= 1e-7*abs(want), rule,
                            lambda: f'{ss} material {im} {a} {modes} modes: '
                                    f'{v} != {want}')
            v = buckling_margin(want)
            ctx.require(rel(v, 100*want - 100), 'buckling-margin', str(v))


def components(tier):
    out = []
    for name, cases, check, block in (
            ('one-panel', cases_one, check_one, 4),
            ('each-panel', cases_each, check_each, 2),
            ('structure', cases_multi, check_multi, 4),
            ('partial-structure', cases_none, check_none, 50),
            ('LAYLA-penalties', cases_layla, check_layla, 1),
            ('buckling', cases_buck, check_buck, 4)):
        c = FnComponent(name, cases, check)
        c.block = block
        out.append(c)
    return out
