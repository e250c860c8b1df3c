"""C05: settings are validated and the tables derived from them are right."""
import itertools
import math
from fractions import Fraction
import numpy as np
from mc import ref, build
from mc.core import FnComponent

ASSUMPTIONS = [
    'a refused setting is one whose constructor raises',
    'lamination-parameter weightings keep at least one active component',
]


# ----------------------------------------------------------- fibre orientations
def cases_angles(tier):
    pool = ref.A8 if tier == 'quick' else ref.A8 + (15, -15)
    for r in range(1, len(pool) + 1):
        for sub in itertools.combinations(pool, r):
            yield list(sub)


def check_angles(case, ctx):
    from src.BELLA.constraints import Constraints
    from src.LAYLA_V02.constraints import Constraints as ConstraintsL
    sub = tuple(case)
    closed = all(a == 90 or -a in sub for a in sub)
    four = all(a in sub for a in (0, 45, 90, -45))
    for cls in (Constraints, ConstraintsL):
        for ten in (False, True):
            kw = dict(rule_10_percent=ten)
            for order in (sub, sub[::-1]):
                cons, exc = ctx.attempt(
                    cls, set_of_angles=np.array(order, int), **kw)
                want = closed and (four or not ten)
                ctx.state(order, ten)
                ctx.ok()
                ctx.outcome('angles-ok' if want else 'angles-refused')
                if not ctx.require((exc is None) == want, 'angle-set-accepted',
                                   f'{cls.__module__} {order} 10% {ten}: '
                                   f'{exc!r}'):
                    return
                if exc is not None:
                    continue
                check_tables(ctx, cons, sorted(sub), cls.__module__)
    if not closed:
        return
    for cls in (Constraints, ConstraintsL):
        for bad in (list(sub) + [sub[0]], list(sub) + [-90],
                    list(sub) + [95, -95], list(sub) + [180]):
            _, exc = ctx.attempt(cls, set_of_angles=np.array(bad, int))
            ctx.require(exc is not None, 'angle-set-refused',
                        f'{cls.__module__} accepts {bad}')


def check_tables(ctx, cons, angles, what):
    ctx.require(cons.set_of_angles.tolist() == angles
                and cons.n_set_of_angles == len(angles), 'angles-sorted',
                f'{what} {cons.set_of_angles}')
    for i, a in enumerate(angles):
        ctx.require(cons.angles_dict[i] == a and cons.ind_angles_dict[a] == i,
                    'angle-index', f'{what} {angles}: {a}')
        ref_cs = [math.cos(math.radians(2*a)), math.cos(math.radians(4*a)),
                  math.sin(math.radians(2*a)), math.sin(math.radians(4*a))]
        ctx.require(np.allclose(cons.cos_sin[i], ref_cs, atol=1e-12),
                    'angle-cos-sin', f'{what} {angles}: {a}')
    for name, a in (('index0', 0), ('index45', 45), ('index90', 90),
                    ('index135', -45)):
        if a in angles:
            ctx.require(getattr(cons, name) == angles.index(a),
                        'angle-index', f'{what} {angles}: {name}')
    if 90 in angles:
        ctx.require(cons.ind_angles_dict[-90] == angles.index(90),
                    'angle-index', f'{what} {angles}: -90')
    pos = sorted(set(abs(a) for a in angles))
    ctx.require(list(cons.pos_angles) == pos
                and cons.indices_pos_angles_dict
                == {a: i for i, a in enumerate(pos)}, 'positive-angles',
                f'{what} {angles}: {cons.pos_angles}')
    bal = [a for a in angles if 0 < a < 90]
    ctx.require(cons.angles_bal.tolist() == [
        [a, angles.index(a), angles.index(-a)] for a in bal]
                and cons.indices_bal == {a: i for i, a in enumerate(bal)},
                'balance-table', f'{what} {angles}: {cons.angles_bal}')
    ctx.require(cons.angles_10 == [0, 90, 45, -45] and cons.indices_10
                == {0: 0, 90: 1, 45: 2, -45: 3}, 'ten-table', what)


# ------------------------------------------------------------------ percentages
PCT = (0, 5, 10, 12.5)


def cases_pct(tier):
    for p0, p90, p45, p135 in itertools.product(PCT, repeat=4):
        yield [p0, p90, p45, p135]


def check_pct(case, ctx):
    from src.BELLA.constraints import Constraints
    from src.LAYLA_V02.constraints import Constraints as ConstraintsL
    p0, p90, p45, p135 = case
    for p4, ab in itertools.product((0, 10, 20, 25), (0, 10)):
        kw = dict(percent_0=p0, percent_90=p90, percent_45=p45,
                  percent_135=p135, percent_45_135=p4)
        for rule, abd, calc, comb in itertools.product((True, False),
                                                       repeat=4):
            cons = ctx.call('percent', Constraints, rule_10_percent=rule,
                            rule_10_Abdalla=abd, percent_Abdalla=ab,
                            calc_combine_45_135=calc, combine_45_135=comb,
                            **kw)
            if calc:
                combined = p45 <= p4/2 and p135 <= p4/2
            else:
                combined = comb
            on = rule and not abd
            want = [p0, p90, 0 if combined else p45, 0 if combined else p135,
                    p4 if combined else 0]
            want = [w/100 if on else 0 for w in want]
            got = [cons.percent_0, cons.percent_90, cons.percent_45,
                   cons.percent_135, cons.percent_45_135]
            ctx.state(case, p4, ab, rule, abd, calc, comb)
            ctx.ok()
            ctx.require(np.allclose(got, want, atol=1e-12), 'percentages',
                        f'{kw} {rule} {abd} {calc} {comb}: {got} / {want}')
            ctx.require(abs(cons.percent_tot - sum(want)) < 1e-12,
                        'percentage-total', f'{kw}: {cons.percent_tot}')
            ctx.require(abs(cons.percent_Abdalla
                            - (ab/100 if rule and abd else 0)) < 1e-12,
                        'percentages', f'Abdalla {ab} {rule} {abd}: '
                        f'{cons.percent_Abdalla}')
        for rule in (True, False):
            cons = ctx.call('percent', ConstraintsL, rule_10_percent=rule,
                            **kw)
            want = [p0, p90, p45, p135, max(p4, p45 + p135)]
            want = [w/100 if rule else 0 for w in want]
            got = [cons.percent_0, cons.percent_90, cons.percent_45,
                   cons.percent_135, cons.percent_45_135]
            ctx.require(np.allclose(got, want, atol=1e-12)
                        and abs(cons.percent_tot - want[0] - want[1]
                                - want[4]) < 1e-12, 'percentages-LAYLA',
                        f'{kw} {rule}: {got} / {want}')
            ctx.ok()


# ---------------------------------------------------------- rule definitions
def cases_rules(tier):
    for dt in (True, False):
        for rule in (1, 2, 3, 0, 4, '1', 1.5):
            for cov in (True, False):
                for nc in (0, 1, 2, 3, -1):
                    yield [dt, rule, cov, nc]


def check_rules(case, ctx):
    from src.BELLA.constraints import Constraints
    dt, rule, cov, nc = case
    ok = (not dt or rule in (1, 2, 3)) and nc in (0, 1, 2)
    cons, exc = ctx.attempt(Constraints, dam_tol=dt, dam_tol_rule=rule,
                            covering=cov, n_covering=nc)
    ctx.state(case)
    ctx.ok()
    ctx.outcome('rule-ok' if ok else 'rule-refused')
    if not ctx.require((exc is None) == ok, 'rule-accepted',
                       f'{case}: {exc!r}') or exc is not None:
        return
    ctx.require(cons.dam_tol == dt
                and cons.dam_tol_rule == (rule if dt else 0), 'dam-tol-rule',
                f'{case}: {cons.dam_tol_rule}')
    want = cov or dt
    ctx.require(cons.covering == want, 'covering', f'{case}')
    if want:
        n = max(nc, 1, (1 if rule == 1 else 2) if dt else 0)
        ctx.require(cons.n_covering == n, 'covering-plies',
                    f'{case}: {cons.n_covering}')


BOOLS_B = ('sym', 'bal', 'oopo', 'dam_tol', 'rule_10_percent',
           'rule_10_Abdalla', 'diso', 'contig', 'pdl_spacing', 'covering')
BOOLS_L = ('sym', 'bal', 'ipo', 'oopo', 'dam_tol', 'rule_10_percent', 'diso',
           'contig')


def cases_flags(tier):
    for lib in ('BELLA', 'LAYLA'):
        for name in BOOLS_B if lib == 'BELLA' else BOOLS_L:
            for val in (True, False, 0, 1, 'True', None, 1.0):
                yield [lib, 'flag', name, val]
        for name in ('percent_0', 'percent_45', 'percent_90', 'percent_135',
                     'percent_45_135') + (('percent_Abdalla',)
                                          if lib == 'BELLA' else ()):
            for val in (0, 10, 24.5, 100, 100.5, -1, '10', None):
                yield [lib, 'pct', name, val]
        for name in ('n_contig', 'delta_angle'):
            for val in (1, 2, 3, 4, 5, 6, 30, 45, 60, 90):
                for on in (True, False):
                    yield [lib, name, val, on]
    for val in (1, 2, 5, 0, -1, 2.0, '1', None):
        yield ['BELLA', 'drop', 'min_drop', val]


def check_flags(case, ctx):
    if case[0] == 'BELLA':
        from src.BELLA.constraints import Constraints
    else:
        from src.LAYLA_V02.constraints import Constraints
    _, kind, name, val = case
    ctx.state(case)
    ctx.ok()
    if kind == 'flag':
        kw = {name: val}
        if name == 'contig':
            kw['n_contig'] = 4
        cons, exc = ctx.attempt(Constraints, **kw)
        ctx.require((exc is None) == isinstance(val, bool), 'flag-accepted',
                    f'{case}: {exc!r}')
        if exc is None:
            ctx.require(getattr(cons, name) is val, 'flag-kept', f'{case}')
            if case[0] == 'BELLA':
                ctx.require(cons.ipo == cons.bal, 'flag-kept', f'{case} ipo')
            elif name == 'bal' and val:
                ctx.require(cons.ipo, 'flag-kept', 'balance without ipo')
    elif kind == 'pct':
        top = 24.99 if name == 'percent_Abdalla' else 100
        cons, exc = ctx.attempt(Constraints, rule_10_percent=True,
                                **{name: val})
        ok = isinstance(val, (int, float)) and 0 <= val <= top
        ctx.require((exc is None) == ok, 'percentage-accepted',
                    f'{case}: {exc!r}')
    elif kind == 'n_contig':
        cons, exc = ctx.attempt(Constraints, contig=val, n_contig=name)\
            if isinstance(val, bool) else (None, None)
        ctx.require((exc is None) == (not val or name > 1),
                    'contiguity-limit', f'{case}: {exc!r}')
        if exc is None:
            ctx.require(cons.n_contig == (name if val else 1)
                        and cons.n_contig_c == (name if val else 1e10),
                        'contiguity-limit', f'{case}: {cons.n_contig} '
                        f'{cons.n_contig_c}')
    elif kind == 'delta_angle':
        cons = ctx.call('delta', Constraints, diso=val, delta_angle=name)
        ctx.require(cons.delta_angle == (name if val else 180),
                    'disorientation-limit', f'{case}: {cons.delta_angle}')
    else:
        cons, exc = ctx.attempt(Constraints, min_drop=val)
        ctx.require((exc is None) == (isinstance(val, int) and val >= 1),
                    'spacing-limit', f'{case}: {exc!r}')
        if exc is None:
            ctx.require(cons.min_drop == val, 'spacing-limit', f'{case}')


# ------------------------------------------------------------------- parameters
POS = ('global_node_limit', 'local_node_limit', 'local_node_limit_final',
       'global_node_limit_final', 'global_node_limit2', 'local_node_limit2',
       'global_node_limit3', 'local_node_limit3', 'n_ini_ply_drops')
POS_L = ('global_node_limit', 'global_node_limit_p', 'local_node_limit',
         'local_node_limit_final', 'n_outer_step')


def cases_param(tier):
    for lib in ('BELLA', 'LAYLA'):
        for name in POS if lib == 'BELLA' else POS_L:
            for val in (1, 2, 7, 1000, 0, -1, 2.0, '3', None):
                yield [lib, 'pos', name, val]
        for name in ('n_D1', 'n_D2', 'n_D3'):
            for val in (1, 2, 6, 2.0, '3', None):
                yield [lib, 'int', name, val]
        for name in ('repair_membrane_switch', 'repair_flexural_switch'):
            for val in (True, False, 0, 1, 'a', None):
                yield [lib, 'bool', name, val]
        for val in (0, 50, 99.5, 100, 100.5, -1, 'a', None):
            yield [lib, 'pct', 'p_A', val]
        for lo in (1, 2, 4, 6, 0, -1, 4.0):
            for hi in (1, 3, 4, 6, 12, 0):
                yield [lib, 'group', lo, hi]
    for val in (1, 20.5, 1000, '20', None):
        yield ['BELLA', 'num', 'n_plies_ref_panel', val]


def check_param(case, ctx):
    lib, kind, name, val = case
    if lib == 'BELLA':
        from src.BELLA.constraints import Constraints
        from src.BELLA.parameters import Parameters
    else:
        from src.LAYLA_V02.constraints import Constraints
        from src.LAYLA_V02.parameters import Parameters
    cons = Constraints(sym=True)
    ctx.state(case)
    ctx.ok()
    if kind == 'group':
        par, exc = ctx.attempt(Parameters, constraints=cons,
                               group_size_min=name, group_size_max=val)
        ok = isinstance(name, int) and name >= 1 and val >= name
        ctx.require((exc is None) == ok, 'group-sizes', f'{case}: {exc!r}')
        if exc is None:
            ctx.require(int(par.group_size_min) == name
                        and np.all(np.array(par.group_size_max) == val),
                        'group-sizes', f'{case}: {par.group_size_min} '
                        f'{par.group_size_max}')
        ctx.outcome('param-ok' if ok else 'param-refused')
        return
    kw = {name: val}
    if name == 'n_outer_step' and isinstance(val, int) and val > 0:
        kw['group_size_max'] = 8
    par, exc = ctx.attempt(Parameters, constraints=cons, **kw)
    ok = {'pos': isinstance(val, int) and val >= 1,
          'int': isinstance(val, int),
          'bool': isinstance(val, bool),
          'num': isinstance(val, (int, float)),
          'pct': isinstance(val, (int, float)) and 0 <= val <= 100}[kind]
    ctx.outcome('param-ok' if ok else 'param-refused')
    ctx.require((exc is None) == ok, 'parameter-accepted', f'{case}: {exc!r}')
    if exc is None:
        ctx.require(getattr(par, name) == val, 'parameter-kept',
                    f'{case}: {getattr(par, name)}')


COEFFS = (('coeff_10', 'rule_10_percent'), ('coeff_bal_ipo', 'bal'),
          ('coeff_oopo', 'oopo'), ('coeff_contig', 'contig'),
          ('coeff_diso', 'diso'), ('coeff_spacing', 'pdl_spacing'))


def cases_obj(tier):
    for name, flag in COEFFS:
        for on in (True, False):
            for val in (0, 1, 2.5, -1, -0.1):
                yield [name, flag, on, val]
    for val in (1, 3, 0, -1, 1.0, '1'):
        yield ['n_modes', None, True, val]


def check_obj(case, ctx):
    from src.BELLA.constraints import Constraints
    from src.BELLA.obj_function import ObjFunction
    name, flag, on, val = case
    ctx.state(case)
    ctx.ok()
    kw = {flag: on} if flag else {}
    if flag == 'contig':
        kw['n_contig'] = 4
    cons = Constraints(**kw)
    obj, exc = ctx.attempt(ObjFunction, constraints=cons, **{name: val})
    if name == 'n_modes':
        ctx.require((exc is None) == (isinstance(val, int) and val >= 1),
                    'mode-number', f'{case}: {exc!r}')
        return
    if not on:
        ctx.require(exc is None and getattr(obj, name) == 0,
                    'coefficient-of-inactive-rule', f'{case}: {exc!r}')
        return
    ctx.require((exc is None) == (val >= 0), 'coefficient-accepted',
                f'{case}: {exc!r}')
    if exc is None:
        ctx.require(getattr(obj, name) == val, 'coefficient-kept',
                    f'{case}')


# --------------------------------------------------------------------- material
def cases_mat(tier):
    for lib in ('BELLA', 'LAYLA'):
        for e11, e22, g12, nu in itertools.product(
                (130e9, 10e9, 1, .5, 0, -1), (9e9, 130e9, 2, 1, .5, 0, -1),
                (4e9, 3, 1, .5, 0, -1), (0.3, 0, -0.2, 0.5, 1)):
            yield [lib, e11, e22, g12, nu]


def check_mat(case, ctx):
    if case[0] == 'BELLA':
        from src.BELLA.materials import Material
    else:
        from src.LAYLA_V02.materials import Material
    _, e11, e22, g12, nu = case
    ok = e11 > 0 and e22 > 0 and g12 > 0
    if ok and abs(1 - nu*nu*e22/e11) < 1e-9:
        return
    for dv, da, t in itertools.product((0, 1.5e6, 1), (0, 300.5, 100., 1),
                                       (0.0002, 0.1, 1, 2)):
        mat, exc = ctx.attempt(Material, E11=e11, E22=e22, G12=g12, nu12=nu,
                               density_volume=dv, density_area=da, ply_t=t)
        ctx.state(case, dv, da, t)
        ctx.ok()
        ctx.outcome('material-ok' if ok else 'material-refused')
        if not ctx.require((exc is None) == ok, 'moduli-positive',
                           f'{case}: {exc!r}') or not ok:
            return
        q = stiffness(e11, e22, g12, nu)
        ctx.require(np.allclose([mat.Q11, mat.Q22, mat.Q12, mat.Q66],
                                [q(0)[0, 0], q(0)[1, 1], q(0)[0, 1],
                                 q(0)[2, 2]], rtol=1e-9),
                    'ply-stiffness', f'{case}')
        # invariants: the stiffness of a rotated ply
        for ang in (0, 30, 45, -60, 90):
            c2, c4 = (math.cos(math.radians(k*ang)) for k in (2, 4))
            s2, s4 = (math.sin(math.radians(k*ang)) for k in (2, 4))
            got = np.array([
                [mat.U1 + mat.U2*c2 + mat.U3*c4, mat.U4 - mat.U3*c4,
                 mat.U2*s2/2 + mat.U3*s4],
                [0, mat.U1 - mat.U2*c2 + mat.U3*c4,
                 mat.U2*s2/2 - mat.U3*s4],
                [0, 0, mat.U5 - mat.U3*c4]])
            ctx.require(np.allclose(got, np.triu(q(ang)),
                                    atol=1e-9*max(e11, e22, g12)),
                        'material-invariants', f'{case} at {ang}')
        wa = da or (dv*t if dv else 300.5)
        wv = dv or wa/t
        ctx.require(np.allclose([mat.density_area, mat.density_volume],
                                [wa, wv], rtol=1e-12), 'densities',
                    f'{dv} {da} {t}: {mat.density_area} '
                    f'{mat.density_volume}')
        ctx.require(mat.ply_t == t and mat.E11 == e11 and mat.E22 == e22
                    and mat.G12 == g12 and mat.nu12 == nu
                    and abs(mat.nu21*e11 - nu*e22) < 1e-6*abs(e22),
                    'material-kept', f'{case}')
    for kw in (dict(ply_t=0), dict(ply_t=-1), dict(density_area=-1),
               dict(density_volume=-1), dict(E11='1'), dict(E22='1'),
               dict(G12='1'), dict(nu12='1'), dict(ply_t='1'),
               dict(density_area='1'), dict(density_volume='1'),
               dict(density_area=-.5), dict(density_volume=-.5)):
        base = dict(E11=e11, E22=e22, G12=g12, nu12=nu)
        base.update(kw)
        _, exc = ctx.attempt(Material, **base)
        ctx.require(exc is not None, 'material-refused', f'{base}')


def stiffness(e11, e22, g12, nu):
    "plane-stress stiffness of a ply rotated by tensor rotation"
    s = np.array([[1/e11, -nu/e11, 0], [-nu/e11, 1/e22, 0], [0, 0, 1/g12]])
    q = np.linalg.inv(s)

    def rotated(ang):
        c, n = math.cos(math.radians(ang)), math.sin(math.radians(ang))
        t = np.array([[c*c, n*n, 2*c*n], [n*n, c*c, -2*c*n],
                      [-c*n, c*n, c*c - n*n]])
        r = np.diag([1, 1, 2.])
        return np.linalg.inv(t) @ q @ r @ t @ np.linalg.inv(r)
    return rotated


# ----------------------------------------------------------------------- panels
PANEL_BAD = [
    dict(n_plies=0), dict(n_plies=-1), dict(n_plies=4.0), dict(n_plies='4'),
    dict(area=-1), dict(area='1'), dict(length_x=-1), dict(length_y=-1),
    dict(length_x='1'), dict(length_y='1'), dict(weighting=-1),
    dict(weighting='1'), dict(lampam_weightings=np.ones(11)),
    dict(lampam_weightings=np.ones(13)),
    dict(lampam_weightings=[1.]*12),
    dict(lampam_weightings=np.array([1.]*11 + [-1.])),
    dict(lampam_weightings=np.array([-0.5] + [1.]*11))]


def cases_panel(tier):
    for i in range(len(PANEL_BAD)):
        yield ['bad', i]
    tops = (0, 1, 3.)
    sets = [(0, 45, -45, 90), (0, 30, -30, 45, -45, 60, -60, 90)]
    for sym, bal, oopo in itertools.product((True, False), repeat=3):
        for k in range(2):
            for n in range(1, 6):
                yield ['ok', sym, bal, oopo, k, n]


def check_panel(case, ctx):
    from src.BELLA.panels import Panel
    if case[0] == 'bad':
        cons = build.constraints(sym=True)
        kw = dict(ID=1, constraints=cons, n_plies=4, area=1)
        kw.update(PANEL_BAD[case[1]])
        _, exc = ctx.attempt(Panel, **kw)
        ctx.state(case)
        ctx.ok()
        ctx.outcome('panel-refused')
        ctx.require(exc is not None, 'panel-refused',
                    f'{PANEL_BAD[case[1]]}')
        return
    _, sym, bal, oopo, k, n = case
    angles = [ref.A4, ref.A8][k]
    cons = build.constraints(sym=sym, bal=bal, oopo=oopo,
                             set_of_angles=angles)
    weights = [w for w in itertools.product((0, 1), repeat=6)]
    for w6 in weights:
        for dtype, scale in ((float, 1), (int, 1), (float, 0.25), (int, 3)):
            # A, D components from the enumeration, B components present
            lw = np.array(list(w6[:4]) + [1]*4 + list(w6[4:]) + [1, 1],
                          dtype)*scale
            lw = lw.astype(dtype)
            keep = [float(v) for v in lw]
            if sym:
                keep[4:8] = [0]*4
            if k == 0:
                keep[3] = keep[7] = keep[11] = 0
            if bal:
                keep[2] = keep[3] = 0
            if oopo:
                keep[10] = keep[11] = 0
            active = [v for v in keep if v]
            if not active:
                continue
            for coeff in (0, 0.5, 1, 4):
                obj = build.obj_function(cons, coeff_oopo=coeff)
                want = list(keep)
                mean = sum(active)/len(active)
                if oopo:
                    want[10] = mean*coeff
                    if k == 1:
                        want[11] = mean*coeff
                want = np.array(want)/sum(want)
                target = np.arange(1., 13)/20
                panel = ctx.call(
                    'panel', Panel, ID=3, constraints=cons, n_plies=n,
                    lampam_weightings=lw, lampam_target=target.copy(),
                    length_x=2, length_y=1.5, weighting=2)
                ini = lw.copy()
                ctx.call('weights', panel.filter_lampam_weightings, cons, obj)
                ctx.state(case, w6, str(dtype), scale, coeff)
                ctx.ok()
                ctx.outcome('panel-ok')
                ctx.require(np.allclose(panel.lampam_weightings, want,
                                        atol=1e-12),
                            'filtered-weightings',
                            f'{case} {lw.tolist()} coeff {coeff}: '
                            f'{panel.lampam_weightings.tolist()} / '
                            f'{want.tolist()}')
                ctx.require(np.allclose(panel.lampam_weightingsA, want[:4])
                            and np.allclose(panel.lampam_weightingsD,
                                            want[8:]), 'filtered-weightings',
                            f'{case} A/D parts')
                ctx.require(np.array_equal(ini, lw), 'weightings-unchanged',
                            f'{case}')
                ctx.call('targets', panel.filter_target_lampams, cons, obj)
                wt = target.copy()
                if sym:
                    wt[4:8] = 0
                if bal:
                    wt[2:4] = 0
                if oopo:
                    wt[10:12] = 0
                ctx.require(np.array_equal(panel.lampam_target, wt),
                            'filtered-targets',
                            f'{case}: {panel.lampam_target}')
                ctx.require(panel.area == 3. and panel.calc_weight(10)
                            == 30.*n and panel.n_plies == n,
                            'panel-weight', f'{case}')
                mid = (n + 1)//2 if sym and n % 2 else 0
                ctx.require(panel.middle_ply_index == mid
                            and panel.has_middle_ply == bool(mid),
                            'middle-ply', f'{case}')
                if dtype is int or scale != 1:
                    break


# ---------------------------------------------------------------- LAYLA weights
def cases_layla(tier):
    for sym, ipo, oopo, pen in itertools.product((True, False), repeat=4):
        for k in range(2):
            yield [sym, ipo, oopo, pen, k]


def check_layla(case, ctx):
    from src.LAYLA_V02.constraints import Constraints
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.targets import Targets
    sym, ipo, oopo, pen, k = case
    angles = [ref.A4, ref.A8][k]
    for bal in (True, False):
        if bal and not ipo:
            continue
        cons = Constraints(sym=sym, ipo=ipo, bal=bal, oopo=oopo,
                           set_of_angles=np.array(angles, int))
        target = np.arange(1., 13)/20
        targ = Targets(n_plies=8, lampam=target)
        ctx.call('targets', targ.filter_target_lampams, cons)
        wt = target.copy()
        if sym:
            wt[4:8] = 0
        if ipo:
            wt[2:4] = 0
        if oopo:
            wt[10:12] = 0
        ctx.require(np.array_equal(targ.lampam, wt), 'LAYLA-targets',
                    f'{case}: {targ.lampam}')
        ctx.require(np.array_equal(targ.lampam_initial, target)
                    and np.array_equal(target, np.arange(1., 13)/20),
                    'LAYLA-targets-unchanged', f'{case}')
        for bits in itertools.product((0, 1), repeat=6):
            sens = np.array([1., 2, 3, 1] + [1]*4 + [2, 1, 4, 1])
            used = np.array(list(bits[:4]) + [1]*4 + list(bits[4:]) + [1, 1],
                            float)
            eff = sens*used
            eff /= sum(eff)
            want = eff.copy()
            if sym:
                want[4:8] = 0
            if k == 0:
                want[[3, 7, 11]] = 0
            if ipo:
                want[2:4] = 0
            if oopo:
                want[10:12] = 0
            if not want.any():
                continue
            mean = np.average(want[want != 0])
            cb, co = 2, 0.5
            if ipo and pen:
                want[2] = mean*cb
                if k == 1:
                    want[3] = mean*cb
            if oopo:
                want[10] = mean*co
                if k == 1:
                    want[11] = mean*co
            want /= sum(want)
            par = ctx.call('parameters', Parameters, constraints=cons,
                           coeff_bal_ipo=cb, coeff_oopo=co,
                           penalty_ipo_switch=pen,
                           first_level_sensitivities=sens,
                           lampam_to_be_optimised=used)
            ctx.state(case, bits)
            ctx.ok()
            ctx.require(np.allclose(par.lampam_weightings_final, want,
                                    atol=1e-12), 'LAYLA-weightings',
                        f'{case} {bits}: {par.lampam_weightings_final} / '
                        f'{want}')
            ctx.require(np.allclose(par.lampam_weightings_ini, eff,
                                    atol=1e-12), 'LAYLA-weightings',
                        f'{case} {bits} initial')
            for part, sl in (('A', slice(0, 4)), ('D', slice(8, 12))):
                w = want[sl]
                got = getattr(par, 'weighting_final' + part)
                if not np.isclose(w, 0).all():
                    w = w/sum(w)
                ctx.require(np.allclose(got, w, atol=1e-12),
                            'LAYLA-weightings', f'{case} {bits} {part}')
    for bad in (dict(first_level_sensitivities=np.array([-1.] + [1]*11)),
                dict(lampam_to_be_optimised=np.array([2.] + [1]*11)),
                dict(lampam_to_be_optimised=np.zeros(12))):
        _, exc = ctx.attempt(Parameters, constraints=cons, **bad)
        ctx.require(exc is not None, 'LAYLA-parameter-refused', f'{bad}')


def components(tier):
    out = []
    for name, cases, check, expect in (
            ('angles', cases_angles, check_angles,
             ('angles-ok', 'angles-refused')),
            ('percentages', cases_pct, check_pct, ()),
            ('rules', cases_rules, check_rules, ('rule-ok', 'rule-refused')),
            ('flags', cases_flags, check_flags, ()),
            ('parameters', cases_param, check_param,
             ('param-ok', 'param-refused')),
            ('objective', cases_obj, check_obj, ()),
            ('material', cases_mat, check_mat,
             ('material-ok', 'material-refused')),
            ('panel', cases_panel, check_panel,
             ('panel-ok', 'panel-refused')),
            ('LAYLA-weightings', cases_layla, check_layla, ())):
        comp = FnComponent(name, cases, check)
        comp.expect_outcomes = expect
        out.append(comp)
    return out
