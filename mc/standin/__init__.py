"""Stand-in for the package src.CLA, which BELLA imports but which the
repository does not ship (classical lamination theory helpers).

Only the functions BELLA calls are provided, written from the textbook
definition of the twelve lamination parameters (Tsai & Hahn):

    LP_A[j] =      sum_k (z_k   - z_{k-1}  ) / 2 * f_j(theta_k)
    LP_B[j] =      sum_k (z_k^2 - z_{k-1}^2) / 2 * f_j(theta_k)
    LP_D[j] =      sum_k (z_k^3 - z_{k-1}^3) / 2 * f_j(theta_k)

with the plies spread over z in [-1, 1] and
f = (cos 2t, cos 4t, sin 2t, sin 4t).  They are cross-checked in the check
C10 (published-results) against the lamination parameters recorded in /repo/results.
"""
import sys
import types
import numpy as np


def _f(angle):
    t = np.deg2rad(float(angle))
    return np.array([np.cos(2*t), np.cos(4*t), np.sin(2*t), np.sin(4*t)])


def lampam_of(stack):
    "the 12 lamination parameters of one complete stack"
    n = len(stack)
    lp = np.zeros(12)
    for k, angle in enumerate(stack):
        bot, top = -1 + 2.0*k/n, -1 + 2.0*(k + 1)/n
        f = _f(angle)
        lp[0:4] += (top - bot)/2*f
        lp[4:8] += (top**2 - bot**2)/2*f
        lp[8:12] += (top**3 - bot**3)/2*f
    return lp


def calc_lampam_2(ss):
    return calc_lampam(ss)


def calc_lampam(ss, constraints=None):
    if isinstance(ss, list) and len(ss) and hasattr(ss[0], '__len__'):
        return np.array([lampam_of(s) for s in ss])
    if isinstance(ss, np.ndarray) and ss.ndim == 2:
        if ss.shape[0] == 1:
            return lampam_of(ss[0])
        return np.array([lampam_of(s) for s in ss])
    return lampam_of(ss)


def calc_lampamA(ss, constraints=None):
    return lampam_of(ss)[0:4]


def calc_lampamD(ss, constraints=None):
    return lampam_of(ss)[8:12]


def calc_lampam_from_delta_lp_matrix(stack, constraints, delta_lampams):
    lampam = np.zeros(12)
    for ind in range(delta_lampams.shape[0]):
        lampam += delta_lampams[
            ind, constraints.ind_angles_dict[int(stack[ind])]]
    return lampam


def _unused(*_, **__):
    raise NotImplementedError('src.CLA function not provided by the stand-in')


def _invariants(mat):
    return mat.U1, mat.U2, mat.U3, mat.U4, mat.U5


def _from_lp(lp, mat, coef, isotropic=True):
    U1, U2, U3, U4, U5 = _invariants(mat)
    if not isotropic:
        U1 = U4 = U5 = 0.
    m11 = U1 + U2*lp[0] + U3*lp[1]
    m12 = U4 - U3*lp[1]
    m22 = U1 - U2*lp[0] + U3*lp[1]
    m66 = U5 - U3*lp[1]
    m16 = U2*lp[2]/2 + U3*lp[3]
    m26 = U2*lp[2]/2 - U3*lp[3]
    return coef*np.array([[m11, m12, m16], [m12, m22, m26], [m16, m26, m66]])


def A_from_lampam(lampam, mat):
    return _from_lp(lampam[0:4], mat, 1.)


def B_from_lampam(lampam, mat):
    return _from_lp(lampam[4:8], mat, 1/4, isotropic=False)


def D_from_lampam(lampam, mat):
    return _from_lp(lampam[8:12], mat, 1/12)


def install():
    "registers the stand-in as src.CLA (unless the real package exists)"
    import importlib.util
    import src
    try:
        if importlib.util.find_spec('src.CLA') is not None:
            return False
    except ModuleNotFoundError:
        pass
    pkg = types.ModuleType('src.CLA')
    pkg.__path__ = []
    lf = types.ModuleType('src.CLA.lampam_functions')
    for name in ('calc_lampam', 'calc_lampam_2',
                 'calc_lampam_from_delta_lp_matrix'):
        setattr(lf, name, globals()[name])
    for name in ('calc_delta_lampam', 'calc_delta_lampam_mp_3',
                 'calc_delta_lampam_mp'):
        setattr(lf, name, _unused)
    lp2 = types.ModuleType('src.CLA.lp_functions_2')
    lp2.calc_lampamA = calc_lampamA
    lp2.calc_lampamD = calc_lampamD
    abd = types.ModuleType('src.CLA.ABD')
    abd.A_from_lampam = A_from_lampam
    abd.B_from_lampam = B_from_lampam
    abd.D_from_lampam = D_from_lampam
    for mod in (pkg, lf, lp2, abd):
        sys.modules[mod.__name__] = mod
    pkg.lampam_functions = lf
    pkg.lp_functions_2 = lp2
    pkg.ABD = abd
    src.CLA = pkg
    return True
