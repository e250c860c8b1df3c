"""Builds small multi-panel problems with the real classes of the repository."""
import numpy as np
from mc import ref


def constraints(**kw):
    from src.BELLA.constraints import Constraints
    if 'set_of_angles' in kw:
        kw['set_of_angles'] = np.array(kw['set_of_angles'], int)
    return Constraints(**kw)


def chain(n):
    "neighbour lists of n panels in a row, IDs 1..n"
    return {i + 1: [j for j in (i, i + 2) if 1 <= j <= n] for i in range(n)}


def multipanel(n_plies, cons, targets=None, weightings=None, lampam_w=None,
               neighbours=None, boundary_weights=None, ids=None, areas=None,
               **kw):
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    n = len(n_plies)
    ids = ids or list(range(1, n + 1))
    neighbours = neighbours or {ids[i]: [ids[j] for j in (i - 1, i + 1)
                                         if 0 <= j < n] for i in range(n)}
    panels = []
    for i in range(n):
        if lampam_w is None:
            lw = np.ones(12)
        elif np.ndim(lampam_w) == 2:
            lw = np.array(lampam_w[i], float)
        else:
            lw = np.array(lampam_w, float)
        lt = (np.zeros(12) if targets is None
              else np.array(targets[i], float))
        panels.append(Panel(
            ID=ids[i], constraints=cons, n_plies=n_plies[i],
            lampam_target=lt, lampam_weightings=lw,
            area=(areas[i] if areas else 1),
            weighting=(weightings[i] if weightings else 1),
            neighbour_panels=neighbours[ids[i]], **kw))
    return MultiPanel(panels, boundary_weights)


def obj_function(cons, **kw):
    from src.BELLA.obj_function import ObjFunction
    return ObjFunction(constraints=cons, **kw)


def parameters(cons, **kw):
    from src.BELLA.parameters import Parameters
    return Parameters(constraints=cons, **kw)


def material(**kw):
    from src.BELLA.materials import Material
    base = dict(E11=141e9, E22=9.03e9, G12=4.27e9, nu12=0.32,
                density_area=300.5, ply_t=0.000191)
    base.update(kw)
    return Material(**base)
