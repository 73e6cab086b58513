"""View factor matrices: conservation laws, on every state."""
import numpy as np
from mc import events, impl, space
from mc.core import Result

ID = 'P03'
TITLE = 'View factor matrices obey the conservation laws'
RULE = ('all arrays of the alphabet x all orientations x all sun positions; '
        'each matrix is checked for bounds, closure, reciprocity, surfaces '
        'that cannot see each other, and surfaces that are absent')
ASSUMPTIONS = ['sun above the horizon']
TOL = 1e-7


def cases(tier):
    cs = space.configs(tier)
    return cs + [dict(c, near=tier) for c in cs if c['n_pvrows'] < 6] + [
        dict(space.cfg(3, g, 1.5, 2., 0., {1: {'front': 2, 'back': 3}}),
             near='grazing') for g in (.3, .6, .9, .97)] + [
        space.cfg(8, 0.5, 2., 2., 0., {3: {'front': 2, 'back': 2}})]


def run_case(c):
    from pvfactors.viewfactors import VFCalculator
    res = Result()
    c = dict(c, cut=space.key_int(c['cut']))
    near = c.pop('near', None)
    states = space.grazing_states(c) if near == 'grazing' else \
        events.near_states(c, near) if near else \
        space.geo_states(c, 'thorough' if c['n_pvrows'] < 4 else 'quick')
    states = [s for s in states if not space.near_edge(c, s)]
    for b in range(0, len(states), 600):
        batch(res, c, states[b:b + 600], VFCalculator())
    return res


def batch(res, c, states, calc):
    n = len(states)
    pa = impl.pvarray(c, states)
    A = impl.Arrays(pa, n)
    F = calc.build_ts_vf_matrix(pa)
    S = len(A.meta)
    if F.shape != (S + 1, S + 1, n):
        res.problem('shape of the matrix', got=F.shape, want=(S + 1, S + 1, n))
        return
    L = np.zeros((S, n))
    L[A.index] = A.length
    kind = [None] * S
    for m in A.meta:
        kind[m[5].index] = m
    present = L > 1e-7
    solid = L > 1e-4         # long enough for 1e-7 after division by length

    def bad(mask, what, **kw):
        mask = np.asarray(mask)
        if mask.any():
            where = tuple(int(v[0]) for v in np.nonzero(mask))
            res.problem(what, at=where, state=states[where[-1]], config=c, **kw)

    bad(~np.isfinite(F), 'a view factor is not a number')
    tol = TOL + 1e-9 / np.maximum(L, 1e-4)            # (S, n)
    ok3 = solid[:, None, :]
    Fr = F[:S]
    bad(ok3 & (Fr < -tol[:, None, :]), 'negative view factor')
    bad(ok3 & (Fr > 1 + tol[:, None, :]), 'view factor above 1')
    total = Fr.sum(axis=1)
    bad(solid & (np.abs(total - 1) > 5 * tol),
        'view factors from a surface do not add up to 1')
    # reciprocity in terms of exchanged power per unit length
    P = L[:, None, :] * Fr[:, :S]
    bad(np.abs(P - P.transpose(1, 0, 2)) > 1e-7, 'reciprocity')
    # a surface does not see itself or its own plane
    gnd = np.array([m[0] == 'gnd' for m in kind])
    row = np.array([-1 if m[1] is None else m[1] for m in kind])
    front = np.array([m[2] == 'front' for m in kind])
    same_plane = (gnd[:, None] & gnd[None, :]) | (
        (row[:, None] == row[None, :]) & ~gnd[:, None] & ~gnd[None, :])
    same_side = (front[:, None] == front[None, :]) & ~gnd[:, None] \
        & ~gnd[None, :]
    bad((same_plane | same_side)[:, :, None] & ok3 & (np.abs(Fr[:, :S]) > 1e-9),
        'coplanar surfaces, or sides that look the same way, see each other')
    far = (~gnd[:, None] & ~gnd[None, :] &
           (np.abs(row[:, None] - row[None, :]) > 1))
    bad(far[:, :, None] & ok3 & (np.abs(Fr[:, :S]) > 1e-9),
        'PV rows that are not neighbors see each other')
    # nothing sees a surface that is absent, which sees nothing
    absent = ~present & (L < 1e-9)
    bad(absent[None, :, :] & ok3 & (np.abs(Fr[:, :S]) > 1e-6),
        'an absent surface is seen')
    bad(np.abs(F[S]) > 0, 'the sky row is not zero')
    res.outcome('absent surfaces', int(absent.sum()))
    res.outcome('view factors > 0', int((Fr > 1e-9).sum()))
    res.outcome('view factors = 0', int((np.abs(Fr) <= 1e-9).sum()))
    for s in states:
        res.state(c, s)
    res.transitions += n
    res.traces += n
