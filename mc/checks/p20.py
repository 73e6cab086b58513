"""Discretization refines a side without changing what it is made of."""
import numpy as np
from mc import impl, space
from mc.core import Result

ID = 'P20'
TITLE = 'Discretizing sides only refines results'
RULE = ('for every array shape: all discretization schemes against the one '
        'without discretization x all orientations x sun positions x both '
        'models: geometry, view factors between sides, direct and isotropic '
        'light, and everything in the fast mode but the horizon band add up to '
        'the undivided values; every number of segments of a ladder x widths '
        'of rows: equal parts from one end to the other')
ASSUMPTIONS = ['sun above the horizon and not in the plane of the rows']


def schemes(n, tier):
    out = list(space.cuts(n))[1:]
    out.append({i: {'front': 4, 'back': 4} for i in range(n)})
    out.append({0: {'back': 7}})
    if tier == 'thorough':
        for r in range(n):
            for f in (1, 2, 3):
                for b in (1, 2, 5):
                    out.append({r: {'front': f, 'back': b}})
    return out


def cases(tier):
    rows = (1, 2, 3, 5) if tier == 'thorough' else (1, 2, 3)
    shapes = space.SHAPES_T if tier == 'thorough' else space.SHAPES_Q
    out = []
    for n in rows:
        for i, (g, h, w) in enumerate(shapes):
            for j, cut in enumerate(schemes(n, tier)):
                out.append(dict(
                    c=space.cfg(n, g, h, w, space.AXES_Q[(i + j) % 4], {}),
                    cut=cut, kind=('perez', 'isotropic')[(i + j) % 2],
                    tier=tier))
    widths = (0.9, 1., 1.01, 1.7, 2., 2.4, 2.5, 3.3, 4.1)
    top = 130 if tier == 'thorough' else 64
    if tier == 'thorough':
        widths += (1.1, 1.3, 1.956, 2.1, 2.384, 2.7, 3.7, 4.04, 4.9)
    return out + [dict(width=w, sizes=[a, min(a + 16, top + 1)])
                  for w in widths for a in range(1, top + 1, 16)]


def run_sizes(res, case):
    """Every number of segments: equal parts, from one end to the other"""
    w = case['width']
    for k in range(*case['sizes']):
        cut = {0: {'front': k}, 1: {'back': k}}
        c = space.cfg(2, 0.6, 3.1, w, 37.5, cut)
        states = [dict(tilt=t, surf_az=37.5 + s, zen=z, az=37.5 + r)
                  for t, s in space.orientations('quick') if t < 90
                  for z, r in ((21., 74.), (71.3, 107.3), (84.5, 262.9))]
        n = len(states)
        pa = impl.pvarray(c, states)
        wl = impl.pvarray(dict(c, cut={}), states)
        for r, side in ((0, 'front'), (1, 'back')):
            sd = getattr(pa.ts_pvrows[r], side)
            one = getattr(wl.ts_pvrows[r], side)
            segs = sd.list_segments
            if len(segs) != k:
                res.problem('number of segments', want=k, got=len(segs),
                            width=w, side=side)
                continue
            if not np.abs(sd.shaded_length - one.shaded_length).max() < 1e-7:
                res.problem('shaded length of a side in segments', n=k,
                            width=w)
            full = one.list_segments[0].coords.as_array
            if not np.abs(sd.length - w).max() < 1e-7:
                res.problem('length of a side in segments', n=k, width=w)
            for i, s in enumerate(segs):
                at = s.coords.as_array
                p = full[0] + (full[1] - full[0]) * i / k
                q = full[0] + (full[1] - full[0]) * (i + 1) / k
                if s.index != i or not np.abs(s.length - w / k).max() < 1e-7:
                    res.problem('length or index of a segment', n=k, width=w)
                if not max(np.abs(at[0] - p).max(),
                           np.abs(at[1] - q).max()) < 1e-7:
                    res.problem('place of a segment', n=k, width=w, i=i)
        res.outcome('sizes', 1)
        res.transitions += n
        res.traces += 2 * n
        for s in states:
            res.state(k, w, sorted(s.items()))
    return res


def observe(c, kind, states):
    n = len(states)
    model = dict(kind=kind, module_transparency=0.15, rho_front=0.1,
                 rho_back=0.2)
    eng = impl.make_engine(c, model)
    impl.fit_engine(eng, states)
    eng.run_full_mode()
    pa = eng.pvarray
    F = pa.ts_vf_matrix
    # zones: every ground surface, every (row, side, lit or shaded), the sky
    zones, seg_spans = {}, {}
    for m in impl.surfaces(pa):
        kindm, row, side, shaded, seg, s = m
        key = ('g', s.index) if kindm == 'gnd' else (row, side, shaded)
        zones.setdefault(key, []).append(s)
    keys = sorted(zones, key=str)
    L = {k: sum(np.broadcast_to(s.length, n) for s in zones[k]) for k in keys}
    vf = np.zeros((len(keys), len(keys) + 1, n))
    for a, ka in enumerate(keys):
        for s in zones[ka]:
            ln = np.broadcast_to(s.length, n)
            for b, kb in enumerate(keys):
                vf[a, b] += ln * F[s.index, [x.index for x in zones[kb]]].sum(0)
            vf[a, -1] += ln * F[s.index, -1]
    light = {}
    for k in keys:
        for p in ('direct', 'isotropic'):
            light[k, p] = sum(np.where(
                np.broadcast_to(s.length, n) > 0, s.length
                * impl.param(s, p, n), 0.) for s in zones[k])
    # fast mode
    fast = {}
    for r in range(c['n_pvrows']):
        eng.run_fast_mode(pvrow_index=r)
        back = pa.ts_pvrows[r].back
        for p in ('isotropic', 'reflection', 'reflection_gnd_shaded',
                  'reflection_gnd_illum', 'reflection_pvrow_shaded',
                  'reflection_pvrow_illum'):
            fast[r, p] = np.broadcast_to(back.get_param_weighted(p), n)
        hor = 0. if kind == 'isotropic' else back.get_param_weighted('horizon')
        fast[r, 'qinc but horizon'] = back.get_param_weighted('qinc') - hor
    return keys, L, vf, light, fast


def run_case(case):
    res = Result()
    if 'sizes' in case:
        return run_sizes(res, case)
    c = case['c']
    cut = space.key_int(case['cut'])
    sun = space.suns(case['tier'])
    sun = sun[::4] if case['tier'] == 'quick' else sun[::2]
    states = space.rotate_sky([s for s in space.geo_states(
        c, 'quick', sun=sun) if not space.near_edge(c, s)])
    n = len(states)
    a = observe(c, case['kind'], states)
    b = observe(dict(c, cut=cut), case['kind'], states)
    if [k for k in a[0] if k[0] == 'g'] != [k for k in b[0] if k[0] == 'g']:
        res.problem('the discretization changes the ground')
        return res
    if a[0] != b[0]:
        res.problem('the discretization changes the sides')
        return res
    scale = 1. + np.array([s['dni'] + s['dhi'] for s in states])

    def check(what, x, y, tol):
        d = np.abs(x - y)
        if not (d <= tol).all():
            it = int(np.argmax(np.where(np.isnan(d), np.inf, d) - tol))
            res.problem('%s changes with the discretization' % what,
                        state=states[it], config=c, cut=cut, whole=x[it],
                        parts=y[it])
    for i, k in enumerate(a[0]):
        check('length of %s' % str(k), a[1][k], b[1][k], 1e-7)
        for j in range(a[2].shape[1]):
            to = 'sky' if j == len(a[0]) else str(a[0][j])
            check('view factor from %s to %s' % (k, to), a[2][i, j],
                  b[2][i, j], 1e-6)
        for p in ('direct', 'isotropic'):
            check('%s on %s' % (p, str(k)), a[3][k, p], b[3][k, p],
                  1e-6 * scale * 10)
    for k in a[4]:
        check('fast mode %s' % str(k), a[4][k], b[4][k], 1e-6 * scale * 10)
    res.outcome('refinements compared', n)
    for s in states:
        res.state(c, cut, case['kind'], sorted(s.items()))
    res.transitions += n
    res.traces += 2 * n
    return res
