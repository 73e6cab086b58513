"""Ground: exact partition, shadows where the sun is hidden."""
import itertools
import numpy as np
from mc import events, impl, ref, space
from mc.core import Result

ID = 'P01'
TITLE = 'Ground surfaces partition the ground, shaded exactly where rows hide the sun'
RULE = ('all sequences of shadow coordinates of a lattice x cut points; '
        'all arrays of the alphabet (rows x shapes x discretizations) x all '
        'orientations x all sun positions; the reference casts the end points '
        'of every row on the ground and takes the union, and casts a ray to '
        'the sun from the middle of every ground surface')
ASSUMPTIONS = [
    'sun above the horizon and not within 0.001 degree of the plane of the rows',
    'ground limited to x in [-100, 100] m, shadows beyond are clipped',
    'surface azimuth is perpendicular to the axis azimuth (trackers)']
TOL = 1e-6


def cases(tier):
    cs = space.configs(tier)
    return cs + extra(tier) + given(tier) + [
        dict(c, near=tier) for c in cs if c['n_pvrows'] < 6] + [
        dict(space.cfg(3, g, 1.5, 2., 0., {1: {'front': 2, 'back': 3}}),
             near='grazing') for g in (.3, .6, .9, .97)]


def extra(tier):
    """Many rows, the last ones next to or beyond the limit of the ground"""
    out = [space.cfg(12, 0.3, 2., 2., 0., {11: {'back': 2}}),
           space.cfg(30, 0.5, 1.5, 2., 180.)]
    return out


# positions of shadows given by coordinates: ends of the ground, beyond, inside
GRID = (-130., -100., -100. + 1e-3, -40., 0., 12.5, 99., 100., 140.)
CUT_POINTS = ((), (-40.,), (0., 50.), (-120., 5., 5., 100.), (-70., 12.5, 130.),
              (30., 60., 90.))


def given(tier):
    return [dict(given=n, cuts=i, overlap=o, y0=y)
            for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))
            for i in range(len(CUT_POINTS)) for o in (None, False, True)
            for y in ((0.,) if o is None else (0., -1.5))]


def run_given(res, case):
    """Ground from coordinates of shadows, from left to right"""
    from pvfactors.geometry.pvground import TsGround
    from pvfactors.geometry.timeseries import TsPointCoords
    m, y0, o = case['given'], case['y0'], case['overlap']
    combos = [x for x in itertools.combinations_with_replacement(GRID, 2 * m)]
    if o:
        # shadows overlap: each one ends beyond the start of the next one
        combos = []
        for x in itertools.combinations_with_replacement(GRID, m + 1):
            combos.append(sum(([x[i], x[i + 1] + 9.]
                               for i in range(m)), []))
    n = len(combos)
    a = np.array(combos, dtype=float)
    y = np.full(n, y0)
    coords = np.array([[[a[:, 2 * i], y], [a[:, 2 * i + 1], y]]
                       for i in range(m)])
    cuts = [TsPointCoords(np.full(n, x), np.full(n, y0))
            for x in CUT_POINTS[case['cuts']]]
    g = TsGround.from_ordered_shadows_coords(
        coords, flag_overlap=None if o is None else np.full(n, o),
        cut_point_coords=cuts, y_ground=y0, param_names=['p'])
    surf = [(s, True) for e in g.shadow_elements for s in e.all_ts_surfaces] \
        + [(s, False) for e in g.illum_elements for s in e.all_ts_surfaces]
    if len(g.shadow_elements) != m or len(g.illum_elements) != m + 1:
        res.problem('number of ground elements')
    if any(s.shaded != f or s.params != {'p': None} for s, f in surf) or \
            len(g.all_ts_surfaces) != len(surf):
        res.problem('surfaces of a ground given by coordinates')
    if not cuts:     # elements are not split into surfaces then
        surf = [(e, True) for e in g.shadow_elements] \
            + [(e, False) for e in g.illum_elements]
    flag = np.array([f for _, f in surf])
    xy = np.array([[np.broadcast_to(v, n) for v in (
        s.b1.x, s.b2.x, s.b1.y, s.b2.y)] for s, _ in surf])
    if np.abs(xy[:, 2:] - y0).max() > 0:
        res.problem('level of a ground given by coordinates')
    for it in range(n):
        x = a[it]
        want = ref.union([(max(ref.X_MIN, min(ref.X_MAX, p)),
                           max(ref.X_MIN, min(ref.X_MAX, q)))
                          for p, q in zip(x[::2], x[1::2])])
        lo, hi = xy[:, 0, it], xy[:, 1, it]
        keep = hi - lo > 1e-7
        if (hi < lo - TOL).any():
            res.problem('ground surface from right to left', shadows=x)
            continue
        for f, w in ((True, want), (None, [(ref.X_MIN, ref.X_MAX)])):
            sel = keep & (flag if f else True)
            iv = sorted(zip(lo[sel], hi[sel]))
            u = ref.union(iv, TOL)
            if len(u) != len(w) or any(abs(p - q) > TOL for s, t in zip(u, w)
                                       for p, q in zip(s, t)) or \
                    abs(sum(q - p for p, q in iv) - ref.total(w)) > TOL:
                res.problem('shadows given by coordinates' if f else
                            'ground surfaces do not partition the ground',
                            shadows=x, case=case, got=u, want=w)
                break
        for cut in CUT_POINTS[case['cuts']]:
            if (keep & (lo < cut - TOL) & (hi > cut + TOL)).any():
                res.problem('a ground surface on both sides of a cut point',
                            shadows=x, case=case, cut=cut)
        if not abs(np.broadcast_to(g.shaded_length, n)[it]
                   - ref.total(want)) < 1e-5 or not abs(
                np.broadcast_to(g.length, n)[it] - 200.) < 1e-5:
            res.problem('length of a ground given by coordinates', shadows=x)
        res.state(sorted(case.items(), key=str), tuple(x))
    res.outcome('given by coordinates', n)
    res.transitions += n
    res.traces += 1
    return res


def run_case(c):
    res = Result()
    if 'given' in c:
        return run_given(res, c)
    c = dict(c, cut=space.key_int(c['cut']))
    near = c.pop('near', None)
    tier = 'quick' if c['n_pvrows'] > 9 else 'thorough'
    states = space.grazing_states(c) if near == 'grazing' else \
        events.near_states(c, near) if near else [
        s for s in space.geo_states(c, tier) if not space.near_edge(c, s)]
    n = len(states)
    pa = impl.pvarray(c, states)
    A = impl.Arrays(pa, n)
    gnd = [k for k, m in enumerate(A.meta) if m[0] == 'gnd']
    shaded = np.array([A.meta[k][3] for k in gnd])
    xy, length = A.xy[gnd], A.length[gnd]
    g = pa.ts_ground
    # the collections of the ground list the same surfaces
    n_sh = sum(len(e.all_ts_surfaces) for e in g.shadow_elements)
    if len(g.all_ts_surfaces) != len(gnd) or g.n_ts_surfaces != len(gnd) \
            or g.n_ts_shaded_surfaces != n_sh:
        res.problem('the lists of ground surfaces do not agree')
    for k in gnd:
        if A.meta[k][5].shaded != A.meta[k][3]:
            res.problem('shaded flag of a ground surface')
    y0 = c.get('y_ground', 0.)
    if not np.all(np.isfinite(xy)) or np.abs(xy[:, [1, 3]] - y0).max() > 0:
        res.problem('ground surfaces are not at the level of the ground')
        return res
    shaded_length = np.broadcast_to(g.shaded_length, n)
    for it, s in enumerate(states):
        geom = ref.Geometry(c, **s)
        want = geom.ground_shaded_intervals()
        keep = length[:, it] > 1e-7
        lo = np.minimum(xy[:, 0, it], xy[:, 2, it])[keep]
        hi = np.maximum(xy[:, 0, it], xy[:, 2, it])[keep]
        sh = shaded[keep]
        o = np.argsort(lo)
        lo, hi, sh = lo[o], hi[o], sh[o]
        # partition of [-100, 100]
        if abs(lo[0] - ref.X_MIN) > TOL or abs(hi[-1] - ref.X_MAX) > TOL \
                or np.abs(lo[1:] - hi[:-1]).max(initial=0.) > TOL:
            res.problem('ground surfaces do not partition the ground',
                        state=s, lo=lo, hi=hi)
            continue
        if (xy[keep][:, 0, it] > xy[keep][:, 2, it] + TOL).any():
            res.problem('ground surface from right to left', state=s)
        # shaded part
        got = ref.union(list(zip(lo[sh], hi[sh])), tol=1e-7)
        want = ref.union(want, tol=1e-7)
        if not ref.same(got, want, TOL):
            res.problem('shadows on the ground', state=s, got=got, want=want)
            continue
        # ray casting at the middle of each surface
        for a, b, flag in zip(lo, hi, sh):
            if b - a > 1e-4:
                lit = geom.point_in_sun(np.array([.5 * (a + b), y0]))
                if lit == bool(flag):
                    res.problem('a ground surface is %s' % (
                        'in the sun but shaded' if flag
                        else 'in a shadow but not shaded'),
                        state=s, interval=(a, b))
        if abs(shaded_length[it] - ref.total(want)) > TOL * 10:
            res.problem('shaded length of the ground', state=s,
                        got=shaded_length[it], want=ref.total(want))
        res.outcome('shadows=%d' % min(len(want), 6))
        if want and (want[0][0] <= ref.X_MIN or want[-1][1] >= ref.X_MAX):
            res.outcome('clipped')
        res.state(c, s)
    res.transitions = n
    res.traces = n
    return res
