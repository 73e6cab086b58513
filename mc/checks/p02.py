"""PV rows: exact partition into segments and surfaces, direct shading."""
import numpy as np
from mc import events, impl, ref, space
from mc.core import Result

ID = 'P02'
TITLE = 'PV rows are where the inputs say, shaded exactly where other rows hide the sun'
RULE = ('all arrays of the alphabet x all orientations x all sun positions; '
        'the reference projects every other row on each side along the rays '
        'of the sun, and casts a ray from the middle of every surface')
ASSUMPTIONS = [
    'sun above the horizon and not within 0.001 degree of the plane of the rows',
    'surface azimuth is perpendicular to the axis azimuth (trackers)']
TOL = 1e-6


def cases(tier):
    cs = space.configs(tier)
    return cs + [dict(c, near=tier) for c in cs if c['n_pvrows'] < 6] + [
        dict(space.cfg(3, g, 1.5, 2., 0., {1: {'front': 2, 'back': 3}}),
             near='grazing') for g in (.3, .6, .9, .97)] + [
        space.cfg(4, 0.6, 2.2, 2., 200., {1: {'front': 7, 'back': 6},
                                          3: {'front': 4}})]


def run_case(c):
    res = Result()
    c = dict(c, cut=space.key_int(c['cut']))
    near = c.pop('near', None)
    states = space.grazing_states(c) if near == 'grazing' else \
        events.near_states(c, near) if near else [
        s for s in space.geo_states(c, 'thorough')
        if not space.near_edge(c, s)]
    n = len(states)
    pa = impl.pvarray(c, states)
    A = impl.Arrays(pa, n)
    if len(pa.ts_pvrows) != c['n_pvrows']:
        res.problem('number of PV rows')
        return res
    # unique indices, and lists that agree
    ix = sorted(A.index.tolist())
    if ix != list(range(len(A.meta))):
        res.problem('surface indices are not 0..n-1', got=ix)
    listed = sorted(id(s) for s in pa.all_ts_surfaces)
    if listed != sorted(id(m[5]) for m in A.meta) \
            or pa.n_ts_surfaces != len(A.meta):
        res.problem('the list of all the surfaces of the array')
    if [s.index for s in pa.all_ts_surfaces] != sorted(ix):
        res.problem('surfaces of the array are not listed in index order')
    w = c['pvrow_width']
    geoms = [ref.Geometry(c, **s) for s in states]
    nf = np.array([g.nf for g in geoms]).T
    tv = np.array([g.t for g in geoms]).T
    for i, row in enumerate(pa.ts_pvrows):
        start = np.array([g.start[i] for g in geoms]).T      # (2, n)
        end = np.array([g.end[i] for g in geoms]).T
        full = row.full_pvrow_coords.as_array
        if np.abs(full[0] - start).max() > TOL or \
                np.abs(full[1] - end).max() > TOL:
            res.problem('position of the PV row', row=i)
        for side, sd, sign in (('front', row.front, 1.),
                               ('back', row.back, -1.)):
            n_cut = c['cut'].get(i, {}).get(side, 1)
            if len(sd.list_segments) != n_cut:
                res.problem('number of segments', row=i, side=side)
                continue
            nv = np.asarray(sd.n_vector, dtype=float)
            nv = nv / np.hypot(nv[0], nv[1])
            if np.abs(nv - sign * nf).max() > TOL:
                res.problem('normal of a side', row=i, side=side)
            check(res, c, states, geoms, A, pa, i, side, sd, start, tv, n_cut)
            if np.abs(sd.length - w).max() > TOL:
                res.problem('length of a side', row=i, side=side)
    for it, s in enumerate(states):
        res.state(c, s)
    res.transitions = n
    res.traces = n
    return res


def check(res, c, states, geoms, A, pa, i, side, sd, start, tv, n_cut):
    n = len(states)
    w = c['pvrow_width']
    shaded_total = np.broadcast_to(sd.shaded_length, n)
    pieces = [[] for _ in range(n)]
    for k, seg in enumerate(sd.list_segments):
        a0, a1 = k * w / n_cut, (k + 1) * w / n_cut
        mine = [j for j, m in enumerate(A.meta)
                if m[0] == 'row' and m[1] == i and m[2] == side and m[4] == k]
        if not mine or seg.index != k:
            res.problem('segment list', row=i, side=side, seg=k)
            continue
        if np.abs(seg.length - w / n_cut).max() > TOL:
            res.problem('length of a segment', row=i, side=side, seg=k)
        for j in mine:
            xy = A.xy[j]
            u1 = (xy[0] - start[0]) * tv[0] + (xy[1] - start[1]) * tv[1]
            u2 = (xy[2] - start[0]) * tv[0] + (xy[3] - start[1]) * tv[1]
            v1 = (xy[0] - start[0]) * tv[1] - (xy[1] - start[1]) * tv[0]
            v2 = (xy[2] - start[0]) * tv[1] - (xy[3] - start[1]) * tv[0]
            if not (np.abs(v1).max() < TOL and np.abs(v2).max() < TOL):
                res.problem('a surface is not on its PV row', row=i, side=side)
            lo, hi = np.minimum(u1, u2), np.maximum(u1, u2)
            if (lo < a0 - TOL).any() or (hi > a1 + TOL).any():
                it = int(np.argmax(np.maximum(a0 - lo, hi - a1)))
                res.problem('a surface is not within its segment', row=i,
                            side=side, seg=k, state=states[it])
            if A.meta[j][5].shaded != A.meta[j][3]:
                res.problem('shaded flag of a surface', row=i, side=side)
            snv = np.asarray(A.meta[j][5].n_vector, dtype=float)
            if np.abs(snv - np.asarray(sd.n_vector)).max() > TOL:
                res.problem('normal of a surface', row=i, side=side)
            for it in range(n):
                if hi[it] - lo[it] > 1e-7:
                    pieces[it].append((lo[it], hi[it], A.meta[j][3]))
    for it, s in enumerate(states):
        g = geoms[it]
        pc = sorted(pieces[it])
        pos = 0.
        ok = True
        for lo, hi, _ in pc:
            ok &= abs(lo - pos) < TOL
            pos = hi
        if not ok or abs(pos - w) > TOL:
            res.problem('surfaces do not partition the side of a row',
                        row=i, side=side, state=s, pieces=pc)
            continue
        want = g.row_shaded_intervals(i, side)
        want = ref.union(want, tol=1e-7)
        got = ref.union([p[:2] for p in pc if p[2]], tol=1e-7)
        if not ref.same(got, want, TOL):
            res.problem('shaded part of a PV row', row=i, side=side, state=s,
                        got=got, want=want)
            continue
        if abs(shaded_total[it] - ref.total(want)) > TOL:
            res.problem('shaded length of a side', row=i, side=side, state=s)
        if g.sunlit_side() == side:
            for lo, hi, flag in pc:
                if hi - lo > 1e-4:
                    p = g.start[i] + .5 * (lo + hi) * g.t
                    if g.point_in_sun(p, skip_row=i) == bool(flag):
                        res.problem('ray to the sun contradicts the shaded '
                                    'flag', row=i, side=side, state=s)
            res.outcome('lit %s, %s' % (side, 'partly shaded' if want and
                                        ref.total(want) < w - 1e-6 else
                                        'shaded' if want else 'in the sun'))
        if c['n_pvrows'] > 1 and i == 0:
            hds = bool(np.broadcast_to(pa.has_direct_shading, n)[it])
            any_sh = any(g.row_shaded_intervals(q, sd_) for q in range(g.n)
                         for sd_ in ('front', 'back'))
            if hds != any_sh:
                res.problem('has_direct_shading', state=s, got=hds)
