"""Snapshots of the timeseries geometry at one timestep."""
import numpy as np
from mc import impl, ref, space
from mc.core import Result

ID = 'P17'
TITLE = 'A snapshot is the geometry and values of its timestep'
RULE = ('what all objects of the series tell of themselves (ends, centroid, '
        'highest and lowest points, lengths, parts), and arrays x orientations x sun positions (all timesteps of the batch) x '
        'all snapshot forms: rows, sides, segments, surfaces, ground with and '
        'without merged shadows and cut points')
ASSUMPTIONS = ['sun above the horizon and not in the plane of the rows',
               'surfaces of a length below 1e-6 may be there or not']

TOL = 1e-6


def cases(tier):
    return [dict(c=c, tier=tier) for c in space.configs(tier)]


def run_case(case):
    res = Result()
    c, tier = dict(case['c']), case['tier']
    c['cut'] = space.key_int(c['cut'])
    sun = space.suns(tier)
    if not c.get('far'):
        sun = sun[::6] if tier == 'quick' else sun[::3]
    states = space.rotate_sky([s for s in space.geo_states(
        c, 'quick' if c['n_pvrows'] > 3 else tier, sun=sun)
        if not space.near_edge(c, s)])
    n = len(states)
    eng = impl.make_engine(c, dict(kind='perez', module_transparency=0.2),
                           fast_mode_pvrow_index=c['n_pvrows'] - 1)
    impl.fit_engine(eng, states)
    eng.run_full_mode()
    pa = eng.pvarray
    every = [(m, m[5]) for m in impl.surfaces(pa)]
    vec = np.arange(n) * 1.5
    for k, (m, s) in enumerate(every):
        s.update_params({'vec': vec + k, 'number': 2.5 + k, 'none': None,
                         'things': {'a': k}})
    pa.ts_ground.illum_params.update({'g': vec + 7., 'number': 4.})
    pa.ts_ground.shaded_params.update({'g': vec - 7., 'number': 5.})
    A = impl.Arrays(pa, n)
    rows = [(i, row, [k for k, m in enumerate(A.meta) if m[1] == i])
            for i, row in enumerate(pa.ts_pvrows)]
    series(res, c, states, pa, n)
    for it in range(n):
        if len(res.problems) >= 3:
            break
        geom = ref.Geometry(c, *[states[it][k] for k in
                                 ('tilt', 'surf_az', 'zen', 'az')])
        for i, row, ks in rows:
            check_row(res, c, states, it, geom, i, row, ks, A, n)
        check_ground(res, c, states, it, geom, pa, A, n)
        res.state(c, sorted(states[it].items()))
    # one fast mode result, with its dictionary of view factors
    eng.run_fast_mode()
    seg = pa.ts_pvrows[-1].back.list_segments[0]
    for it in (0, n - 1):
        for s in seg.at(it).all_surfaces:
            if not isinstance(s.get_param('view_factors'), dict):
                res.problem('parameter that is a dictionary')
    res.transitions += n
    res.traces += n
    return res


def series(res, c, states, pa, n):
    """What the objects of the series tell about their geometry"""
    def xy(p):
        return np.array([np.broadcast_to(p.x, n), np.broadcast_to(p.y, n)],
                        dtype=float)

    def differ(what, got, want, tol=1e-9):
        got = np.asarray(got, dtype=float)
        if got.shape[-1:] != (n,):
            got = np.broadcast_to(got, np.shape(want))
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            it = int(np.argwhere(bad)[0][-1])
            res.problem('series: %s' % what, config=c, state=states[it],
                        got=np.asarray(got)[..., it], want=want[..., it])
        res.transitions += n

    def lined(what, obj, line):
        """An object along a line"""
        b1, b2 = xy(line.b1), xy(line.b2)
        length = np.hypot(*(b2 - b1))
        if hasattr(obj, 'b1'):
            differ(what + ' b1', xy(obj.b1), b1)
            differ(what + ' b2', xy(obj.b2), b2)
        differ(what + ' centroid', xy(obj.centroid), (b1 + b2) / 2.)
        for name, pick, keep in (('highest_point', np.maximum, 1),
                                 ('lowest_point', np.minimum, 1)):
            if not hasattr(obj, name):
                continue
            p = xy(getattr(obj, name))
            differ('%s %s' % (what, name), p[1], pick(b1[1], b2[1]))
            d = np.minimum(np.abs(p - b1).max(0), np.abs(p - b2).max(0))
            differ('%s %s is an end' % (what, name), d, np.zeros(n))
        return length

    def at(what, line):
        b1, b2 = xy(line.b1), xy(line.b2)
        for it in {0, n // 2, n - 1}:
            w = np.array([b1[:, it], b2[:, it]])
            if not np.allclose(line.at(it), w, rtol=0, atol=0) or not \
                    np.allclose(line.b1.at(it), w[0], rtol=0, atol=0):
                res.problem('series: %s at a timestep' % what, state=states[it])

    for i, row in enumerate(pa.ts_pvrows):
        full = row.full_pvrow_coords
        at('row', full)
        length = lined('line of a row', full, full)
        differ('width', length, np.full(n, float(c['pvrow_width'])))
        differ('centroid', xy(row.centroid), xy(full.centroid))
        p, q = xy(row.highest_point), xy(full.highest_point)
        differ('highest point', p, q)
        differ('length of a row', row.length, 2. * length)
        surf = []
        for name in ('front', 'back'):
            side = getattr(row, name)
            differ('length of a side', side.length, length)
            segs, own, shaded = side.list_segments, [], np.zeros(n)
            for k, seg in enumerate(segs):
                L = lined('segment', seg, seg.coords)
                differ('length of a segment', seg.length, L)
                differ('length of the line', seg.coords.length, L)
                lit, sh = seg.illum, seg.shaded
                differ('shaded length of a segment', seg.shaded_length,
                       np.broadcast_to(sh.length, n))
                mine = list(lit.list_ts_surfaces) + list(sh.list_ts_surfaces)
                if seg.index != k or [id(x) for x in seg.all_ts_surfaces] != \
                        [id(x) for x in mine] or \
                        seg.n_ts_surfaces != len(mine) or \
                        lit.n_ts_surfaces != len(lit.list_ts_surfaces) or \
                        any(x.shaded for x in lit.list_ts_surfaces) or \
                        not all(x.shaded for x in sh.list_ts_surfaces):
                    res.problem('series: parts of a segment', config=c)
                shaded = shaded + sum(np.broadcast_to(x.length, n)
                                      for x in sh.list_ts_surfaces)
                own += mine
                for x in mine:
                    at('surface', x.coords)
                    differ('length of a surface', x.length,
                           lined('surface', x, x.coords))
                    nv, uv = np.asarray(x.n_vector), np.asarray(x.u_vector)
                    differ('u_vector is orthogonal to the normal',
                           (uv * nv).sum(0), np.zeros(n))
                    differ('length of u_vector', np.hypot(*uv),
                           np.hypot(*nv))
                    sv = np.asarray(side.n_vector)
                    differ('normal of a surface', nv, sv)
            differ('shaded length of a side', side.shaded_length, shaded)
            if [id(x) for x in side.all_ts_surfaces] != [id(x) for x in own] \
                    or side.n_ts_surfaces != len(own):
                res.problem('series: surfaces of a side', config=c)
            surf += own
        if [id(x) for x in row.all_ts_surfaces] != [id(x) for x in surf] or \
                row.n_ts_surfaces != len(surf) or row.index != i:
            res.problem('series: surfaces of a row', config=c)
    g = pa.ts_ground
    for kind, els in (('shaded', g.shadow_elements), ('lit',
                                                      g.illum_elements)):
        for el in els:
            L = lined(kind + ' element', el, el.coords)
            differ('length of an element', el.length, L)
            parts = el.all_ts_surfaces
            differ('surfaces of an element cover it',
                   sum(np.broadcast_to(x.length, n) for x in parts), L, TOL)
            if el.n_ts_surfaces != len(parts) or \
                    any(bool(x.shaded) != (kind == 'shaded') for x in parts):
                res.problem('series: parts of an element', config=c)
            for it in {0, n // 2, n - 1}:
                got = el.surfaces_at(it)
                few = el.non_point_surfaces_at(it)
                want = [np.array([xy(x.b1)[:, it], xy(x.b2)[:, it]])
                        for x in parts]
                if len(got) != len(want) or any(
                        (abs(b[1, 0] - b[0, 0]) > TOL or not a.is_empty)
                        and not same_line(a.coords, b)
                        for a, b in zip(got, want)) or \
                        not {x.index for x, w in zip(parts, want)
                             if abs(w[1, 0] - w[0, 0]) > TOL} <= {
                                 x.index for x in few} or \
                        any(x.length == 0 for x in few):
                    res.problem('series: surfaces of an element',
                                state=states[it], config=c)
    differ('length of the ground', g.length, np.full(n, 200.), TOL)
    sh = [x for el in g.shadow_elements for x in el.all_ts_surfaces]
    il = [x for el in g.illum_elements for x in el.all_ts_surfaces]
    differ('shaded length of the ground', g.shaded_length,
           sum((np.broadcast_to(x.length, n) for x in sh), np.zeros(n)), TOL)
    if g.n_ts_surfaces != len(sh) + len(il) or \
            g.n_ts_shaded_surfaces != len(sh) or \
            g.n_ts_illum_surfaces != len(il) or \
            {id(x) for x in g.all_ts_surfaces} != {id(x) for x in sh + il}:
        res.problem('series: surfaces of the ground', config=c)


def same_line(got, want):
    g = np.array(got, dtype=float)
    return g.shape == (2, 2) and np.abs(g - want).max() < 1e-9


def line(A, k, it):
    return A.xy[k, :, it].reshape(2, 2)


def check_surface(res, what, got, A, k, it, n, state, params=True):
    ts = A.meta[k][5]
    if not same_line(got.coords, line(A, k, it)):
        res.problem('%s: coordinates' % what, state=state,
                    got=list(got.coords), want=line(A, k, it))
    if got.shaded != A.meta[k][3] or got.index != ts.index:
        res.problem('%s: shading or index' % what, state=state,
                    got=[got.shaded, got.index],
                    want=[A.meta[k][3], ts.index])
    if not abs(got.length - A.length[k, it]) < 1e-9:
        res.problem('%s: length' % what, state=state)
    if not params:
        return
    for p, v in ts.params.items():
        if v is None or isinstance(v, dict) or np.isscalar(v):
            ok = got.get_param(p) is v or got.get_param(p) == v
        else:
            a, b = got.get_param(p), np.asarray(v)[it]
            ok = a == b or (a != a and b != b)
        if not ok:
            res.problem('%s: value of %s' % (what, p), state=state,
                        got=got.get_param(p), it=it)
            break


def listed(A, ks, it):
    """Surfaces that must be, and may be, in a snapshot"""
    return ([k for k in ks if A.length[k, it] > TOL],
            [k for k in ks if A.length[k, it] > 0])


def match(res, what, got, ks, A, it, n, state):
    """Same surfaces, whatever their order?"""
    must, may = listed(A, ks, it)
    by = {A.meta[k][5].index: k for k in may}
    seen = []
    for s in got:
        if s.index not in by:
            res.problem('%s: unexpected surface' % what, state=state,
                        index=s.index)
            continue
        check_surface(res, what, s, A, by[s.index], it, n, state)
        seen.append(by[s.index])
    if len(set(seen)) != len(seen) or not set(must) <= set(seen):
        res.problem('%s: missing or repeated surfaces' % what, state=state,
                    got=sorted(seen), want=must)
    res.outcome(what, len(seen))


def check_row(res, c, states, it, geom, i, row, ks, A, n):
    s = states[it]
    pv = row.at(it)
    match(res, 'row', pv.all_surfaces, ks, A, it, n, s)
    match(res, 'surfaces of a row', row.surfaces_at_idx(it), ks, A, it, n, s)
    if pv.index != i:
        res.problem('index of a row', got=pv.index)
    for name, want in (('highest_point', geom.high[i]),
                       ('lowest_point', geom.low[i])):
        p = getattr(pv, name)
        ok = abs(p.y - want[1]) < 1e-9 and (
            s['tilt'] == 0 or abs(p.x - want[0]) < 1e-9)
        if not ok:
            res.problem('%s of a row' % name, state=s, got=[p.x, p.y],
                        want=want)
    ends = sorted((p.x, p.y) for p in getattr(pv.boundary, 'geoms',
                                              pv.boundary))
    want = sorted([tuple(geom.start[i]), tuple(geom.end[i])])
    if np.abs(np.array(ends) - np.array(want)).max() > 1e-9:
        res.problem('ends of a row', state=s, got=ends, want=want)
    if not abs(pv.length - 2. * geom.w) < 1e-6:
        res.problem('length of a row', state=s, got=pv.length)
    idx = [A.meta[k][5].index for k in ks]
    if not set(pv.surface_indices) <= set(idx):
        res.problem('indices of a row', state=s)
    for side in ('front', 'back'):
        ts, g = getattr(row, side), getattr(pv, side)
        mine = [k for k in ks if A.meta[k][2] == side]
        match(res, 'side', g.all_surfaces, mine, A, it, n, s)
        match(res, 'surfaces of a side', ts.surfaces_at_idx(it), mine, A, it,
              n, s)
        nv = geom.nf if side == 'front' else -geom.nf
        for x in g.all_surfaces:
            v = np.asarray(x.n_vector, dtype=float)
            if np.abs(v / np.linalg.norm(v) - nv).max() > 1e-9:
                res.problem('normal vector', state=s, got=v, want=nv)
        shaded = sum(A.length[k, it] for k in mine if A.meta[k][3])
        if not abs(g.shaded_length - shaded) < 1e-6:
            res.problem('shaded length of a side', state=s,
                        got=g.shaded_length, want=shaded)
        for p in ('qinc', 'vec'):
            a, b = g.get_param_weighted(p), ts.get_param_weighted(p)[it]
            if not abs(a - b) < 1e-6 * (1 + abs(b)):
                res.problem('weighted mean of a side', state=s, got=a, want=b)
        if len(g.list_segments) != len(ts.list_segments):
            res.problem('number of segments')
        for k, (seg, tseg) in enumerate(zip(g.list_segments,
                                            ts.list_segments)):
            own = [j for j in mine if A.meta[j][4] == k]
            match(res, 'segment', seg.all_surfaces, own, A, it, n, s)
            match(res, 'surfaces of a segment', tseg.surfaces_at_idx(it), own,
                  A, it, n, s)
            if seg.index != tseg.index:
                res.problem('index of a segment', got=seg.index)
            for col, sh in ((seg.illum_collection, False),
                            (seg.shaded_collection, True)):
                part = [j for j in own if A.meta[j][3] == sh]
                match(res, 'part', col.list_surfaces, part, A, it, n, s)
                if bool(col.shaded) != sh:
                    res.problem('shading of a part')


def spans(surfs):
    return [(min(p[0] for p in x.coords), max(p[0] for p in x.coords))
            for x in surfs]


def check_ground(res, c, states, it, geom, pa, A, n):
    s = states[it]
    g = pa.ts_ground
    ks = [k for k, m in enumerate(A.meta) if m[0] == 'gnd']
    sh = [k for k in ks if A.meta[k][3]]
    il = [k for k in ks if not A.meta[k][3]]
    match(res, 'shaded ground', g.non_point_shaded_surfaces_at(it), sh, A, it,
          n, s)
    match(res, 'lit ground', g.non_point_illum_surfaces_at(it), il, A, it, n, s)
    match(res, 'ground', g.non_point_surfaces_at(it), ks, A, it, n, s)
    if g.n_non_point_surfaces_at(it) != len(g.non_point_surfaces_at(it)):
        res.problem('number of surfaces of the ground')
    # do rows shade each other?
    hidden = max(ref.total(geom.row_shaded_intervals(i, side))
                 for i in range(geom.n) for side in ('front', 'back'))
    if 0 < hidden < TOL:
        return
    shadows = geom.ground_shaded_intervals()
    els = [k for k, el in enumerate(g.shadow_elements)]
    element = {}
    for e, el in enumerate(g.shadow_elements):
        for x in el.all_ts_surfaces:
            element[x.index] = e
    for merge in (True, False):
        for cuts in (True, False):
            pg = g.at(it, merge_if_flag_overlap=merge, with_cut_points=cuts)
            what = 'ground merged=%s cut=%s' % (merge, cuts)
            seg, = pg.list_segments
            got_s = seg.shaded_collection.list_surfaces
            got_i = seg.illum_collection.list_surfaces
            if any(not x.shaded for x in got_s) or any(x.shaded for x in got_i):
                res.problem('%s: shading of surfaces' % what, state=s)
            # coverage
            for label, got, want in (
                    ('shaded', got_s, shadows),
                    ('lit', got_i, complement(shadows))):
                if [x for x in got if abs(x.coords[0][1] - geom.y0) +
                        abs(x.coords[1][1] - geom.y0) > 1e-9]:
                    res.problem('%s: height' % what, state=s)
                u = ref.union(spans(got), 1e-9)
                u = [x for x in u if x[1] - x[0] > TOL]
                w = [x for x in want if x[1] - x[0] > TOL]
                if len(u) != len(w) or (w and np.abs(
                        np.array(u) - np.array(w)).max() > 1e-6):
                    res.problem('%s: %s intervals' % (what, label), state=s,
                                config=c, got=u, want=w)
                if not abs(sum(x.length for x in got) - ref.total(want)) < 1e-6:
                    res.problem('%s: %s length' % (what, label), state=s)
            if not abs(pg.length - 200.) < 1e-6 or \
                    not abs(pg.shaded_length - ref.total(shadows)) < 1e-6:
                res.problem('%s: total lengths' % what, state=s)
            # pieces
            overlap = hidden > 0 and merge
            must_s = [k for k in sh if A.length[k, it] > TOL]
            if cuts:
                match(res, what + ' lit', got_i, il, A, it, n, s)
                if not overlap:
                    match(res, what + ' shaded', got_s, sh, A, it, n, s)
                else:
                    joined(res, what, got_s, must_s, A, it, s, element, c)
            else:
                pieces = {}
                for k in must_s:
                    e = 0 if overlap else element[A.meta[k][5].index]
                    x = sorted(A.xy[k, [0, 2], it])
                    lo, hi = pieces.get(e, x)
                    pieces[e] = [min(lo, x[0]), max(hi, x[1])]
                same_pieces(res, what, got_s, pieces.values(), s, c)
                lit = {}
                for e, el in enumerate(g.illum_elements):
                    for x in el.all_ts_surfaces:
                        lit[x.index] = e
                pieces = {}
                for k in [k for k in il if A.length[k, it] > TOL]:
                    e = lit[A.meta[k][5].index]
                    x = sorted(A.xy[k, [0, 2], it])
                    lo, hi = pieces.get(e, x)
                    pieces[e] = [min(lo, x[0]), max(hi, x[1])]
                same_pieces(res, what, got_i, pieces.values(), s, c)
                for x in got_s + got_i:
                    w = (it * 1.5 - 7., 5.) if x.shaded else (it * 1.5 + 7., 4.)
                    if (x.get_param('g'), x.get_param('number')) != w:
                        res.problem('%s: values' % what, state=s)
            res.outcome('%s%s' % (what, ', shadows merged' if overlap else ''))
    pg = g.at(it, x_min_max=(-12., 31.))
    ends = sorted(p.x for p in getattr(pg.boundary, 'geoms', pg.boundary))
    if ends != [-12., 31.]:
        res.problem('ends of the ground', got=ends)
    pg = g.at(it)
    ends = sorted(p.x for p in getattr(pg.boundary, 'geoms', pg.boundary))
    if ends != [-100., 100.]:
        res.problem('ends of the ground', got=ends)


def complement(shadows):
    out, x = [], ref.X_MIN
    for a, b in shadows:
        if a > x:
            out.append((x, a))
        x = b
    if x < ref.X_MAX:
        out.append((x, ref.X_MAX))
    return out


def same_pieces(res, what, got, want, s, c):
    got = sorted(x for x in spans(got) if x[1] - x[0] > TOL)
    want = sorted(tuple(x) for x in want)
    if len(got) != len(want) or (want and np.abs(
            np.array(got) - np.array(want)).max() > 1e-6):
        res.problem('%s: pieces' % what, state=s, config=c, got=got, want=want)


def joined(res, what, got, must, A, it, s, element, c):
    """Shadows of neighbours are merged: pieces only end at cut points"""
    order = sorted(must, key=lambda k: min(A.xy[k, [0, 2], it]))
    pieces, members = [], []
    for k in order:
        x = sorted(A.xy[k, [0, 2], it])
        e = element[A.meta[k][5].index]
        if pieces and abs(pieces[-1][1] - x[0]) < TOL and last != e:
            pieces[-1][1] = x[1]
            members[-1].append(k)
        else:
            pieces.append(list(x))
            members.append([k])
        last = e
    same_pieces(res, what + ' joined', got, pieces, s, c)
    for x in got:
        if x.length < TOL:
            continue
        ok = [m for p, m in zip(pieces, members)
              if abs(p[0] - min(x.coords[0][0], x.coords[1][0])) < TOL]
        if ok and x.index not in [A.meta[k][5].index for k in ok[0]]:
            res.problem('%s: index of a joined shadow' % what, state=s,
                        got=x.index)
        elif ok:
            k = next(k for k in ok[0] if A.meta[k][5].index == x.index)
            if x.get_param('qinc') != A.meta[k][5].get_param('qinc')[it]:
                res.problem('%s: value of a joined shadow' % what, state=s)
    res.outcome('joined shadows', sum(len(m) > 1 for m in members))
