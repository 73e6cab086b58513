"""Static geometries: built as described, or refused."""
import itertools
import numpy as np
from mc import ref
from mc.checks import p18
from mc.core import Result

ID = 'P24'
TITLE = 'A geometry built from a description is what it describes, or is refused'
RULE = ('all descriptions of rows (position, tilt, width, azimuths, cuts, '
        'shading, normal) and grounds (extent, level, shading, lists of '
        'surfaces) of a lattice, all sets of up to three surfaces of an '
        'alphabet (direction, shading, empty) put in collections, segments '
        'and sides, all timeseries rows with any shaded lengths')
ASSUMPTIONS = ['surface azimuth not parallel to the axis of the rows']
TOL = 1e-9

CENTERS = ((0., 1.5), (-3.25, 2.), (14.5, 40.))
TILTS = (0., 3., 27.5, 45., 60., 89.9, 90., 120., 178.)
AZ = ((0., 90.), (0., 270.), (180., 90.), (37., 127.), (37., 307.), (350., 80.),
      (270., 0.), (90., 180.), (0., 450.), (0., -90.))     # axis, surface
WIDTHS = (0.3, 1., 7.5)
CUTS = ({}, {'front': 1, 'back': 1}, {'front': 3}, {'back': 2},
        {'front': 2, 'back': 5})


def cases(tier):
    out = [dict(kind='row', az=a, shaded=s) for a in range(len(AZ))
           for s in (False, True)]
    out += [dict(kind='line', cut=i) for i in range(len(CUTS))]
    out += [dict(kind='ground')]
    out += [dict(kind='sets', size=n, what=w) for n in (1, 2, 3)
            for w in ('collection', 'side')]
    out += [dict(kind='segment', size=n) for n in (1, 2)]
    out += [dict(kind='series', cut=k, tier=tier) for k in (1, 2, 3, 5, 8)]
    out += [dict(kind='surface'), dict(kind='params')]
    out += [dict(kind='make', dir=d) for d in p18.DIRS]
    out += [dict(kind='make', dir=None, tilt=t) for t in
            (0., 20., 45., 90., 135., 180.)]
    return out


def run_case(case):
    res = Result()
    globals()['run_' + case['kind']](res, case)
    return res


def unit(v):
    v = np.asarray(v, dtype=float).ravel()
    return v / np.linalg.norm(v)


def check_sides(res, row, start, end, front_normal, cut, shaded, names, what,
                **ctx):
    start, end = np.array(start, dtype=float), np.array(end, dtype=float)
    L = np.linalg.norm(end - start)
    for side, sign in (('front', 1.), ('back', -1.)):
        g = getattr(row, side)
        n = cut.get(side, 1)
        segs = list(g.list_segments)
        if len(segs) != n or g.n_surfaces != n or len(g.all_surfaces) != n:
            res.problem('%s: number of segments' % what, side=side, **ctx)
            continue
        for k, seg in enumerate(segs):
            a = start + (end - start) * k / n
            b = start + (end - start) * (k + 1) / n
            surf, = seg.all_surfaces
            xy = np.array(surf.coords, dtype=float)
            if np.abs(xy - [a, b]).max() > 1e-8 * (1 + L):
                res.problem('%s: position of a segment' % what, side=side,
                            k=k, got=xy, want=[a, b], **ctx)
            part = seg.shaded_collection if shaded else seg.illum_collection
            other = seg.illum_collection if shaded else seg.shaded_collection
            if surf.shaded != shaded or part.list_surfaces != [surf] or \
                    other.list_surfaces or other.shaded != (not shaded):
                res.problem('%s: shading of a segment' % what, side=side, **ctx)
            for v in (surf.n_vector, seg.n_vector, g.n_vector):
                if np.abs(unit(v) - sign * front_normal).max() > 1e-8:
                    res.problem('%s: normal' % what, side=side, got=unit(v),
                                want=sign * front_normal, **ctx)
                    break
            if surf.params != dict.fromkeys(names):
                res.problem('%s: parameters of a surface' % what, **ctx)
            if not abs(seg.length - L / n) < 1e-8 * (1 + L):
                res.problem('%s: length of a segment' % what, **ctx)
        if not abs(g.length - L) < 1e-8 * (1 + L) or \
                not abs(g.shaded_length - (L if shaded else 0.)) \
                < 1e-8 * (1 + L):
            res.problem('%s: length of a side' % what, side=side, **ctx)
    if len(row.all_surfaces) != sum(cut.get(s, 1) for s in ('front', 'back')):
        res.problem('%s: surfaces of a row' % what, **ctx)
    lo, hi = row.lowest_point, row.highest_point
    ys = sorted((start[1], end[1]))
    if max(abs(lo.y - ys[0]), abs(hi.y - ys[1])) > 1e-8 * (1 + L):
        res.problem('%s: lowest or highest point' % what, **ctx)
    if abs(ys[1] - ys[0]) > 1e-6:
        low = start if start[1] < end[1] else end
        high = end if start[1] < end[1] else start
        if max(abs(lo.x - low[0]), abs(hi.x - high[0])) > 1e-8 * (1 + L):
            res.problem('%s: lowest or highest point' % what, **ctx)


def run_row(res, case):
    from pvfactors.geometry.pvrow import PVRow
    ax, az = AZ[case['az']]
    for i, (c, t, w, cut) in enumerate(itertools.product(
            CENTERS, TILTS, WIDTHS, CUTS)):
        names = ([], ['qinc'], ['a', 'b'])[i % 3]
        row = PVRow.from_center_tilt_width(
            c, t, w, az, ax, shaded=case['shaded'], index=i % 7, cut=dict(cut),
            param_names=list(names))
        g = ref.Geometry(dict(n_pvrows=1, pvrow_width=w, pvrow_height=c[1],
                              gcr=0.4, axis_azimuth=ax), t, az)
        shift = np.array([c[0], 0.])
        check_sides(res, row, g.start[0] + shift, g.end[0] + shift, g.nf, cut,
                    case['shaded'], names, 'row from its center', center=c,
                    tilt=t, width=w, azimuths=(ax, az))
        if row.index != i % 7:
            res.problem('index of a row')
        ends = np.array(sorted((p.x, p.y) for p in row.boundary))
        want = np.array(sorted([tuple(g.start[0] + shift),
                                tuple(g.end[0] + shift)]))
        if abs(ends - want).max() > 1e-8 * w and t not in (90.,):
            res.problem('ends of a row', got=ends, want=want)
        res.state(case['az'], case['shaded'], c, t, w, sorted(cut.items()))
        res.traces += 1
    res.transitions += res.traces
    res.outcome('rows from center', res.traces)


def run_line(res, case):
    from pvfactors.geometry.pvrow import PVRow
    cut = CUTS[case['cut']]
    grid = [(x, y) for x in (-2., 0., 3.) for y in (0.5, 1., 4.)]
    for i, (a, b) in enumerate(itertools.permutations(grid, 2)):
        d = np.array(b) - np.array(a)
        own = unit([-d[1], d[0]])
        for normal in (None, own, -own, 3. * own):
            names = ([], ['qinc'])[i % 2]
            kw = {} if normal is None else dict(normal_vector=normal)
            row = PVRow.from_linestring_coords([a, b], shaded=bool(i % 3 == 0),
                                               cut=dict(cut), index=4,
                                               param_names=list(names), **kw)
            check_sides(res, row, a, b, own if normal is None else
                        unit(normal), cut, i % 3 == 0, names,
                        'row from its ends', ends=(a, b), normal=normal)
            if row.index != 4:
                res.problem('index of a row')
            res.state('line', a, b, None if normal is None else
                      tuple(np.round(normal, 6)), case['cut'])
            res.traces += 1
    res.transitions += res.traces
    res.outcome('rows from ends', res.traces)


def run_ground(res, case):
    from pvfactors.geometry.pvground import PVGround
    from pvfactors.geometry.base import PVSurface
    for ext, y, sh, names in itertools.product(
            (None, (-10., 10.), (0., 3.), (-250., -20.)), (None, 0., -1.5, 2.),
            (False, True), ([], ['qinc', 'x'])):
        kw = dict(shaded=sh, param_names=list(names))
        if ext is not None:
            kw['x_min_max'] = ext
        if y is not None:
            kw['y_ground'] = y
        g = PVGround.as_flat(**kw)
        lo, hi = ext or (-100., 100.)
        y0 = y or 0.
        s, = g.all_surfaces
        if np.abs(np.array(s.coords) - [(lo, y0), (hi, y0)]).max() > 0 or \
                s.shaded != sh or s.params != dict.fromkeys(names) or \
                list(s.n_vector) != [0., 1.] or list(g.n_vector) != [0., 1.]:
            res.problem('flat ground', extent=ext, level=y, shaded=sh)
        if g.length != hi - lo or g.shaded_length != (hi - lo if sh else 0.):
            res.problem('length of a flat ground', extent=ext)
        b = [(p.x, p.y) for p in g.boundary]
        if sorted(b) != [(lo, y0), (hi, y0)]:
            res.problem('ends of a flat ground', got=b)
        # ground from lists of surfaces
        xs = np.linspace(lo, hi, 6)
        for mask in itertools.product((None, False, True), repeat=5):
            lists = {True: [], False: []}
            for k, m in enumerate(mask):
                if m is not None:
                    lists[m].append(PVSurface(
                        [(xs[k], y0), (xs[k + 1], y0)], shaded=m, index=k,
                        param_names=list(names)))
            kw.pop('shaded', None)
            g = PVGround.from_lists_surfaces(list(lists[True]),
                                             list(lists[False]), **kw)
            if [x.index for x in g.all_surfaces] != [
                    x.index for x in lists[False] + lists[True]] and \
                    sorted(x.index for x in g.all_surfaces) != sorted(
                    x.index for x in lists[False] + lists[True]):
                res.problem('surfaces of a ground from lists', mask=mask)
            if sorted(g.surface_indices) != sorted(
                    k for k, m in enumerate(mask) if m is not None) or \
                    g.n_surfaces != len(g.surface_indices):
                res.problem('indices of a ground from lists', mask=mask)
            step = (hi - lo) / 5.
            if not abs(g.shaded_length - step * mask.count(True)) < 1e-9 or \
                    not abs(g.length - step * (5 - mask.count(None))) < 1e-9:
                res.problem('length of a ground from lists', mask=mask)
            b = [(p.x, p.y) for p in g.boundary]
            if sorted(b) != [(lo, y0), (hi, y0)]:
                res.problem('ends of a ground from lists', got=b)
            g.update_params({'new': 7.})
            if any(x.params != dict(dict.fromkeys(names), new=7.)
                   for x in g.all_surfaces) or len(g.all_surfaces) != len(
                    lists[True] + lists[False]):
                res.problem('parameters of a ground from lists', mask=mask)
            res.state('ground', ext, y, mask)
            res.traces += 1
    res.transitions += res.traces
    res.outcome('grounds', res.traces)


# surfaces of the alphabet: direction, shading, or empty
DIRECTIONS = ((1., 0.), (-1., 0.), (0., 1.), (0.6, 0.8), (-0.6, -0.8),
              (0.8, -0.6), (1., 1e-9))
ALPHABET = [(d, s) for d in range(len(DIRECTIONS)) for s in (False, True)]


def surface(item, k, empty=False):
    from pvfactors.geometry.base import PVSurface
    d = np.array(DIRECTIONS[item[0]])
    a = np.array([0.3 * k, 1. + k])
    return PVSurface([tuple(a), tuple(a + d)], shaded=item[1], index=k)


def parallel(dirs):
    dirs = [np.array(DIRECTIONS[d]) for d in dirs]
    return all(abs(dirs[0][0] * d[1] - dirs[0][1] * d[0]) < 1e-5 for d in dirs)


def attempt(res, what, ok, make, **ctx):
    from pvfactors import PVFactorsError
    try:
        out = make()
    except (PVFactorsError, AssertionError):
        if ok:
            res.problem('%s is refused' % what, **ctx)
        return None
    if not ok:
        res.problem('%s is accepted' % what, **ctx)
    return out


def run_sets(res, case):
    from pvfactors import PVFactorsError
    from pvfactors.geometry.base import PVSegment, ShadeCollection
    from pvfactors.geometry.base import BaseSide
    for items in itertools.product(ALPHABET, repeat=case['size']):
        par = parallel([d for d, _ in items])
        shades = {s for _, s in items}
        surfs = [surface(i, k) for k, i in enumerate(items)]
        if case['what'] == 'collection':
            # shading must be uniform; directions matter for the normal
            col = attempt(res, 'a collection of mixed shading'
                          if len(shades) > 1 else 'a uniform collection',
                          len(shades) == 1, lambda: ShadeCollection(surfs),
                          items=items)
            if col is None or len(shades) > 1:
                continue
            if col.shaded != items[0][1] or bool(col.is_collinear) != par or \
                    col.n_surfaces != len(items) or \
                    col.surface_indices != list(range(len(items))):
                res.problem('a collection of surfaces', items=items)
            try:
                v = col.n_vector
                if not par:
                    res.problem('a collection of several directions has a '
                                'normal', items=items)
                elif abs(unit(v).dot(DIRECTIONS[items[0][0]])) > 1e-6:
                    res.problem('normal of a collection', items=items)
            except PVFactorsError:
                if par:
                    res.problem('a collection of one direction has no normal',
                                items=items)
        else:
            def seg(s, i):
                c = ShadeCollection([s])
                return PVSegment(shaded_collection=c) if i[1] else \
                    PVSegment(illum_collection=c)
            segs = [seg(s, i) for s, i in zip(surfs, items)]
            side = attempt(res, 'a side of segments', par,
                           lambda: BaseSide(segs), items=items)
            if side is None or not par:
                continue
            if not abs(side.length - len(items)) < 1e-6 or \
                    not abs(side.shaded_length - sum(s for _, s in items)) \
                    < 1e-6 or sorted(side.surface_indices) != list(
                        range(len(items))) or side.n_surfaces != len(items):
                res.problem('a side of segments', items=items)
        res.state(case['what'], items)
        res.traces += 1
    res.transitions += res.traces
    res.outcome(case['what'], res.traces)


def run_segment(res, case):
    """Lit and shaded collections put together"""
    from pvfactors.geometry.base import PVSegment, ShadeCollection
    from pvfactors.geometry.base import BaseSide, PVSegment as S2
    n = case['size']
    for lit in itertools.product(range(len(DIRECTIONS)), repeat=n - 1):
        for dark in itertools.product(range(len(DIRECTIONS)), repeat=n):
            for swap in (False, True):
                mk = lambda ds, s, k0: ShadeCollection(
                    [surface((d, s), k0 + k) for k, d in enumerate(ds)],
                    shaded=s)
                a, b = mk(lit, swap, 0), mk(dark, not swap, 10)
                par = parallel(lit + dark)
                seg = attempt(
                    res, 'a segment', par and not swap,
                    lambda: PVSegment(illum_collection=a, shaded_collection=b,
                                      index=5), lit=lit, dark=dark, swap=swap)
                if seg is None or swap or not par:
                    continue
                if seg.index != 5 or not abs(
                        seg.length - len(lit + dark)) < 1e-6 or not abs(
                        seg.shaded_length - len(dark)) < 1e-6 or \
                        seg.n_surfaces != len(lit + dark) or \
                        sorted(seg.surface_indices) != list(
                            range(len(lit))) + [10 + k for k in
                                                range(len(dark))]:
                    res.problem('a segment', lit=lit, dark=dark)
                # replacing a part by one of the wrong shading is refused
                attempt(res, 'a lit collection as the shaded part', False,
                        lambda: setattr(seg, 'shaded_collection',
                                        mk(dark, False, 0)))
                attempt(res, 'a shaded collection as the lit part', False,
                        lambda: setattr(seg, 'illum_collection',
                                        mk(dark, True, 0)))
                res.state(lit, dark)
                res.traces += 1
    empty = PVSegment()
    if empty.length or empty.shaded_length or empty.all_surfaces or \
            empty.n_vector is not None or empty.surface_indices:
        res.problem('a segment without surfaces')
    side = BaseSide([])
    if side.length or side.shaded_length or side.all_surfaces or \
            side.n_vector is not None or side.surface_indices:
        res.problem('a side without segments')
    res.transitions += res.traces
    res.outcome('segments', res.traces)


def run_series(res, case):
    """Timeseries rows from rotations and any shaded lengths"""
    from pvfactors.geometry.pvrow import TsPVRow
    cut = {'front': case['cut'], 'back': 9 - case['cut']}
    rots = [r for r in (-163., -90., -61., -20., -3., 0., 4., 33., 47.5, 90.,
                        141.)]
    shares = (0., 0.1, 0.25, 1. / 3., 0.5, 0.77, 0.999, 1.)
    combos = list(itertools.product(rots, shares, shares))
    rot = np.array([c[0] for c in combos])
    n = len(rot)
    for w, center in itertools.product(WIDTHS, CENTERS):
        sf, sb = (np.array([c[k] for c in combos]) * w for k in (1, 2))
        row = TsPVRow.from_raw_inputs(center, w, rot, cut, sf.copy(), sb.copy(),
                                      index=2, param_names=['p'])
        if row.index != 2 or row.n_ts_surfaces != 18:
            res.problem('a timeseries row')
        for side, given, sign in (('front', sf, 1.), ('back', sb, -1.)):
            sd = getattr(row, side)
            m = cut[side]
            if len(sd.list_segments) != m:
                res.problem('number of segments of a timeseries row')
                continue
            r = np.radians(rot)
            t = np.array([np.cos(r), np.sin(r)])         # (2, n)
            nv = sign * np.array([-t[1], t[0]])
            given = np.where(rot == 0, 0., given)        # flat rows are lit
            for k, seg in enumerate(sd.list_segments):
                # distances from the start
                u0, u1 = k * w / m, (k + 1) * w / m
                low0 = rot >= 0         # the start is the lowest point
                lo = np.where(low0, u0, w - u1)
                dark = np.clip(given - lo, 0., w / m)
                for col, want in ((seg.shaded, dark), (seg.illum,
                                                       w / m - dark)):
                    s, = col.list_ts_surfaces
                    if np.abs(s.length - want).max() > 1e-8 * w:
                        it = int(np.argmax(np.abs(s.length - want)))
                        res.problem('length of a part of a timeseries row',
                                    side=side, segment=k, rotation=rot[it],
                                    got=s.length[it], want=want[it])
                    # where: the shaded part is the lower one
                    at = []
                    for p in (s.b1, s.b2):
                        rel = np.array([p.x - center[0], p.y - center[1]])
                        off = np.abs((rel * nv).sum(axis=0)).max()
                        if off > 1e-8 * w:
                            res.problem('a surface out of the plane of its '
                                        'row', side=side)
                        at.append((rel * t).sum(axis=0) + 0.5 * w)
                    a, b = np.minimum(*at), np.maximum(*at)
                    if col is seg.shaded:
                        wa = np.where(low0, u0, u1 - dark)
                        wb = np.where(low0, u0 + dark, u1)
                    else:
                        wa = np.where(low0, u0 + dark, u0)
                        wb = np.where(low0, u1, u1 - dark)
                    ok = (want < 1e-8 * w) | ((np.abs(a - wa) < 1e-8 * w)
                                              & (np.abs(b - wb) < 1e-8 * w))
                    if not ok.all():
                        res.problem('place of a part of a timeseries row',
                                    side=side, segment=k,
                                    rotation=rot[~ok][0])
                    v = np.array(s.n_vector, dtype=float)
                    v = v / np.hypot(*v)
                    if np.abs(v - nv).max() > 1e-8:
                        res.problem('normal of a timeseries surface')
                    if s.params != {'p': None}:
                        res.problem('parameters of a timeseries surface')
                if seg.index != k:
                    res.problem('index of a timeseries segment')
            if np.abs(sd.shaded_length - given).max() > 1e-8 * w or \
                    np.abs(sd.length - w).max() > 1e-8 * w:
                res.problem('length of a timeseries side', side=side)
        for c in combos:
            res.state(case['cut'], w, center, c)
        res.traces += n
    res.transitions += res.traces
    res.outcome('timeseries rows', res.traces)


def run_params(res, case):
    """Values given to a part reach all its surfaces, and no other; averages"""
    from pvfactors.geometry.base import PVSegment, PVSurface, ShadeCollection
    from pvfactors.geometry.pvrow import PVRow, PVRowSide
    for nf, nb, mask in itertools.product(
            (1, 2, 3), (1, 2), itertools.product((0, 1, 2), repeat=3)):
        # segment k: lit, shaded or both; indices are all different
        def side(n, y, first, sign):
            out = []
            for k in range(n):
                m = mask[k]
                w = 1. + 0.5 * k
                parts = {False: [], True: []}
                xs = ([0., w] if m < 2 else [0., 0.3 * w, w])
                for j in range(len(xs) - 1):
                    dark = bool(m) if m < 2 else j == 0
                    parts[dark].append(PVSurface(
                        [(10. * k + xs[j], y), (10. * k + xs[j + 1], y)],
                        normal_vector=[0., sign], shaded=dark,
                        index=first + 4 * k + j, param_names=['p']))
                out.append(PVSegment(
                    illum_collection=ShadeCollection(parts[False],
                                                     shaded=False),
                    shaded_collection=ShadeCollection(parts[True],
                                                      shaded=True), index=k))
            return PVRowSide(out)
        f, b = side(nf, 2., 100, 1.), side(nb, 2., 200, -1.)
        row = PVRow(front_side=f, back_side=b, index=1)
        every = row.all_surfaces
        count = sum(1 if m < 2 else 2 for n in (nf, nb) for m in mask[:n])
        if len({id(x) for x in every}) != count or len(every) != count or \
                sorted(row.surface_indices) != sorted(x.index for x in every):
            res.problem('surfaces of a row', mask=mask, cut=(nf, nb))
        given = {}

        def put(part, surfs, **new):
            part.update_params(dict(new))
            for x in surfs:
                given.setdefault(x.index, {'p': None}).update(new)
        put(row, every, p=1., q=2.)
        put(f, f.all_surfaces, p=3.)
        s0 = f.list_segments[-1]
        put(s0, s0.all_surfaces, p=4., r=5.)
        for sd in (f, b):
            for seg in sd.list_segments:
                for col in (seg.illum_collection, seg.shaded_collection):
                    put(col, col.list_surfaces,
                        p=10. + sd.list_segments.index(seg) + 3. * col.shaded)
        for x in every:
            if x.params != given[x.index]:
                res.problem('values given to a part of a row', mask=mask,
                            cut=(nf, nb), got=x.params, want=given[x.index])
        for sd in (f, b):
            L = sum(x.length for x in sd.all_surfaces)
            want = sum(x.length * x.params['p'] for x in sd.all_surfaces)
            got = sd.get_param_weighted('p'), sd.get_param_ww('p')
            if not abs(got[0] - want / L) < 1e-9 or \
                    not abs(got[1] - want) < 1e-9:
                res.problem('average of a side', mask=mask, got=got)
            for seg in sd.list_segments:
                L = seg.length
                want = sum(x.length * x.params['p'] for x in seg.all_surfaces)
                got = seg.get_param_weighted('p'), seg.get_param_ww('p')
                if not abs(got[0] - want / L) < 1e-9 or \
                        not abs(got[1] - want) < 1e-9:
                    res.problem('average of a segment', mask=mask, got=got)
        res.state('params', nf, nb, mask)
        res.traces += 1
    res.transitions += res.traces
    res.outcome('values given to parts', res.traces)


def run_surface(res, case):
    from pvfactors.geometry.base import PVSurface
    from pvfactors.geometry.base import BaseSurface
    grid = [(x, y) for x in (-1., 0., 2.) for y in (0., 1., 5.)]
    for a, b in itertools.permutations(grid, 2):
        d = np.array(b) - np.array(a)
        for cls in (BaseSurface, PVSurface):
            for normal in (None, [0., 1.], (3., -4.)):
                for names, params in ((None, None), (['a'], None), ([], None),
                                      (None, {'z': 2.}), (['a'], {'z': 3.})):
                    s = cls([a, b], normal_vector=normal, index=9,
                            param_names=names, params=params)
                    want = [-d[1], d[0]] if normal is None else list(normal)
                    if list(s.n_vector) != want:
                        res.problem('normal of a surface', ends=(a, b),
                                    got=s.n_vector, want=want)
                    p = params if params is not None else \
                        dict.fromkeys(names or [])
                    if s.params != p or s.index != 9 or \
                            s.param_names != (names or []):
                        res.problem('parameters of a surface')
                    if cls is PVSurface and s.shaded is not False:
                        res.problem('shading of a surface')
                    # own parameters
                    if params is None:
                        t = cls([a, b], param_names=names)
                        s.update_params({'new': 1})
                        if 'new' in t.params or s.get_param('new') != 1:
                            res.problem('surfaces share parameters')
                    res.state(cls.__name__, a, b, normal, names)
                    res.traces += 1
    e = PVSurface()
    if not e.is_empty or e.n_vector is not None or e.length:
        res.problem('an empty surface')
    res.transitions += res.traces
    res.outcome('surfaces', res.traces)


def run_make(res, case):
    """What the class methods build, for every choice of their arguments"""
    from pvfactors.geometry.base import PVSegment, BaseSide, ShadeCollection, \
        PVSurface
    from pvfactors.geometry.pvrow import PVRow, PVRowSide
    from pvfactors.geometry.pvground import PVGround
    d = case['dir']
    flags = ({}, {'shaded': False}, {'shaded': True})
    names = ({}, {'param_names': ['p']}, {'param_names': ['p', 'q']})
    if d is None:
        # rows from their center, tilt and width
        for f, xy, w, az, nm in itertools.product(
                flags, [(0., 0.), (3., 1.5)], (1., 2.5),
                ((90., 0.), (270., 0.), (180., 90.), (200., 110.),
                 (20., 110.)), names):
            for cut in ({}, {'cut': {'front': 3}},
                        {'cut': {'back': 2, 'front': 1}}):
                for index in ({}, {'index': 4}):
                    kw = dict(f, **nm)
                    kw.update(cut, **index)
                    r = PVRow.from_center_tilt_width(
                        xy, case['tilt'], w, az[0], az[1], **kw)
                    # azimuths to the left of the axis mirror the row
                    sign = 1. if np.sin(np.radians(az[0] - az[1])) > 0 else -1.
                    a = np.radians(case['tilt'])
                    u = np.array([np.cos(a), sign * -np.sin(a)])
                    ends = np.array(xy) - u * w / 2., np.array(xy) + u * w / 2.
                    checkrow(res, r, ends, kw, dict(kw, xy=xy, w=w, az=az))
        return
    c = [np.array(x) for x in p18.coords(d, 0, p18.N)]
    for f, nm, n, index in itertools.product(
            flags, names, ({}, {'n_segments': 1}, {'n_segments': 2},
                           {'n_segments': 5}), ({}, {'index': 7})):
        for normal in ({}, {'normal_vector': [-(c[1] - c[0])[1] * -0.5,
                                              (c[1] - c[0])[0] * -0.5]}):
            kw = dict(f, **nm)
            kw.update(normal)
            for cls in (BaseSide, PVRowSide):
                o = cls.from_linestring_coords(p18.coords(d, 0, p18.N),
                                               **dict(kw, **dict(n, **index)))
                checkside(res, o, c, n.get('n_segments', 1), kw,
                          index.get('index'), normal.get('normal_vector'))
            if not n:
                o = PVSegment.from_linestring_coords(p18.coords(d, 0, p18.N),
                                                     **dict(kw, **index))
                checksegment(res, o, c, kw, index.get('index'),
                             normal.get('normal_vector'))
                for sh in (False, True):
                    k2 = dict(kw)
                    k2.pop('shaded', None)
                    o = ShadeCollection.from_linestring_coords(
                        p18.coords(d, 0, p18.N), sh, **k2)
                    if o.shaded is not sh or len(o.list_surfaces) != 1 or \
                            bool(o.list_surfaces[0].shaded) is not sh:
                        res.problem('a collection', shaded=sh)
                for cut in ({}, {'cut': {}}, {'cut': {'front': 2}},
                            {'cut': {'back': 3}}):
                    k2 = dict(kw, **dict(cut, **index))
                    r = PVRow.from_linestring_coords(p18.coords(d, 0, p18.N), **k2)
                    checkrow(res, r, c, k2, k2)
    # parts that do not go together are refused
    mixed = lambda *sh: [PVSurface(coords=p18.coords(d, k, k + 1), shaded=x)
                         for k, x in enumerate(sh)]
    turn = PVSurface(coords=[tuple(c[1]), (c[1][0] - (c[1] - c[0])[1],
                                           c[1][1] + (c[1] - c[0])[0])])
    line = lambda *x: PVSegment(illum_collection=ShadeCollection(list(x)))
    for what, build in (
            ('lit and shaded surfaces together',
             lambda: ShadeCollection(mixed(True, False))),
            ('shaded surfaces as lit ones',
             lambda: PVSegment(illum_collection=ShadeCollection(mixed(True)))),
            ('lit surfaces as shaded ones',
             lambda: PVSegment(shaded_collection=ShadeCollection(
                 mixed(False)))),
            ('lit surfaces as shaded ones, later',
             lambda: setattr(PVSegment(), 'shaded_collection',
                             ShadeCollection(mixed(False)))),
            ('shaded surfaces as lit ones, later',
             lambda: setattr(PVSegment(), 'illum_collection',
                             ShadeCollection(mixed(True)))),
            ('a segment with a turn', lambda: line(mixed(False)[0], turn)),
            ('a segment with a turn to its shade', lambda: PVSegment(
                ShadeCollection([turn]), ShadeCollection(mixed(True)))),
            ('a side with a turn',
             lambda: BaseSide([line(mixed(False)[0]), line(turn)]))):
        try:
            build()
            res.problem('accepted: ' + what)
        except Exception:
            pass
        res.outcome('refused')
        res.transitions += 1
    for col, more in ((ShadeCollection(mixed(False)), turn),
                      (ShadeCollection(mixed(False, False)), turn),
                      (ShadeCollection([turn]), mixed(False)[0])):
        col.add_pvsurface(more)
        try:
            res.problem('normal of a collection with a turn', got=col.n_vector)
        except Exception:
            pass
        if col.is_collinear:
            res.problem('a collection with a turn is called collinear')
    col = ShadeCollection(mixed(False))
    col.add_pvsurface(mixed(False, False)[1])
    if not col.is_collinear or abs(col.length - 2.) > p18.TOL:
        res.problem('a collection of two surfaces in line')
    if d == 'right':
        for f, nm, xm, y in itertools.product(
                flags, names, ({}, {'x_min_max': None},
                               {'x_min_max': (-3., 5.)}),
                ({}, {'y_ground': 0.}, {'y_ground': -1.5})):
            kw = dict(f, **dict(nm, **dict(xm, **y)))
            g = PVGround.as_flat(**kw)
            a, b = xm.get('x_min_max') or (-100., 100.)
            e = [np.array([a, y.get('y_ground', 0.)]),
                 np.array([b, y.get('y_ground', 0.)])]
            checkside(res, g, e, 1, kw, None, [0., 1.])
            checkends(res, g.boundary, e, 'ground')
            k2 = {k: v for k, v in kw.items() if k != 'shaded'}
            for ns, ni in itertools.product(range(3), range(3)):
                mk = lambda x, sh: PVSurface(
                    coords=[(x, e[0][1]), (x + 0.5, e[0][1])], shaded=sh,
                    index=x, param_names=['p'], normal_vector=[0., 1.])
                sh = [mk(x, True) for x in range(ns)]
                il = [mk(10 + x, False) for x in range(ni)]
                g = PVGround.from_lists_surfaces(list(sh), list(il), **k2)
                if [id(x) for x in g.all_surfaces] != [id(x) for x in il + sh] \
                        or abs(g.length - 0.5 * (ns + ni)) > p18.TOL \
                        or abs(g.shaded_length - 0.5 * ns) > p18.TOL \
                        or g.n_surfaces != ns + ni or \
                        g.surface_indices != [x.index for x in il + sh]:
                    res.problem('ground from lists of surfaces', ns=ns, ni=ni)
                seg, = g.list_segments
                if bool(seg.illum_collection.shaded) or \
                        not bool(seg.shaded_collection.shaded):
                    res.problem('collections of a ground from lists')
                # a shadow falls on what is lit
                g.cast_shadow(seg_line(-50., 50., e[0][1]))
                if abs(g.shaded_length - 0.5 * (ns + ni)) > p18.TOL:
                    res.problem('shadow on a ground from lists', ns=ns, ni=ni,
                                got=g.shaded_length)
                checkends(res, g.boundary, e, 'ground from lists')
                res.transitions += 1


def seg_line(a, b, y):
    from shapely.geometry import LineString
    return LineString([(a, y), (b, y)])


def checkends(res, boundary, ends, what):
    got = np.array([(p.x, p.y) for p in boundary])
    if np.abs(got - np.array(ends)).max() > 1e-9 and \
            np.abs(got[::-1] - np.array(ends)).max() > 1e-9:
        res.problem('ends of a %s' % what, got=got, want=np.array(ends))


def checksegment(res, seg, ends, kw, index, normal, what='segment'):
    sh = kw.get('shaded', False)
    full = seg.shaded_collection if sh else seg.illum_collection
    other = seg.illum_collection if sh else seg.shaded_collection
    length = float(np.hypot(*(ends[1] - ends[0])))
    d = ends[1] - ends[0]
    want_n = np.array([-d[1], d[0]]) if normal is None else np.array(normal)
    ok = len(full.list_surfaces) == 1 and len(other.list_surfaces) == 0 and \
        bool(full.shaded) is sh and bool(other.shaded) is not sh and \
        abs(seg.length - length) < p18.TOL and \
        abs(seg.shaded_length - (length if sh else 0.)) < p18.TOL and \
        seg.index == index
    if not ok:
        res.problem('a new %s' % what, kw=kw, index=seg.index, want=index,
                    shaded=seg.shaded_length, length=seg.length)
        return
    surf = full.list_surfaces[0]
    checkends(res, surf.boundary, ends, what)
    n = np.asarray(surf.n_vector, dtype=float)
    if np.abs(n / np.linalg.norm(n) - want_n / np.linalg.norm(want_n)).max() \
            > 1e-6 or bool(surf.shaded) is not sh or \
            list(surf.params) != list(kw.get('param_names') or []) or \
            any(v is not None for v in surf.params.values()):
        res.problem('surface of a new %s' % what, kw=kw, normal=n,
                    params=sorted(surf.params))
    # what is added later belongs to the same kind
    from shapely.geometry import LineString
    other.add_linestring(LineString([tuple(ends[0]), tuple(ends[1])]),
                         normal_vector=n)
    new = other.list_surfaces.pop()
    if bool(new.shaded) is sh or list(new.params) != \
            list(kw.get('param_names') or []):
        res.problem('surface added to a new %s' % what, kw=kw)
    other.update_geom_collection(other.list_surfaces)


def checkside(res, o, ends, n, kw, index, normal, what='side'):
    if len(o.list_segments) != n:
        res.problem('number of segments of a new %s' % what, want=n,
                    got=len(o.list_segments), kw=kw)
        return
    for k, seg in enumerate(o.list_segments):
        e = [ends[0] + (ends[1] - ends[0]) * q / n for q in (k, k + 1)]
        checksegment(res, seg, e, kw, index, normal, what)
    length = float(np.hypot(*(ends[1] - ends[0])))
    if abs(o.length - length) > p18.TOL or o.n_surfaces != n or \
            abs(o.shaded_length - (length if kw.get('shaded') else 0.)) > p18.TOL:
        res.problem('length of a new %s' % what, kw=kw, got=o.length)
    res.transitions += 1
    res.traces += 1
    res.state(what, str(kw), n, index, tuple(ends[0]), tuple(ends[1]))
    res.outcome('new %s' % what)


def checkrow(res, r, ends, kw, show):
    cut = kw.get('cut', {})
    d = ends[1] - ends[0]
    n = kw.get('normal_vector')
    n = np.array([-d[1], d[0]]) if n is None else np.array(n)
    before = len(res.problems)
    for side, name, v in ((r.front, 'front', n), (r.back, 'back', -n)):
        checkside(res, side, ends, cut.get(name, 1), kw, 0, v, 'row')
    checkends(res, r.boundary, ends, 'row')
    lo, hi = sorted(ends, key=lambda p: p[1])
    for p, q in ((r.lowest_point, lo), (r.highest_point, hi)):
        if abs(p.y - q[1]) > 1e-9 or (abs(d[1]) > 1e-9 and
                                      abs(p.x - q[0]) > 1e-9):
            res.problem('end points of a new row', got=[p.x, p.y], want=q)
    if r.index != kw.get('index') or \
            abs(r.length - 2 * float(np.hypot(*d))) > p18.TOL or \
            [id(x) for x in r.all_surfaces] != [id(x) for x in
                                                r.front.all_surfaces +
                                                r.back.all_surfaces] or \
            len(r.surface_indices) != len(r.all_surfaces):
        res.problem('a new row', index=r.index)
    if len(res.problems) > before:
        res.problems[-1]['row'] = str(show)
