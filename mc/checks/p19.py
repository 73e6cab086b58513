"""Line utilities against exact rational geometry."""
import itertools
from fractions import Fraction as Fr
import numpy as np
from mc.core import Result

ID = 'P19'
TITLE = 'Differences, projections, containment of lines are exact'
RULE = ('all pairs of segments of a lattice along lines of several directions, '
        'all segments of a planar lattice that cross or touch; all points x '
        'directions x segments of a planar lattice for projections; all lists '
        'of up to three or four elements for collinearity; compared with '
        'rational arithmetic')
ASSUMPTIONS = ['segments at least 1e-5 m long',
               'positions known to 1e-8',
               'a projection on the very end of a line may miss it']

DIRS = [((0, 0), (1, 0)), ((3, 1), (0, 1)), ((-1, 2), (2, 1)), ((4, 5), (1, -2)),
        ((2, 3), (-1, 0)), ((1, 7), (-3, -1))]
TOL = 1e-7
FINE = [0., 1e-5, 3e-4, 0.02, 1., 1.0002, 7.5, 40., 40.00003]


def cases(tier):
    out = []
    m = 5 if tier == 'quick' else 7
    for k in range(len(DIRS)):
        pts = [i / 2. for i in range(0, 2 * m + 1)] if tier == 'thorough' \
            else list(range(m + 1)) + [0.5, 2.5]
        for a in pts:
            out.append(dict(kind='along', dir=k, a=a, pts=pts))
        # points that are almost the same
        for a in FINE:
            out.append(dict(kind='along', dir=k, a=a, pts=FINE))
    grid = [(x, y) for x in range(4) for y in range(3)]
    for a in grid:
        out.append(dict(kind='plane', a=a, grid=grid))
        out.append(dict(kind='project', a=a, grid=grid,
                        reach=2 if tier == 'quick' else 3))
    out.append(dict(kind='collinear', n=3 if tier == 'quick' else 4))
    return out


def run_case(case):
    res = Result()
    globals()[case['kind']](res, case)
    return res


def parts(geom):
    return [np.array(g.coords) for g in getattr(geom, 'geoms', [geom])
            if not g.is_empty]


def along(res, case):
    from shapely.geometry import LineString, Point
    from pvfactors.geometry.utils import difference, contains
    from pvfactors.geometry.base import PVSurface
    (ox, oy), (ux, uy) = DIRS[case['dir']]
    xy = lambda t: (ox + t * ux, oy + t * uy)
    norm = float(ux * ux + uy * uy)
    pts, a = case['pts'], case['a']
    for b in pts:
        if a == b:
            continue
        lo, hi = min(a, b), max(a, b)
        u = LineString([xy(a), xy(b)])
        for p in pts:
            got = bool(contains(u, Point(xy(p))))
            if got != (lo <= p <= hi):
                res.problem('contains', u=[a, b], point=p, dir=case['dir'],
                            got=got)
            off = Point(xy(p)[0] - 1e-3 * uy, xy(p)[1] + 1e-3 * ux)
            if contains(u, off):
                res.problem('contains a point next to the line', u=[a, b],
                            point=p)
            if not contains(u, Point(off.x, off.y), tol_distance=0.1) and \
                    lo <= p <= hi:
                res.problem('contains: tolerance', u=[a, b], point=p)
        for c, d in itertools.permutations(pts, 2):
            v = LineString([xy(c), xy(d)])
            cl, ch = min(c, d), max(c, d)
            want = [(x, y) for x, y in ((lo, min(hi, cl)), (max(lo, ch), hi))
                    if y > x]
            if ch <= lo or cl >= hi:
                want = [(lo, hi)]
            for form, w in (('function', u), ('surface', PVSurface(
                    coords=[xy(a), xy(b)]))):
                diff = w.difference(v) if form == 'surface' else \
                    difference(u, v)
                got = []
                off = 0.
                for g in parts(diff):
                    t = ((g[:, 0] - ox) * ux + (g[:, 1] - oy) * uy) / norm
                    off = max(off, np.abs((g[:, 0] - ox) * uy
                                          - (g[:, 1] - oy) * ux).max())
                    got.append((t.min(), t.max()))
                got.sort()
                ok = len(got) == len(want) and off < TOL and all(
                    abs(x - y) < TOL for g, w_ in zip(got, want)
                    for x, y in zip(g, w_))
                if not ok:
                    res.problem('difference', dir=case['dir'], u=[a, b],
                                v=[c, d], got=got, want=want)
            res.outcome(['nothing left', 'one piece', 'two pieces'][len(want)])
            res.state('along', case['dir'], a, b, c, d)
            res.transitions += 1
            res.traces += 2


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def plane(res, case):
    """Segments that are not parallel leave each other alone"""
    from shapely.geometry import LineString
    from pvfactors.geometry.utils import difference
    a, grid = tuple(case['a']), [tuple(p) for p in case['grid']]
    for b in grid:
        if b == a:
            continue
        u = LineString([a, b])
        for c, d in itertools.permutations(grid, 2):
            if cross((b[0] - a[0], b[1] - a[1]), (d[0] - c[0], d[1] - c[1])) \
                    == 0 and cross((b[0] - a[0], b[1] - a[1]),
                                   (c[0] - a[0], c[1] - a[1])) == 0:
                continue
            g = parts(difference(u, LineString([c, d])))
            if len(g) != 1 or sorted(map(tuple, np.round(g[0], 7))) != \
                    sorted(map(lambda p: (float(p[0]), float(p[1])), (a, b))):
                res.problem('difference with a line that is not parallel',
                            u=[a, b], v=[c, d], got=[x.tolist() for x in g])
            res.state('plane', a, b, c, d)
            res.transitions += 1
            res.traces += 1
            res.outcome('left alone')


def project(res, case):
    from shapely.geometry import LineString, Point
    from pvfactors.geometry.utils import projection
    r = case['reach']
    vectors = [(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1)
               if (x, y) != (0, 0)]
    a, grid = tuple(case['a']), [tuple(p) for p in case['grid']]
    for b in grid:
        if b == a:
            continue
        line = LineString([a, b])
        e = (b[0] - a[0], b[1] - a[1])
        for p in grid:
            for v in vectors:
                det = cross(v, e)
                for must in (True, False):
                    got = projection(Point(p), v, line, must_contain=must)
                    if det == 0:
                        want = None
                    else:
                        s = Fr(cross(v, (p[0] - a[0], p[1] - a[1])), det)
                        want = (a[0] + s * e[0], a[1] + s * e[1])
                        if must and not 0 <= s <= 1:
                            want = None
                    if want is not None and must and s in (0, 1) \
                            and got.is_empty:
                        # rounding may put the intersection outside by one bit
                        # and there is no tolerance there (on purpose: tested)
                        res.outcome('missed the end of the line')
                        continue
                    if want is None:
                        ok = got.is_empty
                    else:
                        ok = not got.is_empty and abs(
                            got.x - float(want[0])) < TOL and abs(
                                got.y - float(want[1])) < TOL
                        if ok and must and s in (0, 1):
                            ok = (got.x, got.y) == (float(want[0]),
                                                    float(want[1]))
                    if not ok:
                        res.problem('projection', point=p, vector=v,
                                    line=[a, b], must=must, got=str(got),
                                    want=None if want is None else
                                    [float(x) for x in want])
                    res.transitions += 1
                    res.traces += 1
                    res.outcome('projected' if want is not None else
                                'parallel' if det == 0 else 'missed')
                res.state('project', a, b, p, v)


def collinear(res, case):
    from pvfactors import PVFactorsError
    from pvfactors.geometry.base import PVSurface, ShadeCollection, BaseSide, \
        PVSegment
    from pvfactors.geometry.utils import is_collinear, check_collinear, \
        are_2d_vecs_collinear
    from shapely.geometry import GeometryCollection
    dirs = [(1, 0), (-1, 0), (0, 1), (2, 1), (-4, -2), (1, 2), (-1, 2), None]
    for n in range(0, case['n'] + 1):
        for ds in itertools.product(dirs, repeat=n):
            els = [ShadeCollection(shaded=False) if d is None else
                   PVSurface(coords=[(i, 1.), (i + d[0], 1. + d[1])])
                   for i, d in enumerate(ds)]
            real = [d for d in ds if d is not None]
            want = all(cross(real[0], d) == 0 for d in real[1:])
            got = bool(is_collinear(els))
            if got != want:
                res.problem('collinear', directions=ds, got=got, want=want)
            try:
                check_collinear(els)
                ok = want
            except PVFactorsError:
                ok = not want
            if not ok:
                res.problem('check of collinearity', directions=ds)
            if None not in ds:
                segs = [PVSegment(illum_collection=ShadeCollection([e]))
                        for e in els]
                try:
                    side = BaseSide(segs)
                    ok = want and len(side.all_surfaces) == n
                except PVFactorsError:
                    ok = not want
                if not ok:
                    res.problem('side with segments', directions=ds)
                col = ShadeCollection(els, shaded=False)
                if bool(col.is_collinear) != want:
                    res.problem('collection', directions=ds)
                if not want:
                    try:
                        col.n_vector
                        res.problem('normal vector of a broken line')
                    except PVFactorsError:
                        pass
            res.outcome('collinear' if want else 'not collinear')
            res.state('collinear', ds)
            res.transitions += 1
            res.traces += 1
    for a, b in itertools.product([d for d in dirs if d], repeat=2):
        if bool(are_2d_vecs_collinear(np.array(a), np.array(b))) != \
                (cross(a, b) == 0):
            res.problem('collinear vectors', a=a, b=b)
    for flags in itertools.product((True, False), repeat=3):
        els = [PVSurface(coords=[(i, 0.), (i + 1, 0.)], shaded=f)
               for i, f in enumerate(flags)]
        try:
            col = ShadeCollection(els)
            ok = len(set(flags)) == 1 and col.shaded == flags[0]
        except PVFactorsError:
            ok = len(set(flags)) > 1
        if not ok:
            res.problem('collection of mixed shading', flags=flags)
        res.state('shading', flags)
