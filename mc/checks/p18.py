"""Sequences of operations on static surfaces, against a model with intervals."""
import itertools
import numpy as np
from mc.core import Result

ID = 'P18'
TITLE = 'Shadows and cuts keep segments, sides, rows partitioned and separate'
RULE = ('all sequences, up to a depth, of casting any shadow of a lattice (both '
        'directions, beyond the ends too), cutting at any lattice point, '
        'merging shadows, removing and adding lines, replacing and deleting '
        'collections, updating parameters, on segments, sides, rows, grounds '
        'and collections along lines of four directions, next to a bystander '
        'object; compared with a model made of intervals after each operation')
ASSUMPTIONS = [
    'shadows given as lines along the surface, at least one lattice step long',
    'merging only when the shadows of a segment are adjacent (documented)']

N = 4                  # lattice points 0..N along the object
TOL = 1e-6
DIRS = {'right': ((0., 0.), (1., 0.)), 'up': ((3., 1.), (0., 1.)),
        'rise': ((-1., 2.), (0.8, 0.6)), 'fall': ((-4., 5.), (0.6, -0.8)),
        'left': ((2., 3.), (-1., 0.)), 'dive': ((1., 7.), (-0.6, -0.8))}


def shadows():
    pairs = [(a, b) for a in range(-1, N + 2) for b in range(-1, N + 2)
             if abs(b - a) >= 1 and not (a < 0 and b < 0)]
    return [('cast', a, b) for a, b in pairs]


def alphabet(kind, tier):
    """Operations; the quick tier leaves out a few mirrored ones"""
    casts = shadows()
    if tier == 'quick':
        casts = [x for x in casts if x[1] < x[2] or (x[1] - x[2]) in (1, 3)]
    cut = [('cut', x) for x in ([-1, 0, 1, 2, 3, 2.5] if tier == 'quick' else
                                [-1, 0, 0.5, 1, 2, 2.5, 3, 4])]
    ops = casts + cut + [('update',), ('merge',), ('cross', 1), ('cross', 2.5),
                         ('aside', 0, 3)]
    if kind == 'segment':
        ops += [('del', 'shaded'), ('del', 'illum'), ('put', 'shaded', 1, 2),
                ('put', 'illum', 2, 3)]
    elif kind == 'collection':
        ops = [('remove', a, b) for _, a, b in casts] + cut + \
            [('add', 1, 2), ('add', 3, 2), ('add', 0, 1), ('update',),
             ('merge',)]
    return ops


KINDS = ('segment', 'side', 'row', 'ground', 'collection', 'shaded')


def cases(tier):
    depth = 2 if tier == 'quick' else 3
    out = []
    for kind in KINDS:
        dirs = ['right'] if kind == 'ground' else list(DIRS)
        if kind == 'row':
            dirs = ['right', 'rise', 'fall']
        for d in dirs:
            ops = alphabet(kind, tier)
            # one first operation per case, and all the continuations
            deep = depth + (1 if tier == 'quick' and d in ('rise',)
                            and kind in ('segment', 'side') else 0)
            for i in range(len(ops)):
                out.append(dict(kind=kind, dir=d, first=i, depth=deep,
                                tier=tier))
    out += [dict(kind='defaults', how=h) for h in range(6)]
    return out


# --- the model: lists of intervals --------------------------------------
def minus(pieces, a, b):
    out = []
    for x, y in pieces:
        if b <= x or a >= y:
            out.append((x, y))
        else:
            if x < a:
                out.append((x, a))
            if b < y:
                out.append((b, y))
    return out


def inter(pieces, a, b):
    return [(max(x, a), min(y, b)) for x, y in pieces
            if min(y, b) > max(x, a)]


def union(pieces):
    out = []
    for x, y in sorted(pieces):
        if out and x <= out[-1][1] + TOL:
            out[-1][1] = max(out[-1][1], y)
        else:
            out.append([x, y])
    return [tuple(x) for x in out]


def bounds(pieces):
    return sorted(set(x for p in pieces for x in p))


class Seg(object):
    def __init__(self, lo, hi, shaded=False):
        self.lit = [] if shaded else [(lo, hi)]
        self.dark = [(lo, hi)] if shaded else []
        self.cut_in_dark = set()     # cuts that must be visible

    def cast(self, a, b):
        a, b = min(a, b), max(a, b)
        self.dark = self.dark + union(inter(self.lit, a, b))
        self.lit = minus(self.lit, a, b)

    def cut(self, x):
        # a point shared by a lit surface and a shadow is only cut once
        done = False
        for k, (a, b) in enumerate(self.lit):
            if a < x < b:
                self.lit[k:k + 1] = [(a, x), (x, b)]
                done = True
                break
        if not done and not any(x in p for p in self.lit):
            for k, (a, b) in enumerate(self.dark):
                if a < x < b:
                    self.dark[k:k + 1] = [(a, x), (x, b)]
                    break

    def can_merge(self):
        return len(union(self.dark)) <= 1

    def merge(self):
        if len(self.dark) > 1:
            self.dark = union(self.dark)


def run_case(case):
    res = Result()
    if case['kind'] == 'defaults':
        defaults(res, case['how'])
        return res
    ops = alphabet(case['kind'], case['tier'])
    for rest in itertools.product(range(len(ops)), repeat=case['depth'] - 1):
        if len(res.problems) >= 3:
            break
        seq = [ops[case['first']]] + [ops[k] for k in rest]
        sequence(res, case, seq)
    return res


def point(d, x):
    from shapely.geometry import Point
    (ox, oy), (ux, uy) = DIRS[d]
    return Point(ox + x * ux, oy + x * uy)


def coords(d, a, b):
    return [(point(d, a).x, point(d, a).y), (point(d, b).x, point(d, b).y)]


def build(kind, d, names=('p',)):
    """Real object, and its models: list of (model segment, real getter)"""
    from pvfactors.geometry.base import PVSegment, BaseSide, ShadeCollection
    from pvfactors.geometry.pvrow import PVRow
    from pvfactors.geometry.pvground import PVGround
    names = list(names)
    if kind == 'segment':
        o = PVSegment.from_linestring_coords(coords(d, 0, N), param_names=names)
        return o, [Seg(0, N)], [o], []
    if kind == 'side':
        o = BaseSide.from_linestring_coords(coords(d, 0, N), n_segments=2,
                                            param_names=names)
        return o, [Seg(0, N / 2), Seg(N / 2, N)], list(o.list_segments), []
    if kind == 'row':
        r = PVRow.from_linestring_coords(coords(d, 0, N), index=3,
                                         cut={'front': 2, 'back': 1},
                                         param_names=names)
        return r.front, [Seg(0, N / 2), Seg(N / 2, N)], \
            list(r.front.list_segments), [(Seg(0, N), r.back.list_segments[0]),
                                          (r, None)]
    if kind == 'ground':
        o = PVGround.as_flat(x_min_max=(0., float(N)), param_names=names)
        return o, [Seg(0, N)], list(o.list_segments), []
    shaded = kind == 'shaded'
    if kind == 'shaded':
        o = PVSegment.from_linestring_coords(coords(d, 0, N), shaded=True,
                                             param_names=names)
        return o, [Seg(0, N, True)], [o], []
    o = ShadeCollection.from_linestring_coords(coords(d, 0, N), shaded=shaded,
                                               param_names=names)
    return o, [Seg(0, N)], [o], []


def along(d, surf):
    (ox, oy), (ux, uy) = DIRS[d]
    p = [(x - ox) * ux + (y - oy) * uy for x, y in
         (surf.coords[0], surf.coords[-1])]
    off = max(abs((x - ox) * uy - (y - oy) * ux)
              for x, y in (surf.coords[0], surf.coords[-1]))
    return min(p), max(p), off, p[0] <= p[1]


def parts(seg):
    if hasattr(seg, 'illum_collection'):
        return seg.illum_collection.list_surfaces, \
            seg.shaded_collection.list_surfaces
    return seg.list_surfaces, []


def sequence(res, case, seq):
    from shapely.geometry import LineString
    kind, d = case['kind'], case['dir']
    obj, models, segs, others = build(kind, d)
    witness, wmodels, wsegs, _ = build(kind, d)
    updated = None
    normal = [np.array(s.n_vector, dtype=float) for s in segs]
    for step, op in enumerate(seq):
        if op[0] == 'cast':
            obj.cast_shadow(LineString(coords(d, op[1], op[2])))
            for m in models:
                m.cast(op[1], op[2])
            updated = None
        elif op[0] == 'cross':
            # a line across the object, and one next to it: no shade
            (ox, oy), (ux, uy) = DIRS[d]
            p = point(d, op[1])
            obj.cast_shadow(LineString([(p.x - uy, p.y + ux),
                                        (p.x + uy, p.y - ux)]))
        elif op[0] == 'aside':
            (ox, oy), (ux, uy) = DIRS[d]
            obj.cast_shadow(LineString([(x - 0.1 * uy, y + 0.1 * ux) for x, y
                                        in coords(d, op[1], op[2])]))
        elif op[0] == 'remove':
            a, b = min(op[1:]), max(op[1:])
            obj.remove_linestring(LineString(coords(d, op[1], op[2])))
            for m in models:
                m.lit = minus(m.lit, a, b)
            updated = None
        elif op[0] == 'add':
            a, b = min(op[1:]), max(op[1:])
            if inter(models[0].lit, a, b) or not models[0].lit:
                continue
            obj.add_linestring(LineString(coords(d, op[1], op[2])))
            models[0].lit.append((a, b))
            updated = None
        elif op[0] == 'cut':
            obj.cut_at_point(point(d, op[1]))
            for m in models:
                m.cut(op[1])
            updated = None
        elif op[0] == 'merge':
            if kind == 'collection':
                if len(union(models[0].lit)) > 1:
                    continue
                obj.merge_surfaces()
                models[0].lit = union(models[0].lit)
            elif hasattr(obj, 'merge_shaded_areas'):
                if not all(m.can_merge() for m in models):
                    continue
                obj.merge_shaded_areas()
                for m in models:
                    m.merge()
            else:
                if not models[0].can_merge():
                    continue
                obj.shaded_collection.merge_surfaces()
                models[0].merge()
            updated = None
        elif op[0] == 'update':
            obj.update_params({'p': 4.5 + step, 'extra': step})
            updated = (4.5 + step, step)
        elif op[0] == 'del':
            if op[1] == 'shaded':
                del obj.shaded_collection
                models[0].dark = []
            else:
                del obj.illum_collection
                models[0].lit = []
        elif op[0] == 'put':
            from pvfactors.geometry.base import ShadeCollection
            m = models[0]
            mine, other = (m.dark, m.lit) if op[1] == 'shaded' else \
                (m.lit, m.dark)
            if inter(other, op[2], op[3]):
                continue
            new = ShadeCollection.from_linestring_coords(
                coords(d, op[2], op[3]), op[1] == 'shaded', param_names=['p'],
                normal_vector=normal[0])
            if op[1] == 'shaded':
                obj.shaded_collection = new
                m.dark = [(op[2], op[3])]
            else:
                obj.illum_collection = new
                m.lit = [(op[2], op[3])]
            updated = None
        compare(res, case, seq[:step + 1], obj, models, segs, normal, updated)
        res.transitions += 1
        res.state(kind, d, tuple((tuple(union(m.lit)), tuple(union(m.dark)),
                                  tuple(bounds(m.lit)), tuple(bounds(m.dark)))
                                 for m in models), updated is None)
        res.outcome(op[0])
    # what must not have changed
    for m, s in list(zip(wmodels, wsegs)) + [x for x in others if x[1]
                                             is not None]:
        compare(res, case, seq, None, [m], [s], None, None, 'another object')
    for r, s in others:
        if s is None:
            hi = max((point(d, 0), point(d, N)), key=lambda p: p.y)
            p = r.highest_point
            if d != 'right' and abs(p.x - hi.x) + abs(p.y - hi.y) > 1e-9:
                res.problem('highest point of a row', got=[p.x, p.y])
            if len(r.all_surfaces) != len(r.front.all_surfaces) + \
                    len(r.back.all_surfaces) or r.index != 3:
                res.problem('surfaces of a row')
    res.traces += 1


def near(a, b):
    return len(a) == len(b) and (not a or np.abs(
        np.array(a) - np.array(b)).max() < TOL)


def compare(res, case, seq, obj, models, segs, normal, updated, who='object'):
    d = case['dir']
    total, shaded_total, count = 0., 0., 0

    def bad(what, **kw):
        res.problem('%s: %s' % (who, what), kind=case['kind'], dir=d,
                    sequence=seq, **kw)
    for k, (m, s) in enumerate(zip(models, segs)):
        lit, dark = parts(s)
        if hasattr(s, 'illum_collection') and (
                bool(s.illum_collection.shaded) or
                not s.shaded_collection.shaded):
            bad('collections of a segment')
        for label, got, want, flag in (('lit', lit, m.lit, False),
                                       ('shaded', dark, m.dark, True)):
            iv = [along(d, x) for x in got]
            if any(x[2] > 1e-9 for x in iv):
                bad('%s surface off the line' % label)
            if got and any(bool(x.shaded) != flag for x in got):
                bad('flag of a %s surface' % label)
            # shadows that only touch an object may leave a speck of shade
            spans = [x[:2] for x in iv if x[1] - x[0] > TOL]
            length = sum(y - x for x, y in spans)
            w = sum(y - x for x, y in want)
            if not near(union(spans), union(want)) or abs(length - w) > TOL:
                bad('%s part' % label, got=spans, want=want)
            elif not near(clean(bounds(spans)), bounds(want)):
                bad('cuts of the %s part' % label, got=bounds(spans),
                    want=bounds(want))
            if normal is not None:
                for x in got:
                    v = np.asarray(x.n_vector, dtype=float)
                    u = v / np.linalg.norm(v) - normal[k] / np.linalg.norm(
                        normal[k])
                    if np.abs(u).max() > 1e-6:
                        bad('normal vector', got=v, want=normal[k])
            total += w
            count += len(got)
            if flag:
                shaded_total += w
        if abs(s.length - sum(y - x for x, y in m.lit + m.dark)) > TOL:
            bad('length of a segment', got=s.length)
        if hasattr(s, 'shaded_length') and abs(
                s.shaded_length - sum(y - x for x, y in m.dark)) > TOL:
            bad('shaded length of a segment', got=s.shaded_length)
        if hasattr(s, 'all_surfaces') and [id(x) for x in s.all_surfaces] != \
                [id(x) for x in list(lit) + list(dark)]:
            bad('surfaces of a segment')
        if hasattr(s, 'is_collinear') and not s.is_collinear:
            bad('collection is not collinear')
    if obj is None:
        return
    if abs(obj.length - total) > TOL:
        bad('length', got=obj.length, want=total)
    if obj.n_surfaces != count:
        bad('number of surfaces', got=obj.n_surfaces, want=count)
    if hasattr(obj, 'shaded_length') and \
            abs(obj.shaded_length - shaded_total) > TOL:
        bad('shaded length', got=obj.shaded_length, want=shaded_total)
    if hasattr(obj, 'all_surfaces') and len(obj.all_surfaces) != count:
        bad('surfaces', got=len(obj.all_surfaces), want=count)
    if len(obj.surface_indices) != count:
        bad('surface indices')
    if updated is not None and total > TOL:
        v = obj.get_param_weighted('p')
        e = obj.get_param_ww('extra')
        if abs(v - updated[0]) > 1e-6 or abs(e - updated[1] * total) > 1e-5:
            bad('weighted parameter', got=[v, e], want=updated)


def clean(b):
    out = []
    for x in b:
        if not out or x - out[-1] > TOL:
            out.append(x)
    return out


def defaults(res, how):
    """Objects made with default arguments share nothing"""
    from shapely.geometry import LineString
    from pvfactors.geometry.base import PVSegment, BaseSide, ShadeCollection, \
        PVSurface
    from pvfactors.geometry.pvrow import PVRow, PVRowSide
    from pvfactors.geometry.pvground import PVGround
    surf = lambda sh: PVSurface(coords=[(0, 0), (4, 0)], shaded=sh)
    if how == 0:
        a, b = PVSegment(), PVSegment()
        a.shaded_collection.add_linestring(LineString([(0, 0), (1, 0)]),
                                           normal_vector=[0, 1])
        left = b.n_surfaces + PVSegment().n_surfaces
    elif how == 1:
        mk = lambda: PVSegment(illum_collection=ShadeCollection([surf(False)]))
        a, b = mk(), mk()
        a.cast_shadow(LineString([(1, 0), (2, 0)]))
        left = len(b.shaded_collection.list_surfaces) + \
            len(mk().shaded_collection.list_surfaces) + \
            abs(b.length - 4.) + abs(a.shaded_length - 1.)
        left = 0 if left < TOL else left
    elif how == 2:
        a, b = ShadeCollection(shaded=True), ShadeCollection(shaded=True)
        a.add_pvsurface(surf(True))
        left = b.n_surfaces + ShadeCollection(shaded=True).n_surfaces
    elif how == 3:
        a, b = PVSurface(coords=[(0, 0), (4, 0)], param_names=['x']), surf(True)
        a.update_params({'x': 1., 'y': 2.})
        left = len(b.params) + len(surf(False).params)
    elif how == 4:
        names = ['x']
        mk = lambda: PVRow.from_linestring_coords(
            [(0, 0), (4, 1)], param_names=names, cut={'front': 2})
        a, b = mk(), mk()
        a.update_params({'x': 3.})
        a.front.cast_shadow(LineString([(0, 0), (4, 1)]))
        left = b.front.shaded_length + b.back.shaded_length + \
            a.back.shaded_length + (mk().front.shaded_length) + sum(
                s.params['x'] is not None for s in b.all_surfaces) + \
            (names != ['x'])
    else:
        a, b = PVGround.as_flat(), PVGround.as_flat()
        a.cast_shadow(LineString([(0, 0), (4, 0)]))
        left = b.shaded_length + PVGround.as_flat().shaded_length + \
            abs(a.shaded_length - 4.)
        left = 0 if left < TOL else left
        left += PVRow().front.n_surfaces + PVRowSide().n_surfaces + \
            BaseSide().n_surfaces
    if left:
        res.problem('objects made with default arguments share their content',
                    how=how, left=left)
    res.state('defaults', how)
    res.outcome('defaults')
    res.transitions += 1
    res.traces += 1
