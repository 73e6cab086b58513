"""Aggregates over the tree of surfaces, and updates of parameters in it."""
import itertools
import numpy as np
from mc import impl, space
from mc.core import Result

ID = 'P16'
TITLE = 'Aggregates are length weighted means; updates reach what they cover'
RULE = ('every node of the tree of surfaces (array, ground, ground elements, '
        'rows, sides, segments, shaded and lit parts, surfaces) x arrays x '
        'orientations x sun positions; all sequences of two (thorough: three) '
        'parameter updates on nodes of small arrays against a model of the '
        'tree; all segments of up to two lit and two shaded pieces, with gaps, '
        'alone, in sides of up to three (thorough: four) segments and as '
        'grounds inside and beyond the extent; the objects of single '
        'instants; all splits of a simulation into consecutive chunks for '
        'reports, and of all sequences of up to six (thorough: seven) '
        'instants drawn from two states')
ASSUMPTIONS = ['sun above the horizon and not in the plane of the rows',
               'weighted means where the aggregated length is not zero']


def cases(tier):
    out = [dict(kind='mean', c=c, tier=tier) for c in space.configs(tier)]
    small = [space.cfg(1, cut={0: {'front': 2}}), space.cfg(2, 0.6),
             space.cfg(2, 0.6, cut={1: {'back': 2}})]
    for c in small:
        n = len(nodes_of(c))
        for i in range(n):
            out.append(dict(kind='update', c=c, first=i,
                            depth=3 if tier == 'thorough' else 2))
    for c in (space.cfg(2, 0.6), space.cfg(3, 0.4, cut={1: {'back': 3}})):
        out.append(dict(kind='report', c=c, n=6 if tier == 'quick' else 9))
    for kind in ('side', 'ground'):
        for first in PATTERNS:
            out.append(dict(kind='static', what=kind, first=list(first),
                            c={'cut': {}}, depth=4 if tier == 'thorough'
                            else 3))
    for c in small + [space.cfg(3, 0.4, cut={1: {'back': 3}})]:
        out.append(dict(kind='instants', c=c, tier=tier))
    out.append(dict(kind='merge', c={'cut': {}},
                    n=7 if tier == 'thorough' else 6))
    return out


def nodes_of(c):
    """Names of the nodes, with the names of the surfaces they cover: the
    model of the tree."""
    n = c['n_pvrows']
    cut = space.key_int(c['cut'])
    gs = ['gs%d.%d' % (e, k) for e in range(n) for k in range(n + 1)]
    gi = ['gi%d.%d' % (e, k) for e in range(n + 1) for k in range(n + 1)]
    nodes = {}
    rows = []
    for r in range(n):
        sides = []
        for side in ('front', 'back'):
            segs = []
            for k in range(cut.get(r, {}).get(side, 1)):
                s = 'r%d.%s.%d.' % (r, side, k)
                nodes[s + 'lit'] = [s + 'i']
                nodes[s + 'shaded'] = [s + 's']
                nodes[s + 'segment'] = [s + 'i', s + 's']
                segs += [s + 'i', s + 's']
            nodes['r%d.%s' % (r, side)] = segs
            sides += segs
        nodes['r%d' % r] = sides
        rows += sides
    nodes['gnd'] = gs + gi
    nodes['gnd.lit'] = gi
    nodes['gnd.shaded'] = gs
    for e in range(n):
        nodes['gnd.s%d' % e] = [x for x in gs if x.startswith('gs%d.' % e)]
    for e in range(n + 1):
        nodes['gnd.i%d' % e] = [x for x in gi if x.startswith('gi%d.' % e)]
    nodes['array'] = gs + gi + rows
    return nodes


def objects(pa):
    """The same nodes, and surfaces, in the real tree"""
    nodes, surf = {'array': pa, 'gnd': pa.ts_ground}, {}
    g = pa.ts_ground
    nodes['gnd.lit'], nodes['gnd.shaded'] = g.illum, g.shaded
    for e, el in enumerate(g.shadow_elements):
        nodes['gnd.s%d' % e] = el
        for k, s in enumerate(el.all_ts_surfaces):
            surf['gs%d.%d' % (e, k)] = s
    for e, el in enumerate(g.illum_elements):
        nodes['gnd.i%d' % e] = el
        for k, s in enumerate(el.all_ts_surfaces):
            surf['gi%d.%d' % (e, k)] = s
    for r, row in enumerate(pa.ts_pvrows):
        nodes['r%d' % r] = row
        for side in ('front', 'back'):
            sd = getattr(row, side)
            nodes['r%d.%s' % (r, side)] = sd
            for k, seg in enumerate(sd.list_segments):
                p = 'r%d.%s.%d.' % (r, side, k)
                nodes[p + 'segment'] = seg
                nodes[p + 'lit'], nodes[p + 'shaded'] = seg.illum, seg.shaded
                surf[p + 'i'], = seg.illum.list_ts_surfaces
                surf[p + 's'], = seg.shaded.list_ts_surfaces
    return nodes, surf


def run_case(case):
    res = Result()
    c = dict(case['c'])
    c['cut'] = space.key_int(c['cut'])
    return dict(mean=mean, update=update, report=report, static=static,
                instants=instants, merge=merge)[case['kind']](
        res, case, c)


def mean(res, case, c):
    tier = case['tier']
    sun = space.suns('quick')
    sun = sun[::4] if tier == 'quick' else sun
    states = space.rotate_sky([s for s in space.geo_states(c, tier, sun=sun)
                               if not space.near_edge(c, s)])
    n = len(states)
    eng = impl.make_engine(c, dict(kind='perez', module_transparency=0.2))
    impl.fit_engine(eng, states)
    eng.run_full_mode()
    pa = eng.pvarray
    model = nodes_of(c)
    nodes, surf = objects(pa)
    all_names = model['array']
    if sorted(surf) != sorted(all_names):
        res.problem('the tree of surfaces has another shape', config=c)
        return res
    for i, name in enumerate(all_names):
        surf[name].update_params(
            {'mark': np.sin(1.7 * i + 0.37 * np.arange(n)), 'const': 1. + i})
    # the order of the surfaces is the order of their indices
    mine = [surf[x] for x in sorted(surf, key=lambda x: surf[x].index)]
    ids = lambda ss: [id(s) for s in ss]
    if ids(pa.all_ts_surfaces) != ids(mine) or \
            list(pa.ts_surface_indices) != list(range(len(mine))) or \
            pa.n_ts_surfaces != len(mine):
        res.problem('surfaces of the array and their indices', config=c)
    length = {x: np.broadcast_to(surf[x].length, n) for x in surf}
    val = {p: {x: np.broadcast_to(np.asarray(surf[x].get_param(p), float), n)
               for x in surf} for p in ('qinc', 'qabs', 'rho', 'mark', 'const')}
    for name, members in model.items():
        obj = nodes[name]
        L = sum(length[x] for x in members)
        if name == 'array':
            continue
        if not np.allclose(obj.length, L, rtol=0, atol=1e-9):
            res.problem('length', node=name, config=c)
        if hasattr(obj, 'n_ts_surfaces') and \
                obj.n_ts_surfaces != len(members):
            res.problem('number of surfaces', node=name,
                        got=obj.n_ts_surfaces, want=len(members))
        if hasattr(obj, 'all_ts_surfaces') and \
                sorted(ids(obj.all_ts_surfaces)) != sorted(
                    ids(surf[x] for x in members)):
            res.problem('surfaces of a node', node=name)
        if hasattr(obj, 'shaded_length'):
            sh = sum((length[x] for x in members
                      if x.endswith('s') or x.startswith('gs')), np.zeros(n))
            if not np.allclose(obj.shaded_length, sh, rtol=0, atol=1e-9):
                res.problem('shaded length', node=name, config=c)
        if name.startswith('r') and name.count('.') == 0:
            continue
        for p in val:
            num = sum(np.where(length[x] > 0, length[x] * val[p][x], 0.)
                      for x in members)
            ok = L > 1e-6
            # surfaces without length may hold anything in the parameters
            # calculated by the engine, not in the ones set here
            got = np.broadcast_to(obj.get_param_weighted(p), n)
            gww = np.broadcast_to(obj.get_param_ww(p), n)
            w = np.where(ok, num / np.where(ok, L, 1.), np.nan)
            scale = 1. + np.abs(num) + np.nan_to_num(np.abs(w))
            if not (np.abs(got - w)[ok] < 1e-9 * scale[ok]).all() or \
                    not (np.abs(gww - num)[ok] < 1e-9 * scale[ok]).all():
                it = int(np.argmax(np.where(ok, ~(np.abs(got - w)
                                                  < 1e-9 * scale), False)))
                res.problem('weighted mean of %s' % p, node=name, config=c,
                            state=states[it], got=got[it], want=w[it])
            res.transitions += n
            res.outcome('means compared', ok.sum())
    for s in states:
        res.state(c, sorted(s.items()))
    res.traces += n
    return res


FIT = [dict(zen=20., az=80., tilt=30., surf_az=90.),
       dict(zen=75., az=280., tilt=60., surf_az=270.),
       dict(zen=80., az=95., tilt=10., surf_az=90.)]


def ops_of(nodes, surf, model):
    """Everything that updates parameters: (name, function, surfaces)"""
    out = []
    for name, members in model.items():
        if name in ('gnd.lit', 'gnd.shaded'):
            f = getattr(nodes['gnd'], 'update_illum_params' if name == 'gnd.lit'
                        else 'update_shaded_params')
            out.append((name, f, members))
            out.append((name + '.collection', nodes[name].update_params,
                        members))
        elif hasattr(nodes[name], 'update_params'):
            out.append((name, nodes[name].update_params, members))
    first = [x for x in model['array'] if x in ('gs0.0', 'gi1.0', 'r0.front.0.i',
                                                'r0.back.0.s')]
    out += [(x, surf[x].update_params, [x]) for x in first]
    return out


def update(res, case, c):
    pa = impl.pvarray(c, [dict(s, tilt=s['tilt']) for s in FIT])
    model = nodes_of(c)
    nodes, surf = objects(pa)
    ops = ops_of(nodes, surf, model)
    if case['first'] >= len(ops):
        return res
    for rest in itertools.product(range(len(ops)), repeat=case['depth'] - 1):
        seq = (case['first'],) + rest
        want = {x: None for x in surf}
        for s in surf.values():
            s.params.clear()
        for step, k in enumerate(seq):
            name, f, members = ops[k]
            f({'p%d' % (step % 2): 10. + step, 'q': step})
            for x in members:
                want[x] = dict(want[x] or {}, q=step,
                               **{'p%d' % (step % 2): 10. + step})
        got = {x: dict(s.params) or None for x, s in surf.items()}
        if got != want:
            x = next(x for x in want if got[x] != want[x])
            res.problem('update of parameters', config=c, surface=x,
                        got=got[x], want=want[x],
                        sequence=[ops[k][0] for k in seq])
        res.state(c, seq)
        res.transitions += len(seq)
        res.traces += 1
    res.outcome('sequences of updates', len(ops) ** (case['depth'] - 1))
    return res


def report(res, case, c):
    from pvfactors.report import ExampleReportBuilder
    from pvfactors.run import run_timeseries_engine
    import pandas as pd
    geo = [s for s in space.geo_states(c, 'quick') if not space.near_edge(c, s)]
    states = space.rotate_sky(geo[:: max(1, len(geo) // case['n'])][:case['n']])
    n = len(states)
    times = impl.stamps(n, step_h=3)

    def build(a, b):
        eng = impl.make_engine(c, dict(kind='perez'))
        impl.fit_engine(eng, states[a:b], times[a:b])
        rep = eng.run_full_mode(ExampleReportBuilder.build)
        return rep, eng.pvarray

    whole, pa = build(0, n)
    row = pa.ts_pvrows[1]
    for k, (side, p) in dict(qinc_front=('front', 'qinc'),
                             qinc_back=('back', 'qinc'),
                             iso_front=('front', 'isotropic'),
                             iso_back=('back', 'isotropic')).items():
        segs = getattr(row, side).list_segments
        ss = [s for g in segs for s in g.illum.list_ts_surfaces
              + g.shaded.list_ts_surfaces]
        w = sum(s.length * s.get_param(p) for s in ss) / sum(s.length
                                                             for s in ss)
        if k not in whole or not np.allclose(whole[k], w, rtol=1e-9):
            res.problem('report', column=k)
    for mask in range(2 ** (n - 1)):
        bounds = [0] + [i + 1 for i in range(n - 1) if mask >> i & 1] + [n]
        parts = [build(a, b)[0] for a, b in zip(bounds, bounds[1:])]
        merged = ExampleReportBuilder.merge(parts)
        for k in whole:
            if len(merged[k]) != n or not np.allclose(merged[k], whole[k],
                                                      rtol=1e-9, atol=1e-7):
                res.problem('merged report', column=k, bounds=bounds,
                            got=merged[k], want=whole[k])
        res.state(c, bounds)
        res.transitions += len(parts)
        res.traces += len(parts)
        res.outcome('splits')
    return res


# Pieces of a segment from 0 to 6: (start, end, shaded)
PIECES = [(), ((0, 6, 0),), ((0, 6, 1),), ((0, 2, 0), (2, 6, 1)),
          ((0, 1, 1), (1, 6, 0)), ((0, 1, 0), (1, 4, 1), (4, 6, 0)),
          ((0, 3, 1), (3, 4, 0), (4, 6, 1)), ((0, 2, 0), (2, 3, 0)),
          ((1, 2, 1), (2, 5, 1)), ((1, 3, 0), (4, 5, 1)),
          ((0, 1, 0), (1, 3, 0), (3, 4, 1), (4, 6, 1))]
PATTERNS = PIECES
EXTENTS = [None, (0., 6.), (-4., 8.), (1., 4.), (-1000., 1000.), (-3., 500.)]


def close(a, b):
    # cuts of lines keep a few 1e-8 m on either side
    return np.isclose(float(a), float(b), rtol=1e-6, atol=1e-6)


def compare(res, name, obj, surfaces, info, length=True):
    """An object of an instant against the surfaces it is made of"""
    for p in ('p', 'q'):
        vals = [(s.length, s.get_param(p)) for s in surfaces]
        num = sum(a * b for a, b in vals)
        L = sum(a for a, b in vals)
        gww = obj.get_param_ww(p)
        if not close(gww, num):
            res.problem('length times %s' % p, node=name, got=float(gww),
                        want=num, **info)
        if L > 1e-9:
            got = obj.get_param_weighted(p)
            if not close(got, num / L):
                res.problem('weighted mean of %s' % p, node=name,
                            got=float(got), want=num / L, **info)
        res.transitions += 2
    if length and not close(obj.length, L):
        res.problem('length', node=name, got=obj.length, want=L, **info)


def check_tree(res, root, name, info):
    """All nodes below a side, ground or segment; and updates of each"""
    from pvfactors.geometry.base import PVSegment
    segs = [root] if isinstance(root, PVSegment) else list(root.list_segments)
    every = [s for g in segs for s in g.all_surfaces]
    nodes = [(name, root, every)]
    for k, g in enumerate(segs):
        lit, sh = list(g.illum_collection.list_surfaces), \
            list(g.shaded_collection.list_surfaces)
        if any(s.shaded for s in lit) or not all(s.shaded for s in sh):
            res.problem('lit and shaded surfaces', node='%s.%d' % (name, k),
                        **info)
        nodes += [('%s.%d' % (name, k), g, lit + sh),
                  ('%s.%d lit' % (name, k), g.illum_collection, lit),
                  ('%s.%d shaded' % (name, k), g.shaded_collection, sh)]
    for k, s in enumerate(every):
        nodes.append(('%s surface %d' % (name, k), None, [s]))
    for i, s in enumerate(every):
        s.update_params({'p': 10. * 3 ** i, 'q': -1.5 + i})
    for label, obj, ss in nodes:
        if obj is not None and ss:
            compare(res, label, obj, ss, info)
    # updates of one and of two nodes, in every order
    for a in range(len(nodes)):
        for b in range(len(nodes)):
            for s in every:
                s.params.clear()
            want = {id(s): {} for s in every}
            for step, (label, obj, ss) in enumerate((nodes[a], nodes[b])):
                new = {'p': 2. + step, 'p%d' % step: 'x'}
                (ss[0] if obj is None else obj).update_params(new)
                for s in ss:
                    want[id(s)].update(new)
            for s in every:
                got = {k: v for k, v in s.params.items() if v is not None}
                if got != want[id(s)]:
                    res.problem('update of parameters', got=got,
                                want=want[id(s)],
                                nodes=[nodes[a][0], nodes[b][0]], **info)
            res.transitions += 2
    res.traces += 1


def static(res, case, c):
    from pvfactors.geometry.base import (PVSurface, ShadeCollection, PVSegment,
                                         BaseSide)
    from pvfactors.geometry.pvground import PVGround
    first = tuple(tuple(x) for x in case['first'])

    def surfaces(pattern, at, flat):
        out = []
        for a, b, sh in pattern:
            co = [(at + a, 0.), (at + b, 0.)] if flat else \
                [(.8 * (at + a), .6 * (at + a)), (.8 * (at + b),
                                                  .6 * (at + b))]
            out.append(PVSurface(co, shaded=bool(sh)))
        return out

    def segment(pattern, at):
        ss = surfaces(pattern, at, False)
        return PVSegment(
            illum_collection=ShadeCollection(
                list_surfaces=[s for s in ss if not s.shaded], shaded=False),
            shaded_collection=ShadeCollection(
                list_surfaces=[s for s in ss if s.shaded], shaded=True))

    if case['what'] == 'ground':
        for ext in EXTENTS:
            info = dict(pieces=first, extent=ext)
            ss = surfaces(first, 0, True)
            g = PVGround.from_lists_surfaces(
                [s for s in ss if s.shaded], [s for s in ss if not s.shaded],
                x_min_max=ext)
            if len(g.all_surfaces) != len(first):
                res.problem('surfaces of the ground', **info)
            if first:
                check_tree(res, g, 'ground', info)
            if not close(g.shaded_length, sum(b - a for a, b, sh in first
                                              if sh)):
                res.problem('shaded length', **info)
            # a flat ground, partly shaded
            g = PVGround.as_flat(x_min_max=ext, y_ground=0.)
            lo, hi = ext or (-100., 100.)
            want = 0.
            from shapely.geometry import LineString
            for a, b, sh in first:
                if sh:
                    g.cast_shadow(LineString([(a, 0.), (b, 0.)]))
                    want += max(0., min(b, hi) - max(a, lo))
            if not close(g.shaded_length, want):
                res.problem('shaded length of a flat ground',
                            got=g.shaded_length, want=want, **info)
            check_tree(res, g, 'flat ground', info)
            res.state(first, ext)
        res.outcome('grounds', len(EXTENTS))
        return res
    for depth in range(1, case['depth'] + 1):
        for rest in itertools.product(PATTERNS, repeat=depth - 1):
            pats = (first,) + rest
            if any(not p for p in pats[:-1]) and depth > 1:
                continue
            segs = [segment(p, 6 * k) for k, p in enumerate(pats)]
            info = dict(pieces=pats)
            side = BaseSide(segs)
            if any(pats):
                check_tree(res, side, 'side', info)
            if depth == 1 and first:
                check_tree(res, segs[0], 'segment', info)
            want = sum(b - a for p in pats for a, b, sh in p if sh)
            if not close(side.shaded_length, want):
                res.problem('shaded length', **info)
            res.state(pats)
            res.outcome('sides')
    return res


def instants(res, case, c):
    """Objects of single instants of a fitted array"""
    sun = space.suns('quick')[::6]
    states = [s for s in space.geo_states(c, 'quick', sun=sun)
              if not space.near_edge(c, s)]
    states = states[::max(1, len(states) // (60 if case['tier'] == 'quick'
                                             else 400))]
    pa = impl.pvarray(c, states)
    for it in range(len(states)):
        info = dict(config=c, state=states[it])
        for r, row in enumerate(pa.ts_pvrows):
            o = row.at(it)
            for side in ('front', 'back'):
                check_tree(res, getattr(o, side), 'row %d %s' % (r, side),
                           info)
        for cut in (True, False):
            for merge in (True, False):
                for ext in ((-2000., 2000.), (-50., 60.)):
                    g = pa.ts_ground.at(it, x_min_max=ext, with_cut_points=cut,
                                        merge_if_flag_overlap=merge)
                    check_tree(res, g, 'ground', dict(
                        info, extent=ext, cut_points=cut, merged=merge))
        res.state(c, sorted(states[it].items()))
    res.outcome('instants', len(states))
    return res


def merge(res, case, c):
    """Reports of all sequences drawn from two instants (equal instants in a
    row, as nights are), in all splits into consecutive chunks"""
    from pvfactors.report import ExampleReportBuilder
    cols = 'qinc_front', 'qinc_back', 'iso_front', 'iso_back'
    instant = [{k: 10. * i + 1 for i, k in enumerate(cols)},
               {k: 0. for k in cols}]

    def build(seq):
        return {k: [instant[x][k] for x in seq] for k in cols}

    for n in range(1, case['n'] + 1):
        for seq in itertools.product((0, 1), repeat=n):
            want = build(seq)
            for mask in range(2 ** (n - 1)):
                bounds = [0] + [i + 1 for i in range(n - 1)
                                if mask >> i & 1] + [n]
                got = ExampleReportBuilder.merge(
                    [build(seq[a:b]) for a, b in zip(bounds, bounds[1:])])
                if got != want:
                    res.problem('merged report', sequence=seq, bounds=bounds,
                                got=got, want=want)
                res.transitions += len(bounds) - 1
                res.traces += 1
                res.outcome('merges')
            res.state(seq)
    return res
