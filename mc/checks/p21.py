"""No jumps at the critical angles of shading, visibility and orientation."""
import numpy as np
from mc import impl, ref, space
from mc.core import Result
from mc.events import lattice, locate, state_at

ID = 'P21'
TITLE = 'Irradiance has no jumps at critical angles'
RULE = ('along every sweep of the lattice (rotation of the rows, azimuth or '
        'elevation of the sun, tracking and backtracking of the sun) every '
        'critical angle of a list of geometric events is located by bisection '
        'to the precision of the machine: shading starting or ending on a row '
        'or on a segment, shadows on the ground meeting each other, the lines '
        'of the rows or the ends of the ground, rows flat or vertical, sun in '
        'the plane of the rows; the irradiance just before, at and just after '
        'each one agree. And jumps anywhere: intervals of sweeps are halved '
        'where the irradiance changes, until only jumps are left')
ASSUMPTIONS = [
    'sun at least half a degree above the horizon, tilt below 180',
    'jumps of the Perez model itself are left out: clearness bins and the '
    'negative diffuse irradiance set to zero',
    'agreement within what the slope of shadows at low sun allows']

EPS = 1e-6
JUMP, SMALL = 1., 2e-6      # W/m2, degrees


def cases(tier):
    if tier == 'thorough':
        shapes, rows = space.SHAPES_T, (1, 2, 3, 5)
    else:
        shapes, rows = space.SHAPES_Q, (1, 2, 3)
    suns = [(12., 60.), (48., 95.), (48., 250.), (75., 110.), (84., 281.),
            (30., 0.), (88.5, 265.)]
    rots = [0., 20., -35., 57., -80., 90., 115.]
    azs = [90., 270., 35., 200., 140.]
    if tier == 'thorough':
        suns += [(0., 180.), (60., 90.), (60., 270.), (66., 20.), (81., 80.),
                 (20., 330.), (87., 100.)]
        rots += [5., -12., 45., -45., -60., 73., -90., 150., -110.]
        azs += [0., 180., 100., 255., 310.]
    out = []
    k = 0
    for n in rows:
        for i, (g, h, w) in enumerate(shapes):
            cs = space.cuts(n)
            for kind in ('isotropic', 'perez'):
                base = [('rotation', s) for s in suns]
                base += [('azimuth', [r, z]) for r in rots
                         for z in (25., 63., 85.)]
                if kind == 'isotropic':
                    base += [('elevation', [r, a]) for r in rots for a in azs]
                    base += [('tracking', [f, a]) for f in (1., 0.8)
                             for a in azs]
                if tier == 'quick':
                    base = base[k % 2::2]
                # rows turned until the sun is exactly in their plane, or
                # exactly in front of them, at round angles
                base.append(('plane', [90., 1.]))
                base.append(('plane', [270., 0.5]))
                for sweep, arg in base:
                    k += 1
                    out.append(dict(
                        c=space.cfg(n, g, h, w, space.AXES_Q[k % 4],
                                    cs[k % len(cs)]),
                        kind=kind, sweep=sweep, arg=list(arg), tier=tier))
                    if sweep != 'plane' and (tier == 'thorough' or k % 3 == 0):
                        out.append(dict(out[-1], what='everywhere'))
    return out


def diffuse_signs(case, s, doy):
    f1, f2 = ref.perez_f1_f2(doy, s['zen'], s['dni'], s['dhi'])
    ca = ref.aoi_cos(s['tilt'], s['surf_az'], s['zen'], s['az'])
    b = max(ref.cosd(s['zen']), ref.cosd(85.))
    out = []
    for tl, k in ((s['tilt'], ca), (180. - s['tilt'], -ca)):
        out.append((1. - f1) * 0.5 * (1. + ref.cosd(tl))
                   + f1 * max(0., k) / b + f2 * ref.sind(tl) > 0)
    # the circumsolar comes from the side that faces the sun
    return out[0], out[1] if ca < 0 else out[0]


def run_case(case):
    res = Result()
    case = dict(case, c=dict(case['c'], cut=space.key_int(case['c']['cut'])))
    c = case['c']
    if case.get('what') == 'everywhere':
        return everywhere(res, case)
    points = locate(case)
    states, groups = [], []
    for t, names in points:
        trio = []
        if case['sweep'] == 'plane':
            # the sun at the complement of the rotation, or at the rotation,
            # when it is on the right side for that
            front = 'front' in names[0]
            lean = t if case['arg'][0] == 90. else -t
            if front == (lean > 0):
                case['zen'] = abs(t) if front else 90. - abs(t)
            else:
                continue
            if not 0. <= case['zen'] <= 89.5:
                continue
        for x in (t - EPS, t, t + EPS, t - 2 * EPS, t + 2 * EPS):
            s = state_at(case, x)
            if case['sweep'] == 'rotation' and x == 0.:
                # flat, with the surface azimuth of the other side as well
                other = dict(s, surf_az=(c['axis_azimuth'] - 90.) % 360)
                trio.append(len(states))
                states.append(other)
            if s['zen'] <= 89.5:
                trio.append(len(states))
                states.append(s)
        groups.append((t, names, trio))
    n = len(states)
    if not n:
        return res
    obs, doy = observe(case, states)
    signs = [diffuse_signs(case, s, doy) if case['kind'] == 'perez' else None
             for s in states]
    worst = 0.
    for t, names, idx in groups:
        res.state(sorted(case['c'].items()), case['sweep'], case['arg'],
                  case['kind'], names)
        if len(idx) < 2:
            continue
        if any(signs[i] != signs[idx[0]] for i in idx):
            res.outcome('left out: diffuse irradiance set to zero')
            continue
        z = max(states[i]['zen'] for i in idx)
        tol = 0.01 + 2e-4 / ref.cosd(z) ** 2
        res.outcome('critical angle: %s' % kind_of(names[0]))
        res.transitions += len(idx)
        for k, v in obs.items():
            d = v[idx].max() - v[idx].min()
            far = 0.
            if k.startswith('fast') and any('flat' in x for x in names):
                # the fast mode counts ground beyond the ends of the model
                # on the sides of a row that have a neighbour (documented):
                # these switch when the row goes through flat
                far = 300. * ((c['pvrow_height'] + c['pvrow_width']) / (
                    100. - c['n_pvrows'] * c['pvrow_width'] / c['gcr'])) ** 2
            worst = max(worst, d / (tol + far))
            if not d <= tol + far:
                res.problem('jump at a critical angle', observable=k, t=t,
                            events=names, sweep=case['sweep'],
                            arg=case['arg'], config=c, kind=case['kind'],
                            values=v[idx], states=[states[i] for i in idx],
                            tol=tol)
    res.outcome('cases with jumps above a tenth of the tolerance', worst > .1)
    res.traces += n
    return res


def observe(case, states):
    """Everything that must not jump"""
    c, n = case['c'], len(states)
    model = dict(kind=case['kind'], module_transparency=0.1, rho_front=0.1,
                 rho_back=0.15)
    eng = impl.make_engine(c, model)
    time = impl.stamps(1)[0]
    impl.fit_engine(eng, states, [time] * n)
    doy = time.timetuple().tm_yday
    obs = {}
    eng.run_full_mode()
    pa = eng.pvarray
    for r, row in enumerate(pa.ts_pvrows):
        for side, sd in (('front', row.front), ('back', row.back)):
            for p in ('qinc', 'qabs', 'isotropic', 'reflection'):
                obs['row %d %s %s' % (r, side, p)] = sd.get_param_weighted(p)
            for k, seg in enumerate(sd.list_segments):
                obs['row %d %s segment %d qinc' % (r, side, k)] = \
                    seg.get_param_weighted('qinc')
    gs = pa.ts_ground.all_ts_surfaces
    ln = np.array([np.broadcast_to(s.length, n) for s in gs])
    for p in ('qinc', 'isotropic', 'direct'):
        q = np.array([impl.param(s, p, n) for s in gs])
        obs['ground %s' % p] = np.where(ln > 0, ln * q, 0.).sum(0) / ln.sum(0)
    for r, row in enumerate(pa.ts_pvrows):
        eng.run_fast_mode(pvrow_index=r)
        obs['fast row %d back qinc' % r] = row.back.get_param_weighted('qinc')
    obs = {k: np.array(np.broadcast_to(v, n), dtype=float)
           for k, v in obs.items()}
    return obs, doy


def everywhere(res, case):
    """Jumps anywhere along a sweep, at critical angles or not: all intervals
    of a grid where something changes by more than JUMP are halved, until they
    are so small that only a jump is left"""
    c = case['c']
    ts = np.array(lattice(dict(case, tier='quick')))
    if case['tier'] == 'quick':
        ts = ts[::2]

    def evaluate(xs):
        out = []
        for i in range(0, len(xs), 600):
            states = [state_at(case, x) for x in xs[i:i + 600]]
            obs, doy = observe(case, states)
            v = np.array([obs[k] for k in sorted(obs)])
            if case['kind'] == 'perez':
                sg = [diffuse_signs(case, s, doy) for s in states]
            else:
                sg = [None] * len(states)
            out += [(v[:, j], sg[j]) for j in range(len(states))]
            names[:] = sorted(obs)
        return out
    names = []
    vals = evaluate(ts)
    res.transitions += len(ts)
    far = 300. * ((c['pvrow_height'] + c['pvrow_width']) / (
        100. - c['n_pvrows'] * c['pvrow_width'] / c['gcr'])) ** 2
    limit = np.array([JUMP + (far if k.startswith('fast') else 0.)
                      for k in names])
    active = [(ts[i], vals[i], ts[i + 1], vals[i + 1])
              for i in range(len(ts) - 1)]
    while active:
        keep = []
        for a, va, b, vb in active:
            if (np.abs(va[0] - vb[0]) > limit).any():
                if b - a < SMALL:
                    if va[1] != vb[1]:
                        res.outcome('left out: diffuse irradiance set to zero')
                        continue
                    k = int(np.argmax(np.abs(va[0] - vb[0]) / limit))
                    res.problem('jump', observable=names[k], t=a,
                                sweep=case['sweep'], arg=case['arg'], config=c,
                                kind=case['kind'],
                                values=[va[0][k], vb[0][k]],
                                states=[state_at(case, a), state_at(case, b)])
                    if len(res.problems) > 3:
                        return res
                else:
                    keep.append((a, va, b, vb))
        mids = [0.5 * (a + b) for a, _, b, _ in keep]
        active = []
        if mids:
            vm = evaluate(mids)
            for (a, va, b, vb), m, v in zip(keep, mids, vm):
                active += [(a, va, m, v), (m, v, b, vb)]
        res.transitions += len(mids)
        res.count('intervals halved', len(mids))
        for m in mids:
            res.state(sorted(c.items()), case['sweep'], case['arg'],
                      case['kind'], m)
    res.outcome('sweeps without a jump anywhere')
    res.traces += res.transitions
    return res


def kind_of(name):
    return ' '.join(w for w in name.split() if not any(
        ch.isdigit() for ch in w) and not w.startswith('('))
