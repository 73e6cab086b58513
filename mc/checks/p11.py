"""Frame invariance: rotations about the vertical, mirror images."""
import numpy as np
from mc import impl, space
from mc.core import Result

ID = 'P11'
TITLE = 'Results do not depend on the orientation of the frame of reference'
RULE = ('all arrays of a small alphabet x orientations x sun positions x all '
        'rotations of the whole scene by multiples of 15 degrees (azimuths '
        'wrapped or not), whole turns of single azimuths, axis directions, '
        'levels of the ground, azimuths of the surfaces on the same side of the '
        'axis, and mirror images')
ASSUMPTIONS = [
    'the mirror image and the opposite axis of several rows see another end '
    'of the ground (it is centered on the first row): 0.5 % tolerance there']

MODELS = [dict(kind='perez', module_spacing_ratio=0.1), dict(kind='isotropic')]


def arrays():
    return [space.cfg(1, 0.4, 1.5, 1., 0., {0: {'front': 3, 'back': 2}}),
            space.cfg(2, 0.55, 2., 2., 0., {1: {'back': 3}}),
            space.cfg(3, 0.4, 1.5, 1., 0., {0: {'back': 2}})]


TURNS_Q = [15. * k for k in range(1, 24)]
TURNS_T = [7.5 * k for k in range(1, 48)]


def cases(tier):
    out = []
    for ic in range(3):
        for im in range(2):
            for t in (TURNS_T if tier == 'thorough' else TURNS_Q):
                out.append(dict(ic=ic, im=im, turn=t, tier=tier, what='turn'))
            for what in ('whole turns', 'mirror', 'opposite axis', 'level',
                         'side'):
                out.append(dict(ic=ic, im=im, turn=0., tier=tier, what=what))
    return out


def states_of(c, tier):
    return space.rotate_sky([s for s in space.geo_states(
        c, tier, sun=space.suns(tier)[::3]) if not space.near_edge(c, s, 0.05)])


def coordinates(pa, c, n):
    y0 = c.get('y_ground', 0.)
    out = {}
    for kind, i, side, shaded, k, s in impl.surfaces(pa):
        for p in (s.b1, s.b2):
            key = ('xy', s.index, 'coordinate', p is s.b1)
            out[key + ('x',)] = np.broadcast_to(p.x, n)
            out[key + ('y',)] = np.broadcast_to(p.y - y0, n)
    return out


def run(c, model, states, times):
    eng = impl.make_engine(c, model)
    impl.fit_engine(eng, states, times)
    eng.run_full_mode()
    n = len(states)
    out = {}
    for i, row in enumerate(eng.pvarray.ts_pvrows):
        for side, sd in (('front', row.front), ('back', row.back)):
            out[i, side, 'shaded'] = np.broadcast_to(sd.shaded_length, n)
            for k, seg in enumerate(sd.list_segments):
                for p in ('qinc', 'isotropic', 'reflection'):
                    out[i, side, p, k] = np.broadcast_to(
                        seg.get_param_weighted(p), n)
    out.update(coordinates(eng.pvarray, c, n))
    out['gnd'] = np.broadcast_to(eng.pvarray.ts_ground.shaded_length, n)
    for r in range(c['n_pvrows']):
        eng.run_fast_mode(pvrow_index=r)
        for k, seg in enumerate(eng.pvarray.ts_pvrows[r].back.list_segments):
            out[r, 'back', 'fast', k] = np.broadcast_to(
                seg.get_param_weighted('qinc'), n)
    return out


_base = {}


def base(ic, im, tier):
    key = (ic, im, tier)
    if key not in _base:
        c = arrays()[ic]
        st = states_of(c, tier)
        _base[key] = (c, st, impl.stamps(len(st), step_h=17))
        _base[key] += (run(c, MODELS[im], st, _base[key][2]),)
    return _base[key]


def run_case(case):
    res = Result()
    c, st, times, want = base(case['ic'], case['im'], case['tier'])
    model = MODELS[case['im']]
    n = len(st)
    if case['what'] == 'turn':
        t = case['turn']
        c2 = dict(c, axis_azimuth=(c['axis_azimuth'] + t))
        for wrap in (True, False):
            s2 = [dict(s, surf_az=s['surf_az'] + t, az=s['az'] + t)
                  for s in st]
            if wrap:
                s2 = [dict(s, surf_az=s['surf_az'] % 360, az=s['az'] % 360)
                      for s in s2]
            compare(res, run(c2, model, s2, times), want, st, case,
                    lambda k: k, 1e-6)
            done(res, case, st, wrap)
    elif case['what'] == 'whole turns':
        for da, ds, dx in ((360, 0, 0), (0, 360, 0), (0, 0, 360),
                           (-360, 0, 0), (0, -360, 0), (0, 0, -360)):
            s2 = [dict(s, az=s['az'] + da, surf_az=s['surf_az'] + ds)
                  for s in st]
            c2 = dict(c, axis_azimuth=c['axis_azimuth'] + dx)
            compare(res, run(c2, model, s2, times), want, st,
                    dict(case, by=(da, ds, dx)), lambda k: k, 1e-6)
            done(res, case, st, (da, ds, dx))
    elif case['what'] == 'level':
        for y0 in (-3., 2.5, 100.):
            compare(res, run(dict(c, y_ground=y0), model, st, times), want,
                    st, dict(case, level=y0), lambda k: k, 1e-6)
            done(res, case, st, y0)
    elif case['what'] == 'side':
        # rows only turn around their axis: of the azimuth of their surfaces
        # only the side of the axis counts for where they are
        ax = c['axis_azimuth']
        for off in (0.5, 10., 45., 80., 100., 135., 170., 179.5):
            for turn in (0., 360., -360.):
                s2 = [dict(s, surf_az=turn + ax + (
                    off if (s['surf_az'] - ax) % 360. < 180. else -off))
                    for s in st]
                pa = impl.pvarray(c)
                cols = [np.array([s[k] for s in s2], dtype=float) for k in
                        ('zen', 'az', 'tilt', 'surf_az')]
                pa.fit(*cols)
                got = coordinates(pa, c, n)
                bad = [k for k in got
                       if not (np.abs(got[k] - want[k]) < 1e-6).all()]
                if bad:
                    it = int(np.argmax(np.abs(got[bad[0]] - want[bad[0]])))
                    res.problem('rows on the other side of their axis',
                                case=case, state=s2[it], was=st[it])
                done(res, case, st, (off, turn))
    else:
        # mirror image in a plane along the axis: rows and segments in
        # reverse order; an axis in the opposite direction also reverses them
        m = c['n_pvrows']
        c2 = dict(c, cut={m - 1 - i: v for i, v in c['cut'].items()})
        ax = c['axis_azimuth']
        if case['what'] == 'mirror':
            s2 = [dict(s, surf_az=(2 * ax - s['surf_az']) % 360,
                       az=(2 * ax - s['az']) % 360) for s in st]
        else:
            s2 = st
            c2['axis_azimuth'] = ax + 180.

        def mapped(k):
            if k == 'gnd':
                return k
            if len(k) == 3:
                return (m - 1 - k[0],) + k[1:]
            nk = c['cut'].get(k[0], {}).get(k[1], 1)
            return (m - 1 - k[0],) + k[1:3] + (nk - 1 - k[3],)
        compare(res, run(c2, model, s2, times), want, st, case, mapped,
                1e-6 if m == 1 else 5e-3)
        done(res, case, st, None)
    return res


def done(res, case, st, extra):
    res.outcome(case['what'])
    res.traces += len(st)
    res.transitions += len(st)
    for i in range(len(st)):
        res.state(case['ic'], case['im'], case['what'], case['turn'], i, extra)


def compare(res, got, want, st, case, mapped, rel):
    scale = np.maximum(1., np.array([s['dni'] + s['dhi'] for s in st]))
    for k in want:
        if k[0] == 'xy' and case['what'] in ('mirror', 'opposite axis'):
            continue
        g = got[mapped(k) if k[0] != 'xy' else k]
        if k == 'gnd':
            # shadows reaching an end of the ground differ in mirror images
            if rel < 1e-3 and not np.allclose(g, want[k], atol=1e-6):
                res.problem('%s changes the shadows' % case['what'], case=case)
                return
            continue
        tol = 1e-6 if k[2] in ('shaded', 'coordinate') else rel * scale
        bad = ~(np.abs(g - want[k]) <= tol)
        if bad.any():
            it = int(np.nonzero(bad)[0][0])
            res.problem('%s changes %s' % (case['what'], k[2]), case=case,
                        state=st[it], where=k, got=g[it], want=want[k][it])
            return
