"""Angle of incidence losses in the full mode."""
import itertools
import numpy as np
from mc import impl, ref, space, fullref
from mc.core import Result
from mc.checks import p12

ID = 'P15'
TITLE = 'Absorbed irradiance follows the angle of incidence loss functions'
RULE = ('pairs of loss functions x loss functions in the sky model or not x '
        'arrays x orientations x sun positions: every entry of the matrix of '
        'view factors with losses from a PV row surface is bracketed by the '
        'exact integrals over the angles seen from its middle, and the '
        'absorbed irradiance is rebuilt from independent components')
ASSUMPTIONS = [
    'sun above the horizon and not in the plane of the rows, tilt below 180',
    'loss functions symmetric around the normal, with values in [0, 1]',
    'view from the middle of the surface, integral in sections (documented)']

DEFAULT_SECTIONS = 300
PAIRS = [('poly', 'root'), ('root', 'poly'), ('one', 'one'), ('one', 'poly')]


def cases(tier):
    if tier == 'thorough':
        cfgs = [c for c in space.configs('quick')] + \
            space.configs('thorough', rows=(2, 3), shapes=space.SHAPES_T[3:])
        pairs = PAIRS
    else:
        cfgs = space.configs('quick', rows=(1, 2, 3))[::2] + [
            dict(c, few=13 if c.get("few") else 3)
            for c in space.special('quick') if c.get('few') or 'y_ground' in c]
        pairs = PAIRS[:2] + PAIRS[3:]
    out = []
    for i, c in enumerate(cfgs):
        for j, p in enumerate(pairs):
            # view factors with losses do not depend on the sky: once each
            out.append(dict(c=c, fn=p, sky=('same', 'none')[(i + j) % 2],
                            kind=('perez', 'isotropic')[(i + j // 2) % 2],
                            obj=(i + j) % 3 == 0, tier=tier,
                            n=(None, 1200, 1200, 77)[(i + 2 * j) % 4]))
        out.append(dict(c=c, fn=(None, None), sky=('poly', 'root'),
                        kind=('perez', 'isotropic')[i % 2], obj=False,
                        tier=tier))
    out.append(dict(refuse=1))
    return out + [dict(sandia=k) for k in range(0, 523, 40 if tier == 'quick'
                                                else 5)]


_CUM = {}


def cumulative(name):
    """Integral of faoi(a) * sin(a) / 2 from 0 to a (degrees)"""
    if name not in _CUM:
        x = np.linspace(0., 180., 360001)
        mid = 0.5 * (x[1:] + x[:-1])
        v = p12.faoi(name)(mid) * 0.5 * (np.cos(np.radians(x[:-1]))
                                         - np.cos(np.radians(x[1:])))
        _CUM[name] = (x, np.concatenate([[0.], np.cumsum(v)]))
    x, cum = _CUM[name]
    return lambda a: np.interp(np.clip(a, 0., 180.), x, cum)


class Thing(object):
    """An object with a method called faoi, like pvlib-based ones"""

    def __init__(self, fn):
        self.faoi = fn


def run_case(case):
    from pvfactors.viewfactors import VFCalculator
    res = Result()
    if 'sandia' in case:
        return sandia(res, case['sandia'])
    if 'refuse' in case:
        return refuse(res)
    c = dict(case['c'])
    c['cut'] = space.key_int(c['cut'])
    fn = case['fn']
    model = dict(kind=case['kind'], rho_front=0.12, rho_back=0.25,
                 module_transparency=0.2)
    if case['sky'] == 'same':
        model['faoi'] = fn
    elif case['sky'] != 'none':
        model['faoi'] = case['sky']
    sun = space.suns('quick')
    sun = sun[::7] if case['tier'] == 'quick' else sun[::4]
    low = space.grazing_states(c)
    low = low[::17] if case['tier'] == 'quick' else low[::5]
    states = space.rotate_sky([s for s in space.geo_states(
        c, 'quick', sun=sun) if not space.near_edge(c, s)] + low)
    n = len(states)
    times = impl.stamps(n, step_h=17)
    with_losses = fn[0] is not None
    if with_losses:
        f = [p12.faoi(k) for k in fn]
        if case['obj']:
            f = [Thing(k) for k in f]
        kw = {} if case['n'] is None else dict(
            n_aoi_integral_sections=case['n'])
        vfc = VFCalculator(faoi_fn_front=f[0], faoi_fn_back=f[1], **kw)
        cum = dict(front=cumulative(fn[0]), back=cumulative(fn[1]))
    else:
        vfc = VFCalculator()
    eng = impl.make_engine(c, model, vf=vfc, irr=p12.model_of(model))
    impl.fit_engine(eng, states, times)
    eng.run_full_mode()
    pa = eng.pvarray
    mat = pa.ts_vf_aoi_matrix
    A = impl.Arrays(pa, n)
    if mat.shape != (len(A.meta) + 1, len(A.meta) + 1, n):
        res.problem('shape of the matrix', got=mat.shape)
        return res
    qabs = np.array([impl.param(m[5], 'qabs', n) for m in A.meta])
    sec = 180. / (case.get('n') or DEFAULT_SECTIONS)
    # losses are taken in the middle of each section
    slack = 1e-5 + 0.1 * np.radians(sec) ** 2
    sky_fns = [p12.faoi(k) for k in model.get('faoi', (None, None))]
    base = {k: v for k, v in model.items() if k != 'faoi'}
    # surfaces without length neither give nor take any
    for k in range(len(A.meta)):
        gone = A.length[k] < 1e-9
        i = A.index[k]
        given = np.abs(mat[A.index, i][:, gone]) * A.length[:, gone]
        some = np.abs(mat[i][:, gone]).sum(0) + given.sum(0)
        if not (some < 1e-7).all():
            it = int(np.flatnonzero(gone)[np.argmax(~(some < 1e-7))])
            res.problem('view factors of a surface without length',
                        config=c, state=states[it], surface=A.meta[k][:5])
        res.outcome('surfaces without length', gone.sum())
    for it, s in enumerate(states):
        sc, pos = A.scene_surfaces(it)
        want, F, scene, sky, geom = fullref.reference(
            c, base, s, times[it].timetuple().tm_yday, sc)
        q0 = np.append(want['q0'], sky)
        ix = np.append(A.index[pos], len(A.meta))
        ca = ref.aoi_cos(s['tilt'], s['surf_az'], s['zen'], s['az'])
        from_plane = np.degrees(np.arcsin(abs(ca)))
        scale = max(q0.max(), want['qinc'].max(), 1.)
        for k, x in enumerate(sc):
            if x['kind'] == 'gnd' or scene.len[k] < 1e-5:
                continue
            side = x['side']
            rho = model['rho_front' if side == 'front' else 'rho_back']
            got = mat[ix[k], ix, it]
            bare = pa.ts_vf_matrix[ix[k], ix, it]
            if not (np.abs(bare - F[k]) < 1e-6 + 1e-8 / scene.len[k]).all():
                j = int(np.argmax(np.abs(bare - F[k])))
                res.problem('view factor without losses', state=s, config=c,
                            surface=label(sc, k), to=label(sc, j),
                            got=bare[j], want=F[k][j])
            if with_losses:
                lo, hi, ok = bracket(scene, geom, k, cum[side], sec,
                                     c.get('y_ground', 0.))
                if not ok:
                    res.outcome('not compared')
                    continue
                bad = ~((got >= lo - slack) & (got <= hi + slack))
                if bad.any():
                    j = int(np.argmax(bad))
                    res.problem('view factor with losses', state=s, config=c,
                                surface=label(sc, k), to=label(sc, j),
                                got=got[j], low=lo[j], high=hi[j])
                res.outcome('bracketed entries', (lo > 0).sum())
                res.outcome('entries equal to zero', (hi == 0).sum())
                tot = got.sum()
                if not lo.sum() - 10. * slack <= tot <= \
                        hi.sum() + 10. * slack:
                    res.problem('sum of view factors with losses', state=s,
                                surface=label(sc, k), got=tot)
            else:
                w = (1. - rho) * F[k]
                if not (np.abs(got - w) < 1e-6 + 1e-8 / scene.len[k]).all():
                    j = int(np.argmax(np.abs(got - w)))
                    res.problem('view factor with diffuse losses', state=s,
                                surface=label(sc, k), to=label(sc, j),
                                got=got[j], want=w[j])
                res.outcome('entries without loss functions', len(w))
            sf = sky_fns[0 if side == 'front' else 1]
            beam = (1. - rho) if sf is None else float(sf(from_plane))
            hor = (1. - rho) if sf is None else float(sf(s['tilt']))
            w = got.dot(q0) + beam * want['direct'][k]
            if case['kind'] == 'perez':
                w += beam * want['circumsolar'][k] + hor * want['horizon'][k]
            g = qabs[pos[k], it]
            if not abs(g - w) < scale * (1e-5 + 1e-8 / scene.len[k]):
                res.problem('absorbed irradiance', state=s, config=c,
                            surface=label(sc, k), got=g, want=w)
            res.outcome('absorbed on a %s %s' % (
                'shaded' if x['shaded'] else 'lit', side))
        res.state(c, sorted(s.items()), sorted(map(str, model.items())), fn)
    res.traces += n
    res.transitions += n
    # reflectivity that goes with the losses
    if with_losses:
        for is_back, k in ((False, fn[0]), (True, fn[1])):
            got = vfc.vf_aoi_methods.rho_from_faoi_fn(is_back)
            w = 1. - cumulative(k)(180.)
            if not abs(got - w) < 10. * slack:
                res.problem('reflectivity from losses', back=is_back, got=got,
                            want=w)
            res.outcome('reflectivities')
    return res


def refuse(res):
    """Losses that are no functions are refused; with the losses of one side
    only, losses are diffuse"""
    from pvfactors import PVFactorsError
    from pvfactors.viewfactors import VFCalculator
    from pvfactors.viewfactors.aoimethods import AOIMethods
    fn = p12.faoi('poly')
    things = [('function', fn), ('object', Thing(fn)), ('callable', Call(fn)),
              ('bad object', Thing(0.9)), ('number', 0.9), ('text', 'faoi'),
              ('list', [1., 0.5]), ('none', None)]
    for (na, a), (nb, b) in itertools.product(things, repeat=2):
        for direct in (True, False):
            good = ('function', 'callable') + (() if direct else ('object',))
            missing = not direct and 'none' in (na, nb)
            ok = missing or (na in good and nb in good)
            try:
                if direct:
                    m = AOIMethods(a, b, n_integral_sections=17)
                else:
                    m = VFCalculator(a, b, 17).vf_aoi_methods
            except PVFactorsError:
                m = 'refused'
            if (m == 'refused') == ok:
                res.problem('loss functions refused or accepted', front=na,
                            back=nb, calculator=not direct)
            elif ok and (m is None) != missing:
                res.problem('loss functions of one side', front=na, back=nb)
            elif ok and m is not None:
                want = 1. - cumulative('poly')(180.)
                for back in (False, True):
                    g = m.rho_from_faoi_fn(back)
                    if not abs(g - want) < 1e-2:
                        res.problem('reflectivity from losses', got=g,
                                    want=want)
            res.outcome('refused' if m == 'refused' else 'no losses' if
                        m is None else 'accepted')
            res.state('refuse', na, nb, direct)
            res.transitions += 1
            res.traces += 1
    return res


class Call(object):
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, a):
        return self.fn(a)


def sandia(res, k):
    """Loss functions of the modules of the Sandia database"""
    import pvlib
    from pvfactors.viewfactors.aoimethods import faoi_fn_from_pvlib_sandia
    table = pvlib.pvsystem.retrieve_sam('SandiaMod')
    name = table.columns[k % len(table.columns)]
    B = [float(table[name]['B%d' % i]) for i in range(6)]
    fn = faoi_fn_from_pvlib_sandia(name)
    ang = np.arange(0., 180.01, 0.5)
    x = np.abs(90. - ang)
    want = np.clip(sum(b * x ** i for i, b in enumerate(B)), 0., 1.)
    want[x >= 90.] = np.nan     # grazing rays: 0 or the value of the fit
    got = np.asarray(fn(ang))
    for form in (list(ang), ang.reshape(-1, 1)):
        g = np.asarray(fn(form)).reshape(-1)
        if not np.array_equal(g, got, equal_nan=True):
            res.problem('losses depend on the form of the angles', module=name)
    ok = ~np.isnan(want)
    if not (np.abs(got - want)[ok] < 1e-9).all():
        i = int(np.argmax(np.where(ok, np.abs(got - want), -1)))
        res.problem('losses of a module', module=name, angle=ang[i],
                    got=got[i], want=want[i])
    for a in (3., 45., 90., 170.):
        if not abs(float(fn(a)) - float(fn(180. - a))) < 1e-9:
            res.problem('losses are not symmetric', module=name, angle=a)
    for a in ang:
        res.state('sandia', name, a)
    res.outcome('module loss functions')
    res.transitions += len(ang)
    res.traces += len(ang)
    return res


def bracket(scene, geom, k, C, sec, y_ground=0.):
    """Bounds of the view factors with losses from surface k to all surfaces.

    Lower: exact integrals over what is seen.  Upper: one section more at each
    end.  The ground ends 100 m away, what is seen beyond may count or not."""
    N = len(scene.s)
    _, _, t, n = scene.frame(k)
    seen = {}
    beyond = 0.
    for a, b, j in scene.seen_from_center(k):
        if j == -2:
            if b - a > 1e-6:
                return None, None, False
            continue
        m = np.radians(0.5 * (a + b))
        if j == N and np.cos(m) * t[1] + np.sin(m) * n[1] < 0:
            beyond += C(b + sec) - C(a - sec)
            continue
        if j in seen and a > seen[j][-1][1] + 1e-9:
            seen[j].append([a, b])
        elif j in seen:
            seen[j][-1][1] = b
        else:
            seen[j] = [[a, b]]
    mid = 0.5 * (scene.P[k] + scene.Q[k])
    for x in (ref.X_MIN, ref.X_MAX):
        # end of the ground just below the plane of the surface
        d = np.array([x, y_ground]) - mid
        below = -float(d.dot(n))
        if below > 0:
            ang = np.degrees(np.arcsin(below / np.hypot(*d)))
            beyond += C(ang + sec) if ang < 30. else 0.
    lo = np.zeros(N + 1)
    hi = np.zeros(N + 1)
    for j, parts in seen.items():
        lo[j] = sum(C(b) - C(a) for a, b in parts)
        hi[j] = sum(C(b + sec) - C(a - sec) for a, b in parts)
    lo[N] -= beyond
    hi[N] += beyond
    return lo, hi, True


def label(sc, k):
    if k == len(sc):
        return 'sky'
    x = sc[k]
    return dict((a, x[a]) for a in ('kind', 'row', 'side', 'shaded', 'seg',
                                    'p', 'q'))
