"""Sky model: what every surface receives from the sky, before reflections."""
import numpy as np
from mc import impl, ref, space
from mc.core import Result

ID = 'P12'
TITLE = 'Sky irradiance of every surface follows the transposition model'
RULE = ('models (isotropic and Perez, transparency, band angles, reflectivities,'
        ' with and without angle of incidence losses) x measured or calculated '
        'GHI x arrays x all orientations x all sun positions up to 89.9 '
        'degrees x skies of all eight Perez bins; compared with a scalar sky '
        'model and ray geometry')
ASSUMPTIONS = [
    'sun above the horizon and not in the plane of the rows, tilt below 180',
    'diffuse irradiance strictly positive (no Perez clearness otherwise)',
    'angle of incidence functions symmetric around the normal, as documented']

SKIES = [(0., 200., 0.2), (20., 300., 0.13), (100., 250., 0.35),
         (250., 200., 0.71), (450.5, 160., 0.05), (700., 110., 0.2),
         (880., 95., 0.3), (950., 60., 0.9), (1000., 35., 0.25),
         (5., 5., 0.11)]
ZENS = (0., 22.2, 57.8, 76.1, 84.9, 85.1, 88.8, 89.9)
MODELS = [
    dict(kind='perez'),
    dict(kind='perez', rho_front=0.12, rho_back=0.07, module_transparency=0.3,
         module_spacing_ratio=0.15, horizon_band_angle=11.),
    dict(kind='perez', module_spacing_ratio=0.4, horizon_band_angle=2.5,
         faoi=('poly', 'root')),
    dict(kind='isotropic', rho_front=0.05, rho_back=0.2,
         module_transparency=0.1, faoi=('root', None)),
    dict(kind='isotropic', module_spacing_ratio=0.6, module_transparency=0.5,
         faoi=(None, 'poly')),
    dict(kind='isotropic', faoi=('poly', 'root'), forms=(0, 1)),
    dict(kind='isotropic', faoi=('root', 'poly'), forms=(1, 0)),
    dict(kind='perez', module_spacing_ratio=0.2, faoi=('root', 'poly'),
         forms=(1, 0)),
    dict(kind='perez', faoi=('poly', 'root'), forms=(0, 1)),
    dict(kind='perez', faoi=(None, 'root'), forms=(0, 1)),
    dict(kind='perez', faoi=('poly', None), forms=(1, 0)),
    dict(kind='isotropic')]


def faoi(name):
    """Symmetric angle of incidence losses, angle from the surface plane"""
    if name is None:
        return None
    if name == 'one':
        return lambda a: np.ones_like(np.asarray(a, dtype=float))
    p = {'poly': 1., 'root': 0.35}[name]

    def fn(a):
        s = np.abs(np.sin(np.radians(np.asarray(a, dtype=float))))
        got = 0.15 + 0.8 * s ** p if name == 'root' else 0.05 + 0.9 * s * s
        # angles from the plane of a surface are between 0 and 180
        a = np.asarray(a, dtype=float)
        return np.where((a >= -1e-6) & (a <= 180. + 1e-6), got, np.nan)
    return fn


def cases(tier):
    cfgs = [space.cfg(1, 0.4, 1.5, 1., 0., {0: {'back': 3}}),
            space.cfg(2, 0.73, 2.2, 2.5, 37.5, {1: {'back': 2, 'front': 2}}),
            space.cfg(3, 0.55, 2.05, 1.9, 270.),
            space.cfg(3, 0.3, 5., 2., 180., {0: {'back': 3}, 2: {'back': 4}})]
    cfgs = cfgs + space.special('quick')
    if tier == 'thorough':
        cfgs = space.configs('thorough', rows=(1, 2, 3, 5)) + \
            space.special('thorough')
    return [dict(c=c, model=m, ghi=g, tier=tier) for c in cfgs for m in MODELS
            for g in (0, 1)]


class Module(object):
    """An object with a method for the losses"""

    def __init__(self, fn):
        self.faoi = fn


def model_of(model):
    kw = {k: v for k, v in model.items() if k not in ('kind', 'faoi', 'forms')}
    ff, fb = (Module(faoi(f)) if o and f else faoi(f) for f, o in zip(
        model.get('faoi', (None, None)), model.get('forms', (0, 0))))
    if ff is not None:
        kw['faoi_fn_front'] = ff
    if fb is not None:
        kw['faoi_fn_back'] = fb
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    cls = dict(isotropic=IsotropicOrdered, perez=HybridPerezOrdered)
    return cls[model['kind']](**kw)


def run_case(case):
    res = Result()
    c, model = dict(case['c']), case['model']
    c['cut'] = space.key_int(c['cut'])
    rel = space.RELAZ_Q if case['tier'] == 'quick' else space.RELAZ_T
    sun = [(0., 180.)] + [(z, r) for z in ZENS[1:] for r in rel]
    geo = [s for s in space.geo_states(c, 'quick', sun=sun)
           if not space.near_edge(c, s)]
    # almost flat rows in the last light
    geo += space.grazing_states(c)[::1 if case['tier'] == 'thorough' else 11]
    k = 5 if case['tier'] == 'quick' else len(SKIES)
    states = []
    for i, s in enumerate(geo):
        for j in range(k):
            d, h, a = SKIES[(i + 2 * j) % len(SKIES)] if k == 5 else SKIES[j]
            g = d * ref.cosd(s['zen']) + h
            if case['ghi']:
                g *= (0.8, 1.15)[(i + j) % 2]
            states.append(dict(s, dni=d, dhi=h, albedo=a, ghi=g))
    if model['kind'] == 'isotropic':
        # the sky is bright before the sun rises and after it sets
        night = [(z, q) for z in (90.2, 93., 101.) for q in (77., 290.)]
        for i, s in enumerate(space.geo_states(c, 'quick', sun=night)):
            h = (4., 31., 12.)[i % 3]
            states.append(dict(s, dni=0., dhi=h, albedo=(.2, .05)[i % 2],
                               ghi=h * (1., (.8, 1.15)[i % 2])[case['ghi']]))
    n = len(states)
    # through the year, at a pace that visits all months
    times = impl.stamps(n, step_h=29)
    pa = impl.pvarray(c, states)
    m = model_of(model)
    col = impl.columns(states)
    ghi = np.array([s['ghi'] for s in states])
    m.fit(times, col['dni'], col['dhi'], col['zen'], col['az'], col['tilt'],
          col['surf_az'], col['albedo'], ghi=ghi if case['ghi'] else None)
    m.transform(pa)
    perez = model['kind'] == 'perez'
    names = ['direct'] + (['circumsolar', 'horizon'] if perez else [])
    rho_f = model.get('rho_front', 0.01)
    rho_b = model.get('rho_back', 0.03)
    fns = [faoi(f) for f in model.get('faoi', (None, None))]
    thru = ref.through_modules(model)
    # the reference
    comps, skies, geoms, ab, whole = [], [], [], [], []
    for s, t in zip(states, times):
        comp, sky = ref.beam_components(model, s, t.timetuple().tm_yday)
        comps.append(comp)
        skies.append(sky)
        geoms.append(ref.Geometry(c, s['tilt'], s['surf_az'], s['zen'], s['az']))
        ca = ref.aoi_cos(s['tilt'], s['surf_az'], s['zen'], s['az'])
        from_plane = np.degrees(np.arcsin(abs(ca)))
        loss = {'gnd': (1. - s['albedo'],) * 2}
        for where, fn, rho in (('front', fns[0], rho_f), ('back', fns[1], rho_b)):
            loss[where] = (1. - rho,) * 2 if fn is None else (
                float(fn(from_plane)), float(fn(s['tilt'])))
        ab.append(loss)
        f = s['dni'] * max(0., ca) \
            + s['dhi'] * 0.5 * (1 + ref.cosd(s['tilt'])) \
            + s['ghi'] * s['albedo'] * 0.5 * (1 - ref.cosd(s['tilt']))
        beam = comp['front', True]['direct'] + \
            comp['front', True].get('circumsolar', 0.)
        circ = comp['gnd', True].get('circumsolar', 0.)
        whole.append({('gnd', True): s['ghi'],
                      ('gnd', False): s['dhi'] - circ * (1 - thru)
                      + comp['gnd', False]['direct'],
                      ('front', True): f,
                      ('front', False): f - (1 - thru) * beam,
                      ('back', True): 0., ('back', False): 0.})
        if perez:
            k3 = 1.041 * np.radians(s['zen']) ** 3
            eps = ((s['dhi'] + s['dni']) / s['dhi'] + k3) / (1 + k3)
            res.outcome('perez bin %d' % (1 + sum(eps >= b for b in
                                                  ref.PEREZ_BINS)))
    scale = 1. + np.array([s['dni'] + 20. * s['dhi'] for s in states])
    A = impl.Arrays(pa, n)
    want_irr = np.zeros((len(A.meta) + 1, n))
    want_abs = np.zeros((len(A.meta), n))
    rho_want = {'front': np.full(n, rho_f), 'back': np.full(n, rho_b),
                'gnd': col['albedo']}
    all_rho = np.ones((len(A.meta) + 1, n))
    all_whole = np.zeros((len(A.meta) + 1, n))
    for k, (kind, row, side, shaded, seg, surf) in enumerate(A.meta):
        where = 'gnd' if kind == 'gnd' else side
        exists = A.length[k] > 1e-6
        label = '%s %s' % (where, 'shaded' if shaded else 'lit')
        hidden = np.zeros(n)
        if perez and where == 'back':
            mids = 0.5 * (A.xy[k, :2] + A.xy[k, 2:]).T
            hidden = np.array([ref.horizon_shading(g, model, row, p)
                               for g, p in zip(geoms, mids)])
            exists = exists & np.isfinite(hidden)
            check(res, case, states, 'horizon_shd_pct', label, surf, n,
                  100. * hidden, exists, 1e-7 * np.full(n, 100.))
            check(res, case, states, 'horizon_unshaded', label, surf, n,
                  np.array([cm[where, True]['horizon'] for cm in comps]),
                  exists, 1e-9 * scale)
            for q in hidden[exists]:
                res.outcome('horizon band ' + ('all hidden' if q == 1 else
                                               'visible' if q == 0 else
                                               'partly hidden'))
        for name in names:
            v = np.array([cm[where, not shaded][name] for cm in comps])
            if name == 'horizon':
                v = v * (1. - hidden)
            check(res, case, states, name, label, surf, n, v, exists,
                  1e-9 * scale)
            va = v * np.array([x[where][1 if name == 'horizon' else 0]
                               for x in ab])
            check(res, case, states, name + '_absorbed', label, surf, n, va,
                  exists, 1e-9 * scale)
            want_irr[A.index[k]] += v
            want_abs[A.index[k]] += va
        rho = rho_want[where]
        check(res, case, states, 'rho', label, surf, n, rho, exists,
              np.full(n, 1e-12))
        check(res, case, states, 'inv_rho', label, surf, n, 1. / rho, exists,
              np.full(n, 1e-9))
        w = np.array([x[where, not shaded] for x in whole])
        check(res, case, states, 'total_perez', label, surf, n, w, exists,
              1e-9 * scale)
        all_rho[A.index[k]] = rho
        all_whole[A.index[k]] = w
        res.outcome('values of %s' % label, exists.sum())
    # the matrices used by the solver are in the order of the surfaces, and
    # have the sky at the end
    want_irr[-1] = skies
    all_whole[-1] = skies
    exists = np.zeros((len(A.meta) + 1, n), dtype=bool)
    exists[A.index] = A.length > 1e-6
    exists[-1] = True
    irr, rho, inv, tot = m.get_full_ts_modeling_vectors(pa)
    for name, got, w, t in (
            ('irradiance vector', irr, want_irr, 1e-9 * scale),
            ('reflectivity vector', rho, all_rho, 1e-12),
            ('inverse reflectivity vector', inv, 1. / all_rho, 1e-9),
            ('total irradiance vector', tot, all_whole, 1e-9 * scale)):
        compare(res, case, states, name, got, w, exists, t)
    compare(res, case, states, 'sum of sky components',
            m.get_summed_components(pa, absorbed=False), want_irr[:-1],
            exists[:-1], 1e-9 * scale)
    compare(res, case, states, 'sum of absorbed sky components',
            m.get_summed_components(pa, absorbed=True), want_abs,
            exists[:-1], 1e-9 * scale)
    for idx in (0, n // 2, n - 1):
        one = m.get_full_modeling_vectors(pa, idx)
        for a, b in zip(one, (irr, rho, inv, tot)):
            if not np.array_equal(np.asarray(a), b[:, idx], equal_nan=True):
                res.problem('vectors of one timestep differ', idx=idx)
    for name, key in (('gnd_illum', ('gnd', True)), ('gnd_shaded', ('gnd', False)),
                      ('pvrow_illum', ('front', True)),
                      ('pvrow_shaded', ('front', False))):
        compare(res, case, states, name,
                np.broadcast_to(getattr(m, name), n)[None, :],
                np.array([[x[key] for x in whole]]), np.ones((1, n), bool),
                1e-9 * scale)
    compare(res, case, states, 'sky_luminance',
            np.broadcast_to(m.sky_luminance, n)[None, :],
            np.array([skies]), np.ones((1, n), bool), 1e-9 * scale)
    for s in states:
        res.state(c['n_pvrows'], c['gcr'], sorted(model.items()), case['ghi'],
                  sorted(s.items()))
    res.transitions += n
    res.traces += n
    return res


def check(res, case, states, name, label, surf, n, want, exists, tol):
    got = surf.get_param(name)
    if got is None:
        res.problem('%s of a %s surface is missing' % (name, label))
        return
    got = np.broadcast_to(np.asarray(got, dtype=float), n)
    compare(res, case, states, '%s of a %s surface' % (name, label),
            got[None, :], want[None, :], exists[None, :], tol)


def compare(res, case, states, name, got, want, exists, tol):
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape:
        res.problem('shape of %s' % name, got=got.shape, want=want.shape)
        return
    bad = exists & ~(np.abs(got - want) <= tol)
    if bad.any():
        i, it = np.argwhere(bad)[0]
        res.problem(name, state=states[it], got=got[i, it], want=want[i, it],
                    cells=int(bad.sum()))
