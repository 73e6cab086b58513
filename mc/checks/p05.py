"""Full mode against an independent solution of the radiosity balance."""
import itertools
import numpy as np
from mc import impl, ref, space, fullref
from mc.core import Result

ID = 'P05'
TITLE = 'The full mode returns the unique equilibrium of reflections'
RULE = ('all arrays of the alphabet x all orientations x all sun positions x '
        'both sky models with and without transparency, going through the '
        'skies; the reference has its own view factors, sky model, horizon '
        'shading and linear solution')
ASSUMPTIONS = [
    'sun not in the plane of the rows, tilt below 180; sun above the horizon, '
    'or below it with diffuse light only and an isotropic sky',
    'reflectivities strictly positive (the implementation divides by them)',
    'some irradiance (otherwise there is no result for the timestep)']

MODELS = [dict(kind='perez'),
          dict(kind='perez', rho_front=0.12, rho_back=0.07,
               module_transparency=0.3, module_spacing_ratio=0.15,
               horizon_band_angle=11.),
          dict(kind='isotropic', rho_front=0.05, rho_back=0.2,
               module_transparency=0.1)]
MODELS_T = MODELS + [dict(kind='isotropic'),
                     dict(kind='perez', rho_front=0.5, rho_back=0.6,
                          horizon_band_angle=3.),
                     dict(kind='perez', module_spacing_ratio=0.4)]


def cases(tier):
    models = MODELS_T if tier == 'thorough' else MODELS
    out = [dict(c=c, model=m, tier=tier) for c in space.configs(tier)
           for m in models]
    # bright modules and ground close to each other: many bounces matter
    bright = [space.cfg(3, 0.9, 1.05, 2., 0.), space.cfg(
        2, 0.95, 0.55, 1., 37.5, {0: {'back': 2}, 1: {'front': 2}})]
    out += [dict(c=c, model=dict(kind=k, rho_front=0.93, rho_back=0.96),
                 albedo=0.97, tier=tier)
            for c in bright for k in ('perez', 'isotropic')]
    return out


def run_case(case):
    res = Result()
    c, model = dict(case['c']), case['model']
    c['cut'] = space.key_int(c['cut'])
    tier = case['tier'] if c['n_pvrows'] < 4 else 'quick'
    sun = space.suns(tier)
    if tier == 'quick':
        sun = sun[::3]
    low = space.grazing_states(c)[::1 if tier == 'thorough' else 7]
    states = space.rotate_sky([s for s in space.geo_states(c, tier, sun=sun)
                               if not space.near_edge(c, s)] + low)
    if model['kind'] == 'isotropic':
        # the sky is bright before the sun rises and after it sets
        night = [(z, r) for z in (90.2, 93., 101.) for r in (77., 290.)]
        states += [dict(s, dni=0., dhi=d, albedo=a) for (s, d, a) in zip(
            space.geo_states(c, 'quick', sun=night),
            itertools.cycle((4., 31., 12.)),
            itertools.cycle((0.2, 0.05, 0.4, 0.8)))]
    if 'albedo' in case:
        states = [dict(s, albedo=case['albedo']) for s in states]
    for b in range(0, len(states), 400):
        batch(res, c, model, states[b:b + 400])
    return res


PARAMS = ('direct', 'circumsolar', 'horizon', 'isotropic', 'reflection',
          'qinc', 'qabs', 'q0', 'rho')


def batch(res, c, model, states):
    n = len(states)
    times = impl.stamps(n, step_h=17)
    eng = impl.make_engine(c, model)
    impl.fit_engine(eng, states, times)
    got_pa = eng.run_full_mode(lambda pa: pa)
    if got_pa is not eng.pvarray:
        res.problem('the report is not built from the PV array')
    A = impl.Arrays(eng.pvarray, n)
    names = [p for p in PARAMS if model['kind'] == 'perez'
             or p not in ('circumsolar', 'horizon')]
    vals = {p: np.array([impl.param(m[5], p, n) for m in A.meta])
            for p in names}
    agg = [(i, side, {p: np.broadcast_to(sd.get_param_weighted(p), n)
                      for p in ('qinc', 'qabs', 'isotropic')})
           for i, row in enumerate(eng.pvarray.ts_pvrows)
           for side, sd in (('front', row.front), ('back', row.back))]
    for it, s in enumerate(states):
        sc, pos = A.scene_surfaces(it)
        want, F, scene, sky, geom = fullref.reference(
            c, model, s, times[it].timetuple().tm_yday, sc)
        if scene.max_lost > 1e-9:
            res.problem('surfaces leave a gap', state=s)
            continue
        scale = max(want['qinc'].max(), 1.)
        short = scale * (2e-6 + 1e-8 / scene.len)
        for p in names:
            d = np.abs(vals[p][pos, it] - want[p])
            if not (d <= short).all():
                k = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
                res.problem('%s of a surface' % p, state=s, config=c,
                            day=times[it].timetuple().tm_yday,
                            surface=name(sc[k]), got=vals[p][pos, it][k],
                            want=want[p][k])
                break
        for i, side, v in agg:
            mine = [k for k, x in enumerate(sc)
                    if x['row'] == i and x['side'] == side]
            ln = scene.len[mine]
            for p in v:
                w = (ln * want[p][mine]).sum() / ln.sum()
                if not abs(v[p][it] - w) < 1e-5 * scale:
                    res.problem('%s of a side' % p, state=s, config=c, row=i,
                                side=side, got=v[p][it], want=w)
        res.outcome('sun on %s' % geom.sunlit_side() if s['zen'] < 90. else
                    'sun below the horizon')
        res.outcome('shaded rows' if any(x['kind'] == 'row' and x['shaded']
                                         for x in sc) else 'no shaded row')
        res.state(c, s, sorted(model.items()))
    res.transitions += n
    res.traces += n


def name(x):
    from mc.checks.p04 import surface_name
    return surface_name(x)
