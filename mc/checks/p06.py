"""Fast mode: view factors, formula, and what is (not) calculated."""
import itertools
import numpy as np
from mc import impl, ref, space
from mc.core import Result

ID = 'P06'
TITLE = 'The fast mode returns the back side irradiance of the requested part'
RULE = ('all arrays of the alphabet x all rows x (all segments, or each one) x '
        'all ways to choose the row and segment (constructor, argument of '
        'the run, both) x all orientations x sun '
        'positions x models, and runs from parameters; the reference has its own view factors, sky '
        'model, horizon shading and transposition')
ASSUMPTIONS = [
    'sun not in the plane of the rows, tilt below 180; sun above the horizon, '
    'or below it with diffuse light only and an isotropic sky',
    'ground further than 100 m may count as ground or as sky',
    'row and segment indices counted from 0']

MODELS = [dict(kind='perez'),
          dict(kind='perez', rho_front=0.22, rho_back=0.1,
               module_transparency=0.25, module_spacing_ratio=0.2,
               horizon_band_angle=9.),
          dict(kind='isotropic', rho_front=0.15, module_transparency=0.1)]


def cases(tier):
    out = []
    cfgs = space.configs(tier)
    for i, c in enumerate(cfgs):
        for r in range(c['n_pvrows']):
            n_seg = c['cut'].get(r, {}).get('back', 1)
            for seg in [None] + list(range(n_seg)):
                if seg == 0 and n_seg == 1 and tier == 'quick':
                    continue
                for how in (0, 1, 2, 3):
                    if how == 3 and 'y_ground' in c:
                        continue
                    out.append(dict(c=c, row=r, seg=seg, how=how,
                                    with_ghi=(i + r + how) % 2 == 1,
                                    model=MODELS[(i + r + 2 * how + (seg or 0))
                                                 % len(MODELS)], tier=tier))
    return out


def run_case(case):
    res = Result()
    c = dict(case['c'])
    c['cut'] = space.key_int(c['cut'])
    tier = case['tier']
    model, r, seg = case['model'], case['row'], case['seg']
    if tier == 'quick':
        sun = space.suns(tier)[::5]
    else:
        sun = space.suns(tier)[::2]
    low = space.grazing_states(c)[::3 if tier == 'thorough' else 19]
    states = space.rotate_sky([s for s in space.geo_states(c, tier, sun=sun)
                               if not space.near_edge(c, s)] + low)
    if model['kind'] == 'isotropic':
        # the sky is bright before the sun rises and after it sets
        night = [(z, q) for z in (90.2, 93., 101.) for q in (77., 290.)]
        states += [dict(s, dni=0., dhi=d, albedo=a) for (s, d, a) in zip(
            space.geo_states(c, 'quick', sun=night),
            itertools.cycle((4., 31., 12.)),
            itertools.cycle((0.2, 0.05, 0.4, 0.8)))]
    for i, s in enumerate(states):
        s['ghi'] = s['dni'] * ref.cosd(s['zen']) + s['dhi']
        if case['with_ghi']:
            s['ghi'] *= (0.8, 1.1)[i % 2]
    n = len(states)
    times = impl.stamps(n, step_h=17)
    pa = None
    if case['how'] == 3:
        # a run from parameters
        from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
        from pvfactors.run import run_timeseries_engine
        col = impl.columns(states)
        got = pa = run_timeseries_engine(
            lambda pa: pa, {k: c[k] for k in (
                'n_pvrows', 'pvrow_height', 'pvrow_width', 'axis_azimuth',
                'gcr', 'cut')},
            times, *[col[k] for k in ('dni', 'dhi', 'zen', 'az', 'tilt',
                                      'surf_az', 'albedo')],
            cls_irradiance=(HybridPerezOrdered if model['kind'] == 'perez'
                            else IsotropicOrdered),
            irradiance_model_params={k: v for k, v in model.items()
                                     if k != 'kind'},
            fast_mode_pvrow_index=r, fast_mode_segment_index=seg,
            ghi=(np.array([s['ghi'] for s in states])
                 if case['with_ghi'] else None))
    elif case['how'] == 0:
        eng = impl.make_engine(c, model, fast_mode_pvrow_index=r,
                               fast_mode_segment_index=seg)
        impl.fit_engine(eng, states, times, with_ghi=case['with_ghi'])
        got = eng.run_fast_mode(lambda pa: pa)
    else:
        # arguments of the run win over the ones of the constructor
        kw = {}
        if case['how'] == 1:
            kw['fast_mode_pvrow_index'] = 0 if r else c['n_pvrows'] - 1
            if seg is not None:
                kw['fast_mode_segment_index'] = 0 if seg else 1
        eng = impl.make_engine(c, model, **kw)
        impl.fit_engine(eng, states, times, with_ghi=case['with_ghi'])
        got = eng.run_fast_mode(lambda pa: pa, pvrow_index=r,
                                segment_index=seg)
    if pa is None:
        pa = eng.pvarray
    if got is not pa:
        res.problem('the report is not built from the PV array')
    A = impl.Arrays(pa, n)
    todo = []
    for k, m in enumerate(A.meta):
        asked = m[0] == 'row' and m[1] == r and m[2] == 'back' and (
            seg is None or m[4] == seg)
        has = m[5].params.get('qinc') is not None
        if asked != has:
            res.problem('qinc is %s on row %s %s segment %s' % (
                'calculated' if has else 'not calculated', m[1], m[2], m[4]))
        if asked and has:
            todo.append(k)
    names = ('qinc', 'isotropic', 'reflection', 'reflection_gnd_shaded',
             'reflection_gnd_illum', 'reflection_pvrow_shaded',
             'reflection_pvrow_illum')
    vals = {p: np.array([impl.param(A.meta[k][5], p, n) for k in todo])
            for p in names}
    rho_front = model.get('rho_front', 0.01)
    thru = ref.through_modules(model)
    for it, s in enumerate(states):
        geom = ref.Geometry(c, s['tilt'], s['surf_az'], s['zen'], s['az'])
        sc, pos = A.scene_surfaces(it)
        scene = ref.Scene(geom, sc)
        comp, sky = ref.beam_components(model, s,
                                        times[it].timetuple().tm_yday)
        N = len(sc)
        gs = [j for j in range(N) if sc[j]['kind'] == 'gnd' and sc[j]['shaded']]
        gi = [j for j in range(N) if sc[j]['kind'] == 'gnd'
              and not sc[j]['shaded']]
        ps = [j for j in range(N) if sc[j]['kind'] == 'row' and sc[j]['shaded']]
        pi = [j for j in range(N) if sc[j]['kind'] == 'row'
              and not sc[j]['shaded']]
        circ = comp['gnd', True].get('circumsolar', 0.)
        front = s['dni'] * max(0., ref.aoi_cos(s['tilt'], s['surf_az'],
                                               s['zen'], s['az'])) \
            + s['dhi'] * 0.5 * (1 + ref.cosd(s['tilt'])) \
            + s['ghi'] * s['albedo'] * 0.5 * (1 - ref.cosd(s['tilt']))
        beam_front = comp['front', True]['direct'] + \
            comp['front', True].get('circumsolar', 0.)
        irr = dict(
            gnd_shaded=s['dhi'] - circ * (1 - thru)
            + comp['gnd', False]['direct'],
            gnd_illum=s['ghi'],
            pvrow_illum=front,
            pvrow_shaded=front - (1 - thru) * beam_front)
        for q, k in enumerate(todo):
            if k not in pos:
                continue
            x = pos.index(k)
            F = scene.view_factors(x)
            if abs(scene.lost) > 1e-9:
                res.problem('surfaces leave a gap', state=s)
                continue
            vf = A.meta[k][5].get_param('view_factors')
            tol = 1e-6 + 1e-8 / scene.len[x]
            want = dict(to_gnd_shaded=F[gs].sum(), to_gnd_illum=F[gi].sum(),
                        to_pvrow_shaded=F[ps].sum(),
                        to_pvrow_illum=F[pi].sum(), to_sky=F[N],
                        to_gnd_total=F[gs].sum() + F[gi].sum(),
                        to_pvrow_total=F[ps].sum() + F[pi].sum())
            far = scene.beyond      # ground beyond 100 m
            ok = True
            for p, w in want.items():
                got_vf = np.broadcast_to(vf[p], n)[it]
                slack = dict(to_gnd_illum=(0., far), to_gnd_total=(0., far),
                             to_sky=(-far, 0.)).get(p, (0., 0.))
                if not (w + slack[0] - tol <= got_vf <= w + slack[1] + tol):
                    res.problem('view factor %s' % p, state=s, config=c,
                                seg=A.meta[k][4], shaded=A.meta[k][3],
                                got=got_vf, want=w, far=far)
                    ok = False
            if not ok:
                continue
            got_vf = {p: float(np.broadcast_to(vf[p], n)[it]) for p in want}
            mid = 0.5 * (np.array(sc[x]['p']) + np.array(sc[x]['q']))
            own = dict(comp['back', not sc[x]['shaded']])
            if 'horizon' in own:
                own['horizon'] *= 1. - ref.horizon_shading(geom, model, r, mid)
            w = dict(
                reflection_gnd_shaded=got_vf['to_gnd_shaded'] * s['albedo']
                * irr['gnd_shaded'],
                reflection_gnd_illum=got_vf['to_gnd_illum'] * s['albedo']
                * irr['gnd_illum'],
                reflection_pvrow_shaded=got_vf['to_pvrow_shaded'] * rho_front
                * irr['pvrow_shaded'],
                reflection_pvrow_illum=got_vf['to_pvrow_illum'] * rho_front
                * irr['pvrow_illum'])
            w['reflection'] = sum(w.values())
            w['isotropic'] = got_vf['to_sky'] * sky
            w['qinc'] = w['reflection'] + w['isotropic'] + sum(own.values())
            scale = max(irr['gnd_illum'], 1.)
            for p in names:
                g = vals[p][q, it]
                if not abs(g - w[p]) < 1e-6 * scale:
                    res.problem('%s of a back surface' % p, state=s, config=c,
                                seg=A.meta[k][4], shaded=A.meta[k][3], got=g,
                                want=w[p])
                    break
            for p in want:
                if want[p] > 1e-9:
                    res.outcome(p)
        res.state(c, s, r, seg, sorted(model.items()))
    res.transitions += n
    res.traces += n
    return res
