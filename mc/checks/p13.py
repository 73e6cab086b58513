"""Laws of light exchange in full and fast modes: conservation, superposition,
monotonicity.  No reference model: only relations between real executions."""
import numpy as np
from mc import impl, ref, space
from mc.core import Result

ID = 'P13'
TITLE = 'Energy is conserved, light adds up, brighter surfaces never darken'
RULE = ('arrays x orientations x sun positions x both models; conservation and '
        'bounds on every execution, superposition over a lattice of (DNI, DHI) '
        'pairs, monotonicity along complete ladders of albedo, front and back '
        'reflectivity, transparency')
ASSUMPTIONS = [
    'sun above the horizon and not in the plane of the rows, tilt below 180',
    'reflectivities strictly between 0 and 1',
    'Perez: skies to which the model gives a positive luminance',
    'superposition holds for the isotropic model (Perez is not linear)']

LADDER = (0.004, 0.02, 0.3, 0.7, 0.95)
PAIRS = [(880., 95.), (0., 120.), (430.5, 310.), (700., 0.), (0., 0.3),
         (0.2, 0.), (0.004, 0.001)]


def cases(tier):
    cfgs = space.configs(tier)
    if tier == 'quick':
        cfgs = cfgs[::2] + [c for c in cfgs[1::2] if c.get('few')]
    return [dict(c=c, kind=k, tier=tier) for c in cfgs
            for k in ('isotropic', 'perez')]


def run_full(c, model, states, times):
    n = len(states)
    eng = impl.make_engine(c, model)
    impl.fit_engine(eng, states, times)
    eng.run_full_mode()
    A = impl.Arrays(eng.pvarray, n)
    out = {p: np.array([impl.param(m[5], p, n) for m in A.meta])
           for p in ('qinc', 'qabs', 'q0', 'isotropic', 'reflection', 'rho')}
    irr = 0.
    for comp in eng.irradiance.irradiance_comp:
        irr = irr + np.array([impl.param(m[5], comp, n) for m in A.meta])
    out['irr'] = irr
    out['len'] = A.length
    out['want rho'] = np.array(
        [[s['albedo'] for s in states] if m[0] == 'gnd' else
         np.full(n, model.get('rho_' + m[2], {'front': .01, 'back': .03}[m[2]]))
         for m in A.meta])
    out['sky'] = np.broadcast_to(eng.irradiance.sky_luminance, n)
    out['to_sky'] = eng.pvarray.ts_vf_matrix[A.index, -1, :]
    out['real'] = A.length > 1e-6
    return out


def run_fast(c, model, states, times, row):
    n = len(states)
    eng = impl.make_engine(c, model, fast_mode_pvrow_index=row)
    impl.fit_engine(eng, states, times)
    eng.run_fast_mode()
    back = eng.pvarray.ts_pvrows[row].back
    return np.array([np.broadcast_to(back.get_param_weighted(p), n)
                     for p in ('qinc', 'isotropic', 'reflection')])


def run_case(case):
    res = Result()
    c, kind = dict(case['c']), case['kind']
    c['cut'] = space.key_int(c['cut'])
    tier = case['tier'] if c['n_pvrows'] < 4 else 'quick'
    sun = space.suns(tier)
    sun = sun[::5] if tier == 'quick' else sun[::3]
    geo = [s for s in space.geo_states(c, tier, sun=sun)
           if not space.near_edge(c, s)]
    base = space.rotate_sky(geo)
    if kind == 'perez':
        # Perez gives a negative luminance to some skies (F1 above 1)
        base = [s for s in base if ref.perez_f1_f2(
            impl.DAY0.timetuple().tm_yday, s['zen'], s['dni'],
            s['dhi'])[0] < 0.95]
    n = len(base)
    times = impl.stamps(n, step_h=0)  # same day: same sky model
    for thru in (0., 0.35):
        model = dict(kind=kind, module_transparency=thru)
        laws(res, case, model, base, run_full(c, model, base, times))
    row = c['n_pvrows'] // 2
    # monotone ladders
    for what in ('albedo', 'rho_front', 'rho_back', 'module_transparency'):
        last = last_fast = None
        for v in LADDER:
            m = dict(kind=kind, rho_front=0.15, rho_back=0.1)
            st = base
            if what == 'albedo':
                st = [dict(s, albedo=v) for s in base]
            else:
                m[what] = v
            out = run_full(c, m, st, times)
            laws(res, case, m, st, out)
            if last is not None:
                d = np.where(out['real'], out['qinc'] - last, 0.)
                tol = 1e-7 * (1. + np.abs(last).max())
                if not d.min() > -tol:
                    k, it = np.unravel_index(np.argmin(d), d.shape)
                    res.problem('incident irradiance falls when %s rises'
                                % what, state=st[it], to=v, change=d[k, it])
                res.outcome('%s: %s' % (what, 'rises' if d.max() > tol
                                        else 'equal'))
            last = out['qinc']
            fast = run_fast(c, m, st, times, row)[0]
            # (with Perez, the fast mode mixes two sky models for the light on
            # the shaded front sides, which can come out negative at low sun)
            if last_fast is not None and (what == 'albedo' or (
                    what == 'rho_front' and kind == 'isotropic')):
                d = fast - last_fast
                if not d.min() > -1e-7 * (1. + np.abs(fast).max()):
                    it = int(np.argmin(d))
                    res.problem('fast mode irradiance falls when %s rises'
                                % what, state=st[it], to=v, change=d[it])
            last_fast = fast
            res.traces += n
            res.transitions += n
    # superposition
    if kind == 'isotropic':
        model = dict(kind=kind, rho_front=0.2, rho_back=0.1,
                     module_transparency=0.2, module_spacing_ratio=0.1)
        st = [dict(s, dni=1., dhi=0.) for s in base]
        unit_b = run_full(c, model, st, times)
        fast_b = run_fast(c, model, st, times, row)
        st = [dict(s, dni=0., dhi=1.) for s in base]
        unit_d = run_full(c, model, st, times)
        fast_d = run_fast(c, model, st, times, row)
        for dni, dhi in PAIRS:
            st = [dict(s, dni=dni, dhi=dhi) for s in base]
            both = run_full(c, model, st, times)
            tol = 1e-8 * (dni + dhi)
            for p in ('qinc', 'qabs', 'q0', 'isotropic', 'reflection'):
                w = dni * unit_b[p] + dhi * unit_d[p]
                bad = both['real'] & ~(np.abs(both[p] - w) < tol)
                if bad.any():
                    k, it = np.argwhere(bad)[0]
                    res.problem('%s is not the sum of its sources' % p,
                                state=st[it], got=both[p][k, it], want=w[k, it])
            f = run_fast(c, model, st, times, row)
            w = dni * fast_b + dhi * fast_d
            if not (np.abs(f - w) < tol).all():
                k, it = np.argwhere(~(np.abs(f - w) < tol))[0]
                res.problem('fast mode is not the sum of its sources',
                            state=st[it], got=f[k, it], want=w[k, it])
            res.traces += 2 * n
            res.transitions += 2 * n
        res.outcome('superpositions', len(PAIRS) * n)
    for s in base:
        res.state(c, kind, sorted(s.items()))
    return res


def laws(res, case, model, states, o):
    n = len(states)
    real = o['real']
    L = np.where(real, o['len'], 0.)
    z = lambda a: np.where(real, a, 0.)
    into = (L * z(o['irr'])).sum(0) + (L * z(o['to_sky'])).sum(0) * o['sky']
    kept = (L * z((1. - o['rho']) * o['qinc'])).sum(0)
    away = (L * z(o['to_sky'] * o['q0'])).sum(0)
    bad = ~(np.abs(into - kept - away) < 1e-6 * (1. + np.abs(into)))
    if bad.any():
        it = int(np.argmax(bad))
        res.problem('energy is not conserved', state=states[it], model=model,
                    incoming=into[it], absorbed=kept[it], escaped=away[it])
    tol = 1e-7 * (1. + np.abs(z(o['qinc'])).max())
    for what, d in (
            ('reflected light is negative', o['reflection']),
            ('less light than the sky sends', o['qinc'] - o['irr']
             - o['isotropic']),
            ('negative incident irradiance', o['qinc']),
            ('more light absorbed than received', o['qinc'] - o['qabs']),
            ('negative absorbed irradiance', o['qabs']),
            ('outgoing is not the reflected part of incident light',
             -np.abs(o['q0'] - o['want rho'] * o['qinc'])),
            ('reflectivity of a surface', -np.abs(o['want rho'] - o['rho']))):
        d = z(d)
        if not d.min() > -tol:
            k, it = np.unravel_index(np.argmin(np.where(np.isnan(d), -np.inf,
                                                        d)), d.shape)
            res.problem(what, state=states[it], model=model, by=d[k, it])
    res.outcome('balances', n)
    res.traces += n
    res.transitions += n
