"""Missing inputs (not a number) in a timeseries."""
import itertools
import numpy as np
from mc import impl, space
from mc.core import Result
from mc.checks import p08, p12

ID = 'P28'
TITLE = 'A timestep with a missing input never gets a number'
RULE = ('all the subsets of missing inputs x places in the batch (first, '
        'middle, last, all of it, batch of one, scalars) x arrays x base '
        'states x sky models x loss functions x modes x ways to run: the '
        'irradiances of the surfaces, their averages over sides and '
        'ground are not numbers in these timesteps, nothing is raised, and '
        'the other timesteps are the ones of a run where nothing is missing')
ASSUMPTIONS = [
    'sun above the horizon in the base states',
    'isotropic, direct and other parts of the irradiance are not considered: '
    'they may not depend on the missing input',
    'surfaces that would have a length if nothing was missing',
    'in the full mode, a missing albedo alone may leave numbers where other '
    'ways to solve the same equations do (only the rest is checked then)']

FIELDS = ('dni', 'dhi', 'zen', 'az', 'tilt', 'surf_az', 'albedo')
SUBSETS = [s for k in range(1, len(FIELDS) + 1)
           for s in itertools.combinations(FIELDS, k)]
PLACES = ('first', 'middle', 'last', 'all', 'alone', 'scalar', 'run',
          'parallel')

CONFIGS = [space.cfg(1), space.cfg(3, 0.55, 1.5, 1., 37.5,
                                   {1: {'front': 2, 'back': 3}}),
           space.cfg(2, 0.4, 2., 1.8, 180., {0: {'back': 2}})]

BASES = [dict(dni=800., dhi=90., zen=40., tilt=30., side=90., rel=100.,
              albedo=.2),
         dict(dni=640., dhi=120., zen=72., tilt=60., side=90., rel=250.,
              albedo=.35),
         dict(dni=700., dhi=70., zen=81., tilt=55., side=270., rel=268.,
              albedo=.15),
         dict(dni=0., dhi=140., zen=65., tilt=20., side=270., rel=120.,
              albedo=.2),
         dict(dni=500., dhi=0., zen=10., tilt=0., side=90., rel=200.,
              albedo=.3)]

MODELS = [dict(kind='perez'), dict(kind='isotropic', rho_front=0.1),
          dict(kind='perez', faoi=('poly', 'root'), module_transparency=.1)]


def cases(tier):
    out = []
    for (i, c), (j, m), (k, p), mode in itertools.product(
            enumerate(CONFIGS), enumerate(MODELS), enumerate(PLACES),
            ('full', 'fast', 'fast segment')):
        if mode == 'fast segment' and (i != 1 or k % 2):
            continue
        for b in range(len(BASES)):
            if tier == 'quick' and (i + j + k + b) % 4:
                continue
            out.append(dict(c=i, model=j, place=p, mode=mode, base=b,
                            tier=tier))
    return out


def state(c, b):
    ax = c['axis_azimuth']
    return dict(dni=b['dni'], dhi=b['dhi'], zen=b['zen'], tilt=b['tilt'],
                albedo=b['albedo'], surf_az=(ax + b['side']) % 360,
                az=(ax + b['rel']) % 360)


class Everything(object):
    """Report: values of all surfaces, and averages"""

    @staticmethod
    def build(pa):
        n = pa.n_states
        out = {}
        for k, m in enumerate(impl.surfaces(pa)):
            for p in ('qinc', 'qabs', 'reflection', 'length'):
                if p == 'length':
                    v = m[5].length
                elif m[5].params.get(p) is None:
                    continue
                else:
                    v = m[5].get_param(p)
                out['surface %d %s' % (k, p)] = np.broadcast_to(
                    np.asarray(v, dtype=float), n).tolist()
        averaged = [('ground', pa.ts_ground)]
        for i, row in enumerate(pa.ts_pvrows):
            averaged += [('row %d front' % i, row.front),
                         ('row %d back' % i, row.back)]
            for j, seg in enumerate(row.back.list_segments):
                averaged.append(('row %d back segment %d' % (i, j), seg))
        for name, what in averaged:
            for p in ('qinc', 'qabs', 'reflection'):
                parts = what.all_ts_surfaces
                if any(s.params.get(p) is None for s in parts):
                    continue
                out['average %s %s' % (name, p)] = np.broadcast_to(
                    what.get_param_weighted(p), n).tolist()
        return out

    @staticmethod
    def merge(reports):
        return {k: sum((r[k] for r in reports), []) for k in reports[0]}


def run(c, model, mode, states, place):
    times = impl.stamps(len(states), step_h=7)
    idx = None if mode == 'full' else c['n_pvrows'] // 2
    seg = 1 if mode == 'fast segment' else None
    if place in ('run', 'parallel'):
        from pvfactors import run as pvrun
        from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
        col = impl.columns(states)
        kw = {k: v for k, v in model.items() if k not in ('kind', 'faoi')}
        if 'faoi' in model:
            kw.update(faoi_fn_front=p08.faoi, faoi_fn_back=p08.faoi)
        arg = dict(
            pvarray_parameters=dict(c, cut=space.key_int(c['cut'])),
            timestamps=times, dni=col['dni'], dhi=col['dhi'],
            solar_zenith=col['zen'], solar_azimuth=col['az'],
            surface_tilt=col['tilt'], surface_azimuth=col['surf_az'],
            albedo=col['albedo'], irradiance_model_params=kw,
            cls_irradiance=(IsotropicOrdered if model['kind'] == 'isotropic'
                            else HybridPerezOrdered),
            fast_mode_pvrow_index=idx, fast_mode_segment_index=seg)
        if 'faoi' in model:
            arg['vf_calculator_params'] = dict(
                faoi_fn_front=p08.faoi, faoi_fn_back=p08.faoi,
                n_aoi_integral_sections=20)
        if place == 'run':
            return pvrun.run_timeseries_engine(Everything.build, **arg)
        with p08.controlled():
            p08.ControlledPool.order = p08.Order([1, 0])
            return pvrun.run_parallel_engine(Everything, n_processes=2, **arg)
    vf = None
    if 'faoi' in model:
        from pvfactors.viewfactors import VFCalculator
        f = [p12.faoi(k) for k in model['faoi']]
        vf = VFCalculator(f[0], f[1], n_aoi_integral_sections=20)
    eng = impl.make_engine(c, model, vf=vf, irr=p12.model_of(model),
                           fast_mode_pvrow_index=idx,
                           fast_mode_segment_index=seg)
    if place == 'scalar':
        s = states[0]
        eng.fit(times[0], s['dni'], s['dhi'], s['zen'], s['az'], s['tilt'],
                s['surf_az'], s['albedo'])
    else:
        impl.fit_engine(eng, states, times)
    return (eng.run_full_mode if mode == 'full' else eng.run_fast_mode)(
        Everything.build)


def run_case(case):
    res = Result()
    c = dict(CONFIGS[case['c']])
    model = MODELS[case['model']]
    place, mode = case['place'], case['mode']
    base = state(c, BASES[case['base']])
    n = 1 if place in ('alone', 'scalar') else 4 if place == 'middle' else 3
    steps = [dict(base) for _ in range(n)]
    for i, b in enumerate(BASES[:n]):
        # other states around it
        if place in ('first', 'middle', 'last', 'run', 'parallel'):
            steps[i] = state(c, b)
    where = {'first': [0], 'middle': [1, 2], 'last': [n - 1], 'run': [1],
             'parallel': [n - 1]}.get(place, list(range(n)))
    for i in where:
        steps[i] = dict(base)
    whole = run(c, model, mode, [dict(s) for s in steps], place)
    subsets = SUBSETS
    for sub in subsets:
        states = [dict(s) for s in steps]
        for i in where:
            for f in sub:
                states[i][f] = float('nan')
        try:
            got = run(c, model, mode, states, place)
        except Exception as e:
            res.problem('exception with missing inputs: %s' % type(e).__name__,
                        error=str(e), missing=sub, case=case)
            continue
        if sorted(got) != sorted(whole):
            res.problem('other values in the report', missing=sub, case=case)
            continue
        for key in whole:
            if key.endswith('length'):
                continue
            for i in range(n):
                if i not in where:
                    if not np.allclose(got[key][i], whole[key][i], rtol=1e-9,
                                       atol=1e-9, equal_nan=True):
                        res.problem('a missing input changes another timestep',
                                    missing=sub, case=case, value=key,
                                    got=got[key][i], want=whole[key][i])
                elif sub == ('albedo',) and mode == 'full':
                    pass
                elif key.startswith('surface'):
                    ln = whole[key.rsplit(' ', 1)[0] + ' length'][i]
                    if ln > 1e-6 and np.isfinite(whole[key][i]) and \
                            not np.isnan(got[key][i]):
                        res.problem('a number without %s' % key.split()[-1],
                                    missing=sub, case=case, value=key,
                                    got=got[key][i])
                elif np.isfinite(whole[key][i]) and \
                        not np.isnan(got[key][i]):
                    res.problem('an average is a number although inputs are '
                                'missing', missing=sub, case=case, value=key,
                                got=got[key][i])
        res.state(case['c'], case['model'], place, mode, case['base'], sub)
        res.traces += 1
        res.transitions += n
        res.outcome('%d missing' % len(sub))
    return res
