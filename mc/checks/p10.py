"""The same timesteps, given in every accepted form."""
import copy
import itertools
import numpy as np
from mc import impl, space
from mc.core import Result
from mc.checks import p07

ID = 'P10'
TITLE = 'All accepted forms of the same inputs give the same results'
RULE = ('all combinations of forms (scalars or arrays, integers or floats, '
        'albedo as number or array, datetimes or index, missing or empty cut, '
        'functions or objects for the losses, entry point) x a set of '
        'timesteps with whole numbers; all the results are compared with the '
        'run on float arrays')
ASSUMPTIONS = ['numbers, numpy arrays of integers or floats, datetimes, '
               'DatetimeIndex (naive or with a time zone)']

CFGS = [space.cfg(3, 0.5, 2., 2., 0., {1: {'back': 2}}),
        space.cfg(2, 0.4, 3., 2., 90., {}), space.cfg(1, 0.4, 2., 1., 180., {})]

# whole numbers, so that integers are exact
STATES = [dict(tilt=t, surf_az=sa, zen=z, az=a, dni=d, dhi=h, albedo=0.25)
          for (t, z, a, d, h) in ((0, 0, 180, 900, 100), (0, 40, 90, 500, 100),
                                  (20, 70, 100, 800, 60), (60, 75, 95, 300, 90),
                                  (45, 30, 200, 0, 150), (90, 65, 265, 400, 80),
                                  (30, 80, 275, 250, 40), (5, 5, 5, 1000, 50),
                                  (120, 35, 250, 700, 200))
          for sa in (90, 270)]

MODELS = [dict(kind='perez', rho_front=0.1, module_transparency=0.2),
          dict(kind='isotropic')]


def cases(tier):
    out = []
    for ic in range(len(CFGS)):
        for im in range(len(MODELS)):
            for st in range(len(STATES)):
                out.append(dict(ic=ic, im=im, st=st, what='one'))
            out.append(dict(ic=ic, im=im, st=0, what='many'))
            out.append(dict(ic=ic, im=im, st=0, what='model'))
            for st in range(0, len(STATES), 3):
                out.append(dict(ic=ic, im=im, st=st, what='entry'))
    return out


def turn(c, s):
    """Turn a state, given for an axis of 0, to the axis of an array"""
    ax = int(c['axis_azimuth'])
    return dict(s, surf_az=(s['surf_az'] + ax) % 360, az=(s['az'] + ax) % 360)


def same(res, got, want, what, **kw):
    for k in want:
        if k not in got or got[k].shape != want[k].shape or not np.allclose(
                got[k], want[k], rtol=1e-9, atol=1e-9, equal_nan=True):
            res.problem('%s of the inputs changes %s' % (what, k), **kw)
            return
    if sorted(map(str, got)) != sorted(map(str, want)):
        res.problem('%s of the inputs changes what is available' % what, **kw)


def run(c, model, t, cols, mode, ghi=None):
    eng = impl.make_engine(c, model)
    eng.fit(t, cols['dni'], cols['dhi'], cols['zen'], cols['az'],
            cols['tilt'], cols['surf_az'], cols['albedo'], ghi=ghi)
    if mode == 'full':
        eng.run_full_mode()
    else:
        for r in range(c['n_pvrows']):
            eng.run_fast_mode(pvrow_index=r)
    return p07.collect(eng, mode, eng.n_points)


FORMS1 = ['scalar float', 'scalar int', 'scalar numpy', 'array int',
          'array int32', 'array mixed', 'array float32']


def convert(form, s):
    whole = {k: s[k] for k in ('dni', 'dhi', 'zen', 'az', 'tilt', 'surf_az')}
    if form == 'scalar float':
        out = {k: float(v) for k, v in whole.items()}
    elif form == 'scalar int':
        out = {k: int(v) for k, v in whole.items()}
    elif form == 'scalar numpy':
        out = {k: np.float64(v) for k, v in whole.items()}
    elif form == 'array int':
        out = {k: np.array([int(v)]) for k, v in whole.items()}
    elif form == 'array int32':
        out = {k: np.array([int(v)], dtype='int32') for k, v in whole.items()}
    elif form == 'array float32':
        out = {k: np.array([v], dtype='float32') for k, v in whole.items()}
    else:
        out = {k: np.array([int(v) if i % 2 else float(v)])
               for i, (k, v) in enumerate(sorted(whole.items()))}
    return out


def run_case(case):
    import pandas as pd
    res = Result()
    c, model = CFGS[case['ic']], MODELS[case['im']]
    if case['what'] == 'model':
        return sky_model(res, case, c, model)
    if case['what'] == 'entry':
        return entry(res, case, c, model)
    t0 = impl.stamps(1)[0]
    for mode in ('full', 'fast'):
        if case['what'] == 'one':
            s = turn(c, STATES[case['st']])
            ref_cols = {k: np.array([float(s[k])]) for k in impl.COLS}
            ghi = 0.9 * (s['dni'] * np.cos(np.deg2rad(s['zen'])) + s['dhi'])
            for g in (None, ghi, 0.):
                want = run(c, model, [t0], ref_cols, mode,
                           None if g is None else np.array([g]))
                for form, alb in itertools.product(FORMS1, (0, 1)):
                    cols = convert(form, s)
                    scalar = form.startswith('scalar')
                    cols['albedo'] = s['albedo'] if alb == 0 else \
                        np.array([s['albedo']])
                    gg = None if g is None else (g if scalar
                                                 else np.array([g]))
                    for t in ((t0,) if scalar else
                              ([t0], pd.DatetimeIndex([t0]), np.array([t0]))):
                        got = run(c, model, t, cols, mode, gg)
                        if 'float32' in form:
                            same32(res, got, want, form, state=s, cfg=c,
                                   mode=mode)
                        else:
                            same(res, got, want, 'form %r' % form, state=s,
                                 cfg=c, mode=mode, albedo=alb, ghi=g)
                        res.traces += 1
                        res.transitions += 1
                        res.outcome(form)
                        res.state(case['ic'], case['im'], case['st'], mode,
                                  form, alb, g is None, type(t).__name__)
            ends(res, case, c, model, s, mode)
        else:
            ss = [turn(c, s) for s in STATES]
            n = len(ss)
            times = impl.stamps(n)
            ref_cols = impl.columns(ss)
            want = run(c, model, times, ref_cols, mode)
            forms = {
                'int': {k: np.array([int(s[k]) for s in ss])
                        for k in impl.COLS if k != 'albedo'},
                'float': {k: v for k, v in ref_cols.items() if k != 'albedo'}}
            tforms = {'list': times, 'index': pd.DatetimeIndex(times),
                      'array': np.array(times),
                      'index with time zone': pd.DatetimeIndex(
                          times).tz_localize('Etc/GMT+5')}
            for (f, cols), (tf, t), alb in itertools.product(
                    forms.items(), tforms.items(), (0, 1, 2)):
                cols = dict(cols)
                cols['albedo'] = [0.25, ref_cols['albedo'],
                                  np.float64(0.25)][alb]
                got = run(c, model, t, cols, mode)
                same(res, got, want, 'form %s, times as %s' % (f, tf), cfg=c,
                     mode=mode, albedo=alb)
                res.traces += 1
                res.transitions += n
                res.outcome('%s %s' % (f, tf))
                res.state(case['ic'], case['im'], mode, f, tf, alb)
            layouts(res, case, c, model, ss, mode)
    return res


def ends(res, case, c, model, s, mode):
    """Values at the end of their range, as numbers or as arrays: none of them
    stands for a missing one"""
    t0 = impl.stamps(1)[0]
    base = {k: float(s[k]) for k in impl.COLS}
    base['ghi'] = 321.
    changes = [('albedo', 1), ('albedo', 1.), ('ghi', 0), ('ghi', 0.),
               ('dni', 0), ('dhi', 0), ('zen', 0), ('az', 0), ('az', 360)]
    if mode == 'fast':      # the full mode divides by the albedo
        changes += [('albedo', 0), ('albedo', 0.)]
    for k, v in changes:
        cols = dict(base, **{k: v})
        if k == 'dhi' and cols['dni'] == 0.:
            continue
        arr = {a: np.array([float(b)]) for a, b in cols.items()}
        want = run(c, model, [t0], arr, mode, arr['ghi'])
        got = run(c, model, t0, cols, mode, cols['ghi'])
        same(res, got, want, '%s of %r as number' % (k, v), state=s, cfg=c,
             mode=mode)
        arr[k] = v if k == 'albedo' else np.array([v])
        got = run(c, model, [t0], arr, mode, arr['ghi'])
        same(res, got, want, '%s of %r in arrays' % (k, v), state=s, cfg=c,
             mode=mode)
        res.traces += 2
        res.transitions += 2
        res.outcome('ends of ranges')
        res.state('ends', case['ic'], case['im'], case['st'], mode, k,
                  repr(v))


def layout(how, v):
    """The same numbers, in an array with another place in memory"""
    v = np.array(v, dtype=float)
    n = len(v)
    if how == 'read only':
        v.flags.writeable = False
        return v
    if how == 'every other':
        big = np.full(2 * n, 12345.)
        big[::2] = v
        return big[::2]
    if how == 'backwards':
        return v[::-1].copy()[::-1]
    if how == 'column of a table':
        return np.array([v, v + 1., v - 1.]).T.copy()[:, 0]
    if how == 'broadcast':
        return np.broadcast_to(v[:1], n) if (v == v[0]).all() else v
    return v.astype('int64') if (v == v.astype('int64')).all() else v


LAYOUTS = ['read only', 'every other', 'backwards', 'column of a table',
           'broadcast', 'int64']
COLS = ['dni', 'dhi', 'zen', 'az', 'tilt', 'surf_az', 'albedo', 'ghi']


def layouts(res, case, c, model, states, mode):
    """Arrays that are views, read only or shared between arguments.  After
    the run, they still have what they had"""
    n = len(states)
    times = impl.stamps(n)
    ghi = np.array([100. + 10. * i for i in range(n)])
    base = dict(impl.columns(states), ghi=ghi)
    want = run(c, model, times, base, mode, ghi)
    mixes = [[h] * len(COLS) for h in LAYOUTS]
    mixes += [[LAYOUTS[(i + j) % len(LAYOUTS)] for i in range(len(COLS))]
              for j in range(len(LAYOUTS))]
    for hows in mixes:
        cols = {k: layout(h, base[k]) for k, h in zip(COLS, hows)}
        before = {k: v.copy() for k, v in cols.items()}
        got = run(c, model, times, cols, mode, cols['ghi'])
        same(res, got, want, 'layout %s' % hows[0], cfg=c, mode=mode)
        for k in COLS:
            if not np.array_equal(cols[k], before[k]):
                res.problem('the run changed its inputs', which=k,
                            layout=hows, mode=mode)
        res.traces += 1
        res.transitions += n
        res.outcome('layout')
        res.state(case['ic'], case['im'], mode, hows)
    # one array given as several arguments
    for ka, kb in itertools.combinations(COLS, 2):
        cols = dict(base)
        shared = np.array([[0.25, 3., 55., 80., 12.][i % 5]
                           for i in range(n)])
        if 'albedo' in (ka, kb):
            shared = shared / 100.
        if 'tilt' in (ka, kb):
            shared = np.minimum(shared, 20.)
        for k in (ka, kb):
            cols[k] = shared.copy()
        want = run(c, model, times, cols, mode, cols['ghi'])
        cols[ka] = cols[kb] = shared
        before = shared.copy()
        got = run(c, model, times, cols, mode, cols['ghi'])
        same(res, got, want, 'one array for %s and %s' % (ka, kb), cfg=c,
             mode=mode)
        if not np.array_equal(shared, before):
            res.problem('the run changed its inputs', which=(ka, kb))
        res.traces += 1
        res.transitions += n
        res.outcome('shared arrays')
        res.state(case['ic'], case['im'], mode, ka, kb)


def same32(res, got, want, what, **kw):
    """Single precision inputs: same values up to single precision"""
    for k in want:
        if k in ('xy', 'vf', 'vf_aoi') or k not in got:
            continue
        if not np.allclose(got[k], want[k], rtol=2e-4, atol=2e-2,
                           equal_nan=True):
            res.problem('%s of the inputs changes %s' % (what, k), **kw)
            return


def content(model, pa):
    """All numbers of a fitted sky model, its own and those given to an array"""
    out = {}
    for k, v in vars(model).items():
        for kk, vv in (v.items() if isinstance(v, dict) else [('', v)]):
            if vv is None or callable(vv) or isinstance(vv, (str, dict)):
                continue
            out[k, kk] = np.atleast_1d(np.asarray(vv, dtype=float))
    for k in ('gnd_shaded', 'gnd_illum', 'pvrow_shaded', 'pvrow_illum',
              'sky_luminance'):
        out[k] = np.atleast_1d(np.asarray(getattr(model, k), dtype=float))
    model.transform(pa)
    for i, m in enumerate(model.get_full_ts_modeling_vectors(pa)):
        out['vectors', i] = np.asarray(m, dtype=float)
    vec = model.get_full_modeling_vectors(pa, 0)
    for i, m in enumerate(vec):
        out['vectors at', i] = np.asarray(m, dtype=float)
    for absorbed in (True, False):
        out['summed', absorbed] = np.asarray(
            model.get_summed_components(pa, absorbed=absorbed), dtype=float)
    for m in impl.surfaces(pa):
        for k, v in m[5].params.items():
            if v is not None:
                out['surface', m[5].index, k] = np.broadcast_to(
                    np.asarray(v, dtype=float), 1)
    return out


def sky_model(res, case, c, model):
    """A sky model fitted on numbers or on arrays of one number"""
    for st, losses, ghi in itertools.product(range(len(STATES)), (0, 1),
                                             (None, 333.)):
        s = turn(c, STATES[st])
        kw = dict(model)
        if losses:
            kw.update(faoi_fn_front=p07.faoi, faoi_fn_back=p07.faoi)
        t = impl.stamps(1)[0]
        want = None
        for form in ['array'] + [f for f in FORMS1 if f.startswith('scalar')]:
            m = impl.make_model(kw)
            cols = convert('array mixed' if form == 'array' else form, s)
            if form == 'array':
                cols = {k: v.astype(float) for k, v in cols.items()}
            scalar = form != 'array'
            for alb in ([0.25, np.array([0.25])] if scalar else
                        [np.array([0.25])]):
                m.fit(t if scalar else [t], cols['dni'], cols['dhi'],
                      cols['zen'], cols['az'], cols['tilt'], cols['surf_az'],
                      alb, ghi=ghi if scalar or ghi is None
                      else np.array([ghi]))
                got = content(m, impl.pvarray(c, [s]))
                if want is None:
                    want = got
                same(res, got, want, 'form %r (sky model)' % form, state=s,
                     cfg=c, ghi=ghi)
                res.traces += 1
                res.transitions += 1
                res.outcome('sky model, %s' % form)
                res.state('model', case['ic'], case['im'], st, losses, ghi,
                          form, np.isscalar(alb))
    return res


class Losses(object):
    """Object with a faoi method"""
    @staticmethod
    def faoi(aoi):
        return p07.faoi(aoi)


def entry(res, case, c, model):
    """Entry points and equivalent parameters"""
    from pvfactors import run as pvrun
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    from pvfactors.viewfactors import VFCalculator
    from pvfactors.engine import PVEngine
    cls = {'perez': HybridPerezOrdered,
           'isotropic': IsotropicOrdered}[model['kind']]
    s = turn(c, STATES[case['st']])
    ss = [s, turn(c, STATES[(case['st'] + 5) % len(STATES)])]
    times = impl.stamps(2)
    cols = impl.columns(ss)
    args = [cols[k] for k in ('dni', 'dhi', 'zen', 'az', 'tilt', 'surf_az',
                              'albedo')]
    params = {k: v for k, v in model.items() if k != 'kind'}
    base = dict(n_pvrows=c['n_pvrows'], pvrow_height=c['pvrow_height'],
                pvrow_width=c['pvrow_width'], axis_azimuth=c['axis_azimuth'],
                gcr=c['gcr'])
    array_forms = [dict(base, cut=impl.int_keys(c['cut'])),
                   dict(base, cut=impl.int_keys(c['cut']), extra='ignored'),
                   dict(base, cut=impl.int_keys(c['cut']),
                        axis_azimuth=int(c['axis_azimuth']),
                        pvrow_height=int(c['pvrow_height']),
                        pvrow_width=int(c['pvrow_width']))]
    if not c['cut']:
        array_forms.append(base)
    for mode in ('full', 'fast'):
        for losses in (None, p07.faoi, Losses, Losses()):
            ref = None
            kw = dict(params)
            vkw = {}
            if losses is not None:
                kw.update(faoi_fn_front=losses, faoi_fn_back=losses)
                vkw.update(faoi_fn_front=losses, faoi_fn_back=losses,
                           n_aoi_integral_sections=15)
            builds = []
            for af in array_forms:
                def report(pa):
                    return pa
                p = copy.deepcopy(af)
                kk = dict(irradiance_model_params=dict(kw),
                          vf_calculator_params=dict(vkw), cls_irradiance=cls)
                if mode == 'fast':
                    kk['fast_mode_pvrow_index'] = 0
                pa = pvrun.run_timeseries_engine(report, p, times, *args, **kk)
                builds.append(('run_timeseries_engine', pa))
                if p != af or kk['irradiance_model_params'] != kw or \
                        kk['vf_calculator_params'] != vkw:
                    res.problem('parameters were changed by the run')
                eng = PVEngine(OrderedPVArray.init_from_dict(p),
                               irradiance_model=cls(**kw),
                               vf_calculator=VFCalculator(**vkw),
                               fast_mode_pvrow_index=0)
                eng.fit(times, *args)
                eng.run_full_mode() if mode == 'full' else eng.run_fast_mode()
                builds.append(('engine', eng.pvarray))
            pa = OrderedPVArray(**dict(base, cut=impl.int_keys(c['cut'])))
            eng = PVEngine(pa, irradiance_model=cls(**kw),
                           vf_calculator=VFCalculator(**vkw))
            eng.fit(times, *args)
            eng.run_full_mode() if mode == 'full' else \
                eng.run_fast_mode(pvrow_index=0)
            builds.append(('constructor', eng.pvarray))
            for what, pa in builds:
                got = read(pa, mode)
                if ref is None:
                    ref = got
                for k in ref:
                    if k not in got or not np.allclose(
                            ref[k], got[k], rtol=1e-9, atol=1e-9,
                            equal_nan=True):
                        res.problem('%s gives another %s' % (what, k), cfg=c,
                                    model=model, mode=mode)
                        break
                res.traces += 1
                res.transitions += 1
                res.outcome(what)
            res.state(case['ic'], case['im'], case['st'], mode, str(losses)[:9])
            # the same losses, as function or object, give the same results
            key = 'none' if losses is None else 'losses'
            seen = _memo.setdefault((case['ic'], case['im'], case['st'], mode,
                                     key), ref)
            for k in seen:
                if not np.allclose(seen[k], ref[k], rtol=1e-9, atol=1e-9,
                                   equal_nan=True):
                    res.problem('losses given as %s change %s' % (losses, k))
                    break
    # default models of the engine
    eng = PVEngine(OrderedPVArray.init_from_dict(array_forms[0]))
    eng.fit(times, *args)
    eng.run_full_mode()
    d = read(eng.pvarray, 'full')
    pa = pvrun.run_timeseries_engine(lambda pa: pa, array_forms[0], times,
                                     *args)
    e = read(pa, 'full')
    if any(not np.allclose(d[k], e[k], equal_nan=True) for k in d):
        res.problem('default models differ between the entry points')
    # geometry from scalars
    one = OrderedPVArray.fit_from_dict_of_scalars(dict(
        array_forms[0], solar_zenith=s['zen'], solar_azimuth=s['az'],
        surface_tilt=s['tilt'], surface_azimuth=s['surf_az']))
    x = impl.Arrays(one, 1).xy[..., 0]
    y = impl.Arrays(impl.pvarray(c, [s]), 1).xy[..., 0]
    if x.shape != y.shape or not np.allclose(x, y, atol=1e-9):
        res.problem('an array fitted on scalars is another one', cfg=c, state=s)
    return res


_memo = {}


def read(pa, mode):
    out = {}
    n = pa.n_states
    for i, row in enumerate(pa.ts_pvrows):
        for side, sd in (('front', row.front), ('back', row.back)):
            for p in ('qinc', 'qabs', 'isotropic', 'reflection', 'direct',
                      'direct_absorbed'):
                if all(s.params.get(p) is not None for s in sd.all_ts_surfaces):
                    out['%d %s %s' % (i, side, p)] = np.broadcast_to(
                        sd.get_param_weighted(p), n)
    return out
