"""Sky models, calculators, arrays and engines written by the user."""
import itertools
import copy
import numpy as np
from mc import impl, ref, space
from mc.core import Result
from mc.checks import p08

ID = 'P27'
TITLE = 'Models and classes written by the user are the ones used'
RULE = ('(1) a sky model that lights one surface at a time, every surface of '
        'the array in turn, with every list of components and reflectivities '
        'of each surface: as the calculation is linear, this decides all sky '
        'models of that interface for the array and position; equilibrium '
        'solved with view factors of the reference; (2) the same in the fast '
        'mode, one of its five irradiances at a time; (3) all subsets of '
        '{array, engine, sky model, view factor calculator} replaced by a '
        'class of the user x parameters x modes x serial or parallel, '
        'against an engine put together by hand')
ASSUMPTIONS = [
    'the sky model derives from BaseModel and sets its components, rho and '
    'inv_rho on all the surfaces in transform, as the two models of the '
    'package do',
    'sun above the horizon and not in the plane of the rows, tilt below 180']

COMPONENTS = [(), ('lamp',), ('lamp', 'glow'), ('glow', 'mist', 'lamp')]
ABSORBED = [(), ('lamp_in',), ('lamp_in', 'glow_in', 'mist_in')]
RHOS = ['equal', 'by surface', 'dark rows', 'white rows', 'by time']


def make_sky(comps, absorbed, table, sky, rho, fast):
    """A sky model given by tables: table[component][k] is the irradiance of
    surface number k (in the order of all_ts_surfaces), at all times."""
    from pvfactors.irradiance.base import BaseModel

    class TableSky(BaseModel):
        params = ['rho', 'inv_rho', 'isotropic', 'reflection'] + list(
            comps) + list(absorbed)
        cats = ['anything']
        irradiance_comp = list(comps)
        irradiance_comp_absorbed = list(absorbed)

        def __init__(self):
            self.calls = []
            self.albedo = None
            self.rho_front = fast.get('rho_front')
            self.rho_back = 0.3

        def fit(self, timestamps, DNI, DHI, solar_zenith, solar_azimuth,
                surface_tilt, surface_azimuth, albedo, ghi=None):
            self.albedo = albedo
            self.fitted = dict(
                timestamps=timestamps, dni=DNI, dhi=DHI, zen=solar_zenith,
                az=solar_azimuth, tilt=surface_tilt, surf_az=surface_azimuth,
                albedo=albedo, ghi=ghi)

        def transform(self, pvarray):
            n = pvarray.n_states
            for k, s in enumerate(pvarray.all_ts_surfaces):
                p = {c: table[c][k] for c in comps + absorbed}
                p['rho'] = rho[k] * np.ones(n)
                p['inv_rho'] = 1. / p['rho']
                p['total_perez'] = np.zeros(n)
                s.update_params(p)

        def get_full_ts_modeling_vectors(self, pvarray):
            irr, rh, inv, tot = self.get_ts_modeling_vectors(pvarray)
            one = np.ones(pvarray.n_states)
            return (np.array(irr + [sky]), np.array(rh + [one]),
                    np.array(inv + [one]), np.array(tot + [sky]))

        def get_full_modeling_vectors(self, pvarray, idx):
            return tuple(m[:, idx]
                         for m in self.get_full_ts_modeling_vectors(pvarray))

        @property
        def gnd_shaded(self):
            return fast['gnd_shaded']

        @property
        def gnd_illum(self):
            return fast['gnd_illum']

        @property
        def pvrow_shaded(self):
            return fast['pvrow_shaded']

        @property
        def pvrow_illum(self):
            return fast['pvrow_illum']

        @property
        def sky_luminance(self):
            return fast['sky_luminance']

    return TableSky()


FAST = ('gnd_shaded', 'gnd_illum', 'pvrow_shaded', 'pvrow_illum',
        'sky_luminance')

CUSTOM = ('pvarray', 'engine', 'irradiance', 'vf')


def cases(tier):
    out = []
    cfgs = space.configs('quick', rows=(1, 2, 3)) + \
        [dict(c, few=17) for c in space.special('quick') if 'few' in c]
    if tier == 'thorough':
        cfgs += space.configs('thorough', rows=(2, 4),
                              shapes=space.SHAPES_T[3:])
    for i, c in enumerate(cfgs):
        for j, comps in enumerate(COMPONENTS):
            if tier == 'quick' and (i + j) % 4 and c['n_pvrows'] > 2:
                continue
            out.append(dict(full=c, comps=comps,
                            absorbed=ABSORBED[(i + j) % len(ABSORBED)],
                            rho=RHOS[(i + 2 * j) % len(RHOS)], tier=tier))
        for r in range(c['n_pvrows']):
            if tier == 'quick' and c['n_pvrows'] > 5 and r % 5:
                continue
            n_seg = space.key_int(c['cut']).get(r, {}).get('back', 1)
            for seg in [None] + list(range(min(n_seg, 4))):
                if seg == 0 and n_seg == 1:
                    continue
                out.append(dict(fast=c, row=r, seg=seg,
                                comps=COMPONENTS[(i + r + (seg or 0)) % 4],
                                tier=tier))
    for who in itertools.product((0, 1), repeat=4):
        for mode in ('full', 'fast', 'fast segment'):
            for params in (0, 1):
                out.append(dict(who=who, mode=mode, params=params))
    return out


def run_case(case):
    if 'full' in case:
        return one_surface_at_a_time(case)
    if 'fast' in case:
        return fast_mode(case)
    return classes(case)


def few_states(c, tier):
    sun = space.suns('quick')
    sun = sun[::5] if tier == 'quick' else sun[::2]
    states = [s for s in space.geo_states(dict(c, few=1), 'quick', sun=sun)
              if not space.near_edge(c, s)]
    step = c.get('few', 1)
    return states[::step]


def repeat(states, times):
    return [dict(s, dni=700. + i, dhi=80., albedo=0.1 + 0.001 * (i % 50),
                 ghi=500.) for s in states for i in range(times)]


def reflectivities(kind, meta, n, albedo):
    """Of each surface (in the order of meta), scalar or by time"""
    out = []
    for k, m in enumerate(meta):
        if m[0] == 'gnd':
            r = {'equal': 0.2, 'by surface': 0.1 + 0.05 * (k % 7)}.get(
                kind, albedo)
        else:
            front = m[2] == 'front'
            r = {'equal': 0.2, 'by surface': 0.07 + 0.11 * (k % 6),
                 'dark rows': 1e-3 if front else 2e-3,
                 'white rows': 0.9 if front else 0.8,
                 'by time': np.linspace(0.03, 0.6, n)[::1 if front else -1]
                 }[kind]
        out.append(r)
    return out


def one_surface_at_a_time(case):
    res = Result()
    c = dict(case['full'])
    c['cut'] = space.key_int(c['cut'])
    comps, absorbed = tuple(case['comps']), tuple(case['absorbed'])
    pa = impl.pvarray(c)
    geo = few_states(c, case['tier'])
    # one step for each surface lit alone, one for the sky, one for all
    probe = impl.pvarray(c, fit=geo)
    S = len(probe.all_ts_surfaces)
    states = repeat(geo, S + 2)
    n = len(states)
    alone = np.arange(n) % (S + 2)
    sky = np.where(alone == S, 130., np.where(alone == S + 1, 90., 0.))
    table = {}
    for q, name in enumerate(comps + absorbed):
        table[name] = np.zeros((S, n))
        for k in range(S):
            table[name][k, alone == k] = 100. * (q + 1) + k
            table[name][k, alone == S + 1] = 10. * (q + 2) + 3. * k
    # surfaces are numbered by their index
    meta = impl.surfaces(probe)
    order = np.argsort([m[5].index for m in meta])
    meta = [meta[i] for i in order]
    by_index = {m[5].index: k for k, m in enumerate(meta)}
    place = [by_index[s.index] for s in probe.all_ts_surfaces]
    albedo = np.array([s['albedo'] for s in states])
    rho = reflectivities(case['rho'], meta, n, albedo)
    rho = np.array([np.broadcast_to(r, n) for r in rho])      # by index
    rho_all = rho[place]
    model = make_sky(comps, absorbed, table, sky, rho_all, {})
    from pvfactors.engine import PVEngine
    eng = PVEngine(pa, irradiance_model=model)
    times = impl.stamps(n)
    impl.fit_engine(eng, states, times)
    report = eng.run_full_mode(fn_build_report=lambda x: (x, 'report'))
    if report != (eng.pvarray, 'report'):
        res.problem('what the report builder returned was not returned')
    if eng.irradiance is not model:
        res.problem('the sky model is another one')
    for k, v in impl.columns(states).items():
        if not np.array_equal(model.fitted[k], v):
            res.problem('%s was not given to the sky model' % k)
    A = impl.Arrays(pa, n)
    names = ('qinc', 'q0', 'qabs', 'isotropic', 'reflection')
    row_of = [place.index(by_index[i]) for i in A.index]   # into the table
    vals = {p: np.array([impl.param(m[5], p, n) for m in A.meta])
            for p in names}
    F = None
    for it, s in enumerate(states):
        if it % (S + 2) == 0:
            sc, pos = A.scene_surfaces(it)
            geom = ref.Geometry(c, s['tilt'], s['surf_az'], s['zen'], s['az'])
            scene = ref.Scene(geom, sc)
            F = scene.matrix()
            N = len(sc)
            rows = [row_of[k] for k in pos]
        irr = np.zeros(N)
        for name in comps:
            irr += table[name][rows, it]
        inside = np.zeros(N)
        for name in absorbed:
            inside += table[name][rows, it]
        r = rho_all[rows, it]
        q = ref.solve_radiosity(F, irr, r, sky[it])
        want = dict(qinc=q, q0=r * q, isotropic=F[:N, N] * sky[it])
        want['reflection'] = q - irr - want['isotropic']
        want['qabs'] = (1. - r) * (q - irr) + inside
        scale = max(np.abs(q).max(), inside.max(), 1.)
        tol = scale * (1e-6 + 1e-8 / scene.len)
        for p in names:
            bad = ~(np.abs(vals[p][pos, it] - want[p]) < tol)
            if bad.any():
                k = int(np.argmax(bad))
                x = sc[k]
                res.problem(
                    '%s with a sky model of the user' % p, config=c, state=s,
                    components=comps, absorbed=absorbed, rho=case['rho'],
                    lit='sky' if alone[it] == S else 'all' if alone[it] > S
                    else 'surface %d' % alone[it],
                    surface=(x['kind'], x['row'], x['side'], x['seg']),
                    got=vals[p][pos[k], it], want=want[p][k])
                break
        res.outcome('lit alone' if alone[it] < S else 'sky alone'
                    if alone[it] == S else 'all lit')
        res.state(c, it, s, comps, absorbed, case['rho'])
    res.transitions += n
    res.traces += n
    return res


def fast_mode(case):
    res = Result()
    c = dict(case['fast'])
    c['cut'] = space.key_int(c['cut'])
    comps, r, seg = tuple(case['comps']), case['row'], case['seg']
    geo = few_states(c, case['tier'])
    states = repeat(geo, len(FAST) + 2)
    n = len(states)
    alone = np.arange(n) % (len(FAST) + 2)
    fast = {k: np.where(alone == i, 100. * (i + 2), 0.)
            + np.where(alone == len(FAST) + 1, 50. + 7. * i, 0.)
            for i, k in enumerate(FAST)}
    fast['rho_front'] = 0.37
    probe = impl.pvarray(c, fit=geo)
    S = len(probe.all_ts_surfaces)
    table = {}
    for q, name in enumerate(comps):
        table[name] = np.zeros((S, n))
        for k in range(S):
            table[name][k, alone >= len(FAST)] = 10. * (q + 1) + k
    rho = 0.21 * np.ones((S, n))
    model = make_sky(comps, (), table, np.zeros(n), rho, fast)
    from pvfactors.engine import PVEngine
    pa = impl.pvarray(c)
    eng = PVEngine(pa, irradiance_model=model, fast_mode_pvrow_index=r,
                   fast_mode_segment_index=seg)
    impl.fit_engine(eng, states)
    eng.run_fast_mode()
    A = impl.Arrays(pa, n)
    place = {s.index: k for k, s in enumerate(pa.all_ts_surfaces)}
    names = ('qinc', 'isotropic', 'reflection', 'reflection_gnd_shaded',
             'reflection_gnd_illum', 'reflection_pvrow_shaded',
             'reflection_pvrow_illum')
    todo = [k for k, m in enumerate(A.meta)
            if m[0] == 'row' and m[1] == r and m[2] == 'back'
            and (seg is None or m[4] == seg)]
    got = {p: {k: impl.param(A.meta[k][5], p, n) for k in todo}
           for p in names}
    G = None
    for it, s in enumerate(states):
        if it % (len(FAST) + 2) == 0:
            sc, pos = A.scene_surfaces(it)
            geom = ref.Geometry(c, s['tilt'], s['surf_az'], s['zen'], s['az'])
            scene = ref.Scene(geom, sc)
            N = len(sc)
            G = {}
            for k in todo:
                if k not in pos:
                    continue
                x = pos.index(k)
                F = scene.view_factors(x)
                part = {}
                for what, key in (('gnd', 'gnd'), ('row', 'pvrow')):
                    for sh, lab in ((True, 'shaded'), (False, 'illum')):
                        part['%s_%s' % (key, lab)] = sum(
                            F[j] for j in range(N) if sc[j]['kind'] == what
                            and sc[j]['shaded'] == sh)
                part['sky'] = F[N]
                G[k] = (part, scene.beyond, scene.len[x])
        for k, (part, far, ln) in G.items():
            w, slack = {}, {}
            for name in FAST[:4]:
                rh = s['albedo'] if name.startswith('gnd') else 0.37
                w['reflection_' + name] = part[name] * rh * fast[name][it]
                slack['reflection_' + name] = 0.
            slack['reflection_gnd_illum'] = far * s['albedo'] * \
                fast['gnd_illum'][it]
            w['reflection'] = sum(w.values())
            slack['reflection'] = slack['reflection_gnd_illum']
            w['isotropic'] = part['sky'] * fast['sky_luminance'][it]
            slack['isotropic'] = -far * fast['sky_luminance'][it]
            own = sum(table[name][place[A.index[k]], it] for name in comps)
            w['qinc'] = w['reflection'] + w['isotropic'] + own
            slack['qinc'] = slack['reflection'] + slack['isotropic']
            for p in names:
                tol = 600. * (1e-6 + 1e-8 / ln) + abs(slack[p])
                if p == 'qinc':
                    tol += abs(slack['isotropic'])
                if not abs(got[p][k][it] - w[p]) < tol:
                    res.problem(
                        '%s in the fast mode with a sky model of the user' % p,
                        config=c, state=s, row=r, seg=A.meta[k][4],
                        shaded=A.meta[k][3], components=comps,
                        lit=alone[it], got=got[p][k][it], want=w[p])
                    break
        res.outcome('fast: ' + (FAST + ('own light', 'all'))[alone[it]])
        res.state(c, it, s, r, seg, comps)
    res.transitions += n
    res.traces += n
    return res


# Classes of the user, at the top of the module so that they can be pickled

def user_classes():
    """Defined once, and found again by pickle under the same names"""
    if 'UserArray' in globals():
        return
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.engine import PVEngine
    from pvfactors.irradiance import IsotropicOrdered
    from pvfactors.viewfactors import VFCalculator

    class UserArray(OrderedPVArray):
        y_ground = -0.4

        def fit(self, solar_zenith, solar_azimuth, surface_tilt,
                surface_azimuth):
            # rows that cannot go beyond 20 degrees
            self.used = True
            super(UserArray, self).fit(
                solar_zenith, solar_azimuth, np.minimum(surface_tilt, 20.),
                surface_azimuth)

    class UserEngine(PVEngine):
        def fit(self, timestamps, DNI, DHI, *args, **kwargs):
            super(UserEngine, self).fit(timestamps, DNI * 0.5, DHI, *args,
                                        **kwargs)

    class UserSky(IsotropicOrdered):
        def __init__(self, gain=1.25, **kwargs):
            super(UserSky, self).__init__(**kwargs)
            self.gain = gain

        def fit(self, timestamps, DNI, DHI, *args, **kwargs):
            self.used = True
            super(UserSky, self).fit(timestamps, DNI, DHI * self.gain, *args,
                                     **kwargs)

    class UserVF(VFCalculator):
        def __init__(self, keep=0.5, **kwargs):
            super(UserVF, self).__init__(**kwargs)
            self.keep = keep

        def build_ts_vf_matrix(self, pvarray):
            self.used = True
            m = super(UserVF, self).build_ts_vf_matrix(pvarray) * self.keep
            self.vf_matrix = m
            return m

        def get_vf_ts_pvrow_element(self, *args, **kwargs):
            self.used = True
            vf = super(UserVF, self).get_vf_ts_pvrow_element(*args, **kwargs)
            return {k: v * self.keep for k, v in vf.items()}

    for cls in (UserArray, UserEngine, UserSky, UserVF):
        cls.__module__ = __name__
        cls.__qualname__ = cls.__name__
        globals()[cls.__name__] = cls


class Report(object):
    """An object that builds reports with a state of its own"""

    def __init__(self, mark):
        self.mark = mark

    def build(self, pvarray):
        out = p08.Builder.build(pvarray)
        out['mark'] = [(self.mark, type(pvarray).__name__)]
        return out

    def merge(self, reports):
        out = p08.Builder.merge(reports)
        out['merged'] = [self.mark, len(reports)]
        return out


def classes(case):
    from pvfactors import run as pvrun
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.engine import PVEngine
    from pvfactors.irradiance import HybridPerezOrdered
    from pvfactors.viewfactors import VFCalculator
    user_classes()
    res = Result()
    who = dict(zip(CUSTOM, case['who']))
    n = 7
    base = p08.arguments('ghi', n)
    mine = dict(pvarray=globals()['UserArray'], engine=globals()['UserEngine'],
                irradiance=globals()['UserSky'], vf=globals()['UserVF'])
    usual = dict(pvarray=OrderedPVArray, engine=PVEngine,
                 irradiance=HybridPerezOrdered, vf=VFCalculator)
    cls = {k: (mine if who[k] else usual)[k] for k in CUSTOM}
    p_irr, p_vf = None, None
    if case['params']:
        p_irr = dict(rho_front=0.3, module_transparency=0.2)
        if who['irradiance']:
            p_irr['gain'] = 0.7
        p_vf = dict(n_aoi_integral_sections=30)
        if who['vf']:
            p_vf['keep'] = 0.25
        else:
            p_vf.update(faoi_fn_front=p08.faoi, faoi_fn_back=p08.faoi)
    idx = None if case['mode'] == 'full' else 1
    seg = 1 if case['mode'] == 'fast segment' else None
    # put together by hand
    parts = dict(pvarray=cls['pvarray'].init_from_dict(copy.deepcopy(
                     base['pvarray_parameters'])),
                 irradiance=cls['irradiance'](**(p_irr or {})),
                 vf=cls['vf'](**(p_vf or {})))
    eng = cls['engine'](
        parts['pvarray'], irradiance_model=parts['irradiance'],
        vf_calculator=parts['vf'], fast_mode_pvrow_index=idx,
        fast_mode_segment_index=seg)
    eng.fit(base['timestamps'], base['dni'], base['dhi'],
            base['solar_zenith'], base['solar_azimuth'], base['surface_tilt'],
            base['surface_azimuth'], base['albedo'], ghi=base['ghi'])
    by_hand = Report('x')
    want = (eng.run_full_mode if idx is None else eng.run_fast_mode)(
        fn_build_report=by_hand.build)
    for k, part in parts.items():
        if who[k] and not getattr(part, 'used', False):
            res.problem('the %s given to the engine was not used' % k,
                        case=case)
    kw = dict(base)
    for k in CUSTOM:
        if who[k]:
            kw['cls_' + k] = mine[k]
    if case['params']:
        kw.update(irradiance_model_params=p_irr, vf_calculator_params=p_vf)
    if idx is not None:
        kw.update(fast_mode_pvrow_index=idx)
        if seg is not None:
            kw.update(fast_mode_segment_index=seg)
    keep = copy.deepcopy({k: v for k, v in kw.items()
                          if not k.startswith('cls_')})
    got = pvrun.run_timeseries_engine(Report('x').build, **kw)
    compare(res, got, want, case, 'serial', [('x', cls['pvarray'].__name__)])
    none = pvrun.run_timeseries_engine(None, **kw)
    if none is not None:
        res.problem('a run without a report returned something', case=case)
    for value in (0, '', [], {'a': 1}, None):
        r = pvrun.run_timeseries_engine(lambda pa: value, **kw)
        if r is not value:
            res.problem('the report was not returned as built', case=case,
                        got=r, want=value)
    with p08.controlled():
        for p in (1, 2, 3):
            perms = list(itertools.permutations(range(p)))
            for perm in perms if p < 3 else perms[3:4]:
                p08.ControlledPool.order = p08.Order(list(perm))
                got = pvrun.run_parallel_engine(Report('x'), n_processes=p,
                                                **kw)
                if got.pop('merged', None) != ['x', p]:
                    res.problem('reports were not merged by the object given',
                                case=case, processes=p)
                compare(res, got, want, case, '%d processes, order %s' % (
                    p, perm), [('x', cls['pvarray'].__name__)] * p)
                res.traces += 1
                res.transitions += p
    p08.unchanged(res, kw, keep, case)
    res.traces += 1
    res.transitions += n
    res.state(case)
    res.outcome('%d classes of the user' % sum(case['who']))
    return res


def compare(res, got, want, case, run, marks):
    got, want = dict(got), dict(want)
    m = got.pop('mark', None)
    want.pop('mark', None)
    if m is None or [tuple(x) for x in m] != marks:
        res.problem('%s: the report was not built by the object given, or '
                    'from another class of array' % run, case=case, got=m,
                    want=marks)
    got.pop('n', None)
    want.pop('n', None)
    if sorted(got) != sorted(want):
        res.problem('%s: other entries in the report' % run, case=case)
        return
    for k in want:
        if len(got[k]) != len(want[k]) or not np.allclose(
                got[k], want[k], rtol=1e-9, atol=1e-9, equal_nan=True):
            res.problem('%s: not what the classes given return' % run,
                        entry=k, case=case, got=got[k], want=want[k])
            return
