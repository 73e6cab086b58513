"""How an engine is set up: reflectivities and the steps it marks."""
import itertools
import numpy as np
from mc import impl, space
from mc.core import Result
from mc.checks import p12

ID = 'P22'
TITLE = 'Reflectivities: the given one, else from the losses, else the default'
RULE = ('models x front and back reflectivity given (several forms, zero '
        'included) or not x loss functions given or not (functions, objects, '
        'one side only, both) x earlier use of the calculator; reflectivities '
        'and all the results in both modes are those of an engine given the '
        'expected numbers; and the marks of all sign patterns of zenith and '
        'irradiance')
ASSUMPTIONS = ['reflectivities are numbers, positive in the full mode',
               'average of the loss function over a semi-circle of directions']

RHOS = [None, 0.21, np.float64(0.07), 1, 0., 0]
FNS = [(None, None), ('poly', 'root'), ('root', 'poly'), ('poly', None),
       (None, 'root')]
STATES = [
    dict(dni=700., dhi=120., albedo=0.2, zen=33.4, az=107., tilt=24.,
         surf_az=90.),
    dict(dni=430., dhi=210., albedo=0.35, zen=71.3, az=262.9, tilt=41.7,
         surf_az=270.),
    dict(dni=880., dhi=95., albedo=0.5, zen=81.9, az=280., tilt=62.,
         surf_az=90.)]


def cases(tier):
    sect = (90, 300) if tier == 'quick' else (7, 90, 300, 1001)
    out = [dict(kind=k, fn=f, obj=o, sections=s)
           for k in ('perez', 'isotropic') for f in FNS for o in (0, 1)
           for s in sect]
    return out + [dict(skip=k) for k in ('scalar', 'array')]


def average(name, sections):
    """Reflectivity of a side: one minus the average of faoi as a view factor
    integral over the half circle seen by the side, by sections"""
    x = np.linspace(0., 180., sections + 1)
    mid = 0.5 * (x[1:] + x[:-1])
    w = 0.5 * (np.cos(np.radians(x[:-1])) - np.cos(np.radians(x[1:])))
    return 1. - float(np.sum(p12.faoi(name)(mid) * w))


def read(eng, n):
    out = {}
    for m in impl.surfaces(eng.pvarray):
        for p in ('qinc', 'qabs', 'reflection', 'isotropic', 'rho', 'q0'):
            v = m[5].params.get(p)
            if v is not None:
                out[m[5].index, p] = np.array(np.broadcast_to(v, n))
    return out


def run_case(case):
    from pvfactors.engine import PVEngine
    from pvfactors.viewfactors import VFCalculator
    res = Result()
    if 'skip' in case:
        return skips(res, case['skip'])
    c = space.cfg(2, 0.55, 1.6, 1.8, 0., {1: {'back': 2}})
    n = len(STATES)

    def calculator():
        f = [p12.faoi(k) for k in case['fn']]
        if case['obj']:
            f = [None if x is None else Thing(x) for x in f]
        return VFCalculator(faoi_fn_front=f[0], faoi_fn_back=f[1],
                            n_aoi_integral_sections=case['sections'])
    both = None not in case['fn']
    for rf, rb, used in itertools.product(RHOS, RHOS, (0, 1)):
        want = []
        for given, name, default in ((rf, case['fn'][0], 0.01),
                                     (rb, case['fn'][1], 0.03)):
            if given is not None:
                want.append(float(given))
            elif both:
                want.append(average(name, case['sections']))
            else:
                want.append(default)
        vfc = calculator()
        if used:
            impl.fit_engine(impl.make_engine(c, dict(kind='isotropic'),
                                             vf=vfc), STATES[:1] * 5)
        irr = impl.make_model(dict(kind=case['kind'], rho_front=rf,
                                   rho_back=rb))
        eng = PVEngine.with_rho_initialization(
            impl.pvarray(c), vfc, irr, fast_mode_pvrow_index=1)
        got = [eng.irradiance.rho_front, eng.irradiance.rho_back]
        where = dict(case, given=[rf, rb], used=used)
        if not all(np.isscalar(g) for g in got) or \
                not np.allclose(np.array(got, float), want, atol=1e-9):
            res.problem('reflectivities', case=where, got=got, want=want)
            continue
        if eng.irradiance is not irr or eng.vf_calculator is not vfc:
            res.problem('another model or calculator is used', case=where)
        ref = impl.make_engine(c, dict(kind=case['kind'], rho_front=want[0],
                                       rho_back=want[1]), vf=calculator(),
                               fast_mode_pvrow_index=1)
        modes = ('fast', 'full') if min(want) > 0 else ('fast',)
        for mode in modes:
            outs = []
            for e in (eng, ref):
                impl.fit_engine(e, STATES)
                (e.run_full_mode if mode == 'full' else e.run_fast_mode)()
                outs.append(read(e, n))
            if sorted(outs[0]) != sorted(outs[1]):
                res.problem('results available', case=where, mode=mode)
                continue
            for k in outs[0]:
                if not np.allclose(outs[0][k], outs[1][k], rtol=1e-7,
                                   atol=1e-7, equal_nan=True):
                    res.problem('results', case=where, mode=mode, result=k,
                                got=outs[0][k], want=outs[1][k])
                    break
            res.traces += 1
        if want[0] == 0. and 'fast' in modes:
            # nothing comes back from black modules
            v = [s.get_param('reflection_pvrow_illum')
                 for s in eng.pvarray.ts_pvrows[1].back.all_ts_surfaces]
            if not np.allclose(np.nan_to_num(np.array(
                    [np.broadcast_to(x, n) for x in v])), 0., atol=1e-12):
                res.problem('reflections of black modules', case=where)
        res.state(sorted(case.items()), repr(rf), repr(rb), used)
        res.transitions += 1
        for side, given in (('front', rf), ('back', rb)):
            res.outcome('%s %s' % (side, 'given' if given is not None else
                                   'calculated' if both else 'default'))
    return res


class Thing(object):
    def __init__(self, fn):
        self.faoi = fn


def skips(res, form):
    """Steps marked: sun below the horizon, negative or no irradiance"""
    zens = (0., 45., 89.99, 90., 90.01, 120.)
    irr = (-10., -1e-9, 0., 1e-9, 300.)
    combos = list(itertools.product(zens, irr, irr))
    base = dict(STATES[0])
    states = [dict(base, zen=z, dni=a, dhi=b) for z, a, b in combos]
    want = [z > 90 or a < 0 or b < 0 or (a == 0 and b == 0)
            for z, a, b in combos]
    eng = impl.make_engine(space.cfg(2), dict(kind='isotropic'))
    if form == 'array':
        impl.fit_engine(eng, states)
        got = list(eng.skip_step)
    else:
        got = []
        for s in states:
            eng.fit(impl.stamps(1)[0], *[s[k] for k in (
                'dni', 'dhi', 'zen', 'az', 'tilt', 'surf_az', 'albedo')])
            got += list(np.atleast_1d(eng.skip_step))
    for s, g, w in zip(states, got, want):
        if bool(g) != w:
            res.problem('mark of a step', state=s, got=g, want=w, form=form)
        res.outcome('marked' if w else 'not marked')
        res.state('skip', s['zen'], s['dni'], s['dhi'], form)
        res.transitions += 1
    if len(got) != len(want):
        res.problem('number of marks', got=len(got))
    res.traces += 1
    return res
