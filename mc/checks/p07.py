"""Timesteps are independent: every batch equals its timesteps one by one."""
import itertools
import numpy as np
from mc import impl, space
from mc.core import Result

ID = 'P07'
TITLE = 'The result of a timestep does not depend on the rest of the batch'
RULE = ('all sequences, up to the bound, over an alphabet of timesteps that '
        'covers every regime (sun on the front, on the back, direct shading, '
        'flat, vertical, night, no irradiance, missing data); every timestep '
        'of every sequence is compared with the run of that timestep alone')
ASSUMPTIONS = ['the timestep with missing data has no result to compare']

ALPHABET = {
    'noon': dict(tilt=20., surf_az=90., zen=18., az=160., dni=900., dhi=90.,
                 albedo=0.2),
    'morning shading': dict(tilt=52., surf_az=90., zen=72., az=95., dni=600.,
                            dhi=80., albedo=0.2),
    'evening shading': dict(tilt=50., surf_az=270., zen=75., az=262.,
                            dni=500., dhi=110., albedo=0.3),
    'sun on the back': dict(tilt=35., surf_az=90., zen=70., az=275., dni=450.,
                            dhi=70., albedo=0.5),
    'flat': dict(tilt=0., surf_az=90., zen=31., az=201., dni=810., dhi=85.,
                 albedo=0.25),
    'vertical': dict(tilt=90., surf_az=270., zen=60., az=250., dni=333.,
                     dhi=222., albedo=0.15),
    'overcast': dict(tilt=10., surf_az=270., zen=55., az=230., dni=0.,
                     dhi=140., albedo=0.2),
    'no diffuse': dict(tilt=33., surf_az=90., zen=40., az=120., dni=700.,
                       dhi=0., albedo=0.2),
    'back shading': dict(tilt=65., surf_az=90., zen=77., az=265., dni=300.,
                         dhi=50., albedo=0.2),
    'night': dict(tilt=60., surf_az=90., zen=104., az=20., dni=0., dhi=0.,
                  albedo=0.2),
    'missing sky': dict(tilt=25., surf_az=90., zen=30., az=120.,
                        dni=float('nan'), dhi=float('nan'), albedo=0.2),
    'missing tracker': dict(tilt=float('nan'), surf_az=float('nan'), zen=97.,
                            az=290., dni=0., dhi=0., albedo=0.2)}
NAMES = list(ALPHABET)

CFGS = [space.cfg(3, 0.45, 1.6, 1.8, 0., {1: {'back': 2, 'front': 2}}),
        space.cfg(1, 0.4, 1.5, 2., 0., {0: {'back': 2}}),
        space.cfg(2, 0.6, 2., 2., 0., {})]
MODELS = [dict(kind='perez'),
          dict(kind='isotropic', rho_back=0.1, module_transparency=0.2),
          dict(kind='perez', rho_front=0.1, module_spacing_ratio=0.3,
               faoi=True)]
MODES = ['full', 'fast']


def cases(tier):
    depth = 4 if tier == 'thorough' else 3
    out = []
    for ic in range(len(CFGS)):
        for im in range(len(MODELS)):
            for mode in MODES:
                d = depth
                if tier == 'quick' and (ic or MODELS[im].get('faoi')):
                    d = 2
                for first in [None] + NAMES:
                    out.append(dict(ic=ic, im=im, mode=mode, first=first,
                                    depth=d))
    # long batches: every timestep of the alphabet, repeated and rotated
    for ic in range(len(CFGS)):
        for mode in MODES:
            out.append(dict(ic=ic, im=0, mode=mode, first='long', depth=120))
    # batches of timesteps that are almost the same
    for ic in range(len(CFGS)):
        for mode in MODES:
            for name in NAMES[:9]:
                out.append(dict(ic=ic, im=ic, mode=mode, first='similar',
                                name=name, depth=0, tier=tier))
    # lengths of batches
    for im in range(len(MODELS)):
        for mode in MODES:
            for n in (9, 63, 65, 101, 127, 129, 255, 257, 366, 501, 511, 513,
                      1001, 1023, 1025, 2049, 4097, 8760, 8784) + (
                          (17520, 20011) if tier == 'thorough' else ()):
                out.append(dict(ic=2, im=im, mode=mode, first='tiles',
                                depth=n))
    # very long batch of states that differ from each other
    out.append(dict(ic=2, im=0, mode='fast', first='year', depth=0))
    out.append(dict(ic=2, im=0, mode='full', first='year', depth=0))
    return out


def faoi(aoi):
    return np.cos(np.deg2rad(90. - np.clip(aoi, 0., 180.))) ** 0.2 * 0.97


def run(ic, im, mode, states, times):
    from pvfactors.viewfactors import VFCalculator
    c, model = CFGS[ic], dict(MODELS[im])
    irr = vf = None
    if model.get('faoi'):
        vf = VFCalculator(faoi_fn_front=faoi, faoi_fn_back=faoi,
                          n_aoi_integral_sections=30)
        kw = {k: v for k, v in model.items() if k not in ('kind', 'faoi')}
        irr = impl.make_model(dict(kw, kind=model['kind'], faoi_fn_front=faoi,
                                   faoi_fn_back=faoi))
    eng = impl.make_engine(c, model, vf=vf, irr=irr)
    impl.fit_engine(eng, states, times)
    if mode == 'full':
        eng.run_full_mode()
    else:
        for r in range(c['n_pvrows']):
            eng.run_fast_mode(pvrow_index=r)
    return collect(eng, mode, len(states))


def collect(eng, mode, n):
    """Everything a user can read, as arrays with the timestep last"""
    pa = eng.pvarray
    A = impl.Arrays(pa, n)
    out = {'xy': A.xy, 'rotation': np.broadcast_to(pa.rotation_vec, n)}
    for p in ('qinc', 'isotropic', 'reflection', 'direct', 'circumsolar',
              'horizon', 'qabs', 'q0', 'rho', 'direct_absorbed',
              'total_perez', 'reflection_gnd_shaded', 'reflection_pvrow_illum'):
        ks = [k for k, m in enumerate(A.meta)
              if m[5].params.get(p) is not None]
        if ks:
            out[p] = np.array([impl.param(A.meta[k][5], p, n) for k in ks])
    if mode == 'full':
        out['vf'] = np.asarray(pa.ts_vf_matrix)
        out['vf_aoi'] = np.asarray(pa.ts_vf_aoi_matrix)
    for i, row in enumerate(pa.ts_pvrows):
        sides = [('back', row.back)] + (
            [('front', row.front)] if mode == 'full' else [])
        for nm, sd in sides:
            out['w%d%s' % (i, nm)] = np.broadcast_to(
                sd.get_param_weighted('qinc'), n)
    out['skip'] = np.broadcast_to(eng.skip_step, n).astype(float)
    return out


_alone = {}


def alone(ic, im, mode, name, t, state=None):
    key = (ic, im, mode, name, t)
    if key not in _alone:
        _alone[key] = run(ic, im, mode, [state or ALPHABET[name]], [t])
    return _alone[key]


def compare(res, a, b, it, what, has_nan, **kw):
    """Batch result a at position it, result alone b"""
    if has_nan:
        return      # no result to compare for the missing timestep itself
    if sorted(a) != sorted(b):
        res.problem('%s: other results are available' % what, **kw)
        return
    for k in a:
        x, y = a[k][..., it], b[k][..., 0]
        if x.shape != y.shape or not np.allclose(
                x, y, rtol=1e-9, atol=1e-9, equal_nan=True):
            res.problem('%s: %s differs from the timestep alone' % (what, k),
                        position=it, **kw)
            return


def run_case(case):
    res = Result()
    ic, im, mode = case['ic'], case['im'], case['mode']
    if case['first'] == 'year':
        return year(res, ic, im, mode)
    if case['first'] == 'tiles':
        return tiles(res, ic, im, mode, case['depth'])
    if case['first'] == 'similar':
        return similar(res, ic, im, mode, case['name'], case['tier'])
    if case['first'] == 'long':
        names = [NAMES[(i * i + i // 7) % len(NAMES)]
                 for i in range(case['depth'])]
        seqs = [names, names[::-1]]
    elif case['first'] is None:
        seqs = [[n] for n in NAMES]
    else:
        seqs = [[case['first']] + list(rest)
                for d in range(1, case['depth'])
                for rest in itertools.product(NAMES, repeat=d)]
    t = impl.stamps(1)[0]
    for seq in seqs:
        got = run(ic, im, mode, [ALPHABET[n] for n in seq], [t] * len(seq))
        for it, n in enumerate(seq):
            compare(res, got, alone(ic, im, mode, n, t), it,
                    '%s mode' % mode, n.startswith('missing'),
                    sequence=seq if len(seq) < 6 else len(seq), cfg=CFGS[ic],
                    model=MODELS[im])
            res.outcome(n)
            res.state(ic, im, mode, tuple(seq[:it + 1]))
        res.transitions += len(seq)
        res.traces += 1
    return res


FIELDS = ('tilt', 'zen', 'az', 'surf_az', 'dni', 'dhi', 'albedo')


def similar(res, ic, im, mode, name, tier):
    """Batches of timesteps that differ in one field only, from a relative
    difference of 1e-9 (exactly like alone) to 0.1: pairs, and rows of 3 with
    the different one in any position"""
    base = ALPHABET[name]
    t = impl.stamps(1)[0]
    steps = (1e-7, 1e-5, 3e-4, 1e-3, 1e-2, 0.1)
    if tier == 'thorough':
        steps = tuple(10. ** -k for k in range(9, 0, -1)) + (2e-3, 5e-3, 5e-2)
    for f in FIELDS:
        for e in steps:
            other = dict(base)
            other[f] = base[f] * (1. + e) if base[f] else e
            if f in ('tilt', 'zen', 'az') and \
                    space.near_edge(CFGS[ic], other):
                res.outcome('near an edge')
                continue
            batches = [[base, other], [other, base], [base, other, base],
                       [base, base, other], [other, base, base]]
            for batch in batches:
                got = run(ic, im, mode, batch, [t] * len(batch))
                for it, s in enumerate(batch):
                    key = (name, f, e) if s is other else name
                    compare(res, got, alone(ic, im, mode, key, t, state=s), it,
                            '%s mode, similar timesteps' % mode, False,
                            states=batch, cfg=CFGS[ic], model=MODELS[im])
                    res.transitions += 1
                res.traces += 1
            res.state(ic, im, mode, name, f, e)
            res.outcome('similar in %s' % f)
    return res


def tiles(res, ic, im, mode, n):
    """A batch of n timesteps: the alphabet again and again"""
    names = [m for m in NAMES if not m.startswith('missing')]
    t = impl.stamps(1)[0]
    got = run(ic, im, mode, [ALPHABET[names[i % len(names)]]
                             for i in range(n)], [t] * n)
    for i, name in enumerate(names):
        want = alone(ic, im, mode, name, t)
        if sorted(want) != sorted(got):
            res.problem('%s mode: other results are available' % mode, n=n)
            return res
        for k in want:
            x, y = got[k][..., i::len(names)], want[k]
            if got[k].shape[-1] != n or not np.allclose(
                    x, y, rtol=1e-9, atol=1e-9, equal_nan=True):
                res.problem('%s mode: %s in a batch of %d timesteps differs '
                            'from the timestep alone' % (mode, k, n),
                            name=name, cfg=CFGS[ic], model=MODELS[im])
                return res
        res.state(ic, im, mode, n, name)
        res.outcome('batches of %d' % n)
    res.transitions += n
    res.traces += 1
    return res


def year(res, ic, im, mode):
    """2000 different timesteps, each one compared with a batch of 7"""
    c = CFGS[ic]
    states = space.rotate_sky([s for s in space.geo_states(c, 'thorough')
                               if not space.near_edge(c, s)])[::3][:2000]
    times = impl.stamps(len(states))
    whole = run(ic, im, mode, states, times)
    for b in range(0, len(states), 7):
        part = run(ic, im, mode, states[b:b + 7], times[b:b + 7])
        for k in whole:
            x, y = whole[k][..., b:b + 7], part[k]
            if not np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True):
                res.problem('%s mode: %s depends on the size of the batch'
                            % (mode, k), start=b, states=states[b:b + 7])
                return res
        res.traces += 1
    for s in states:
        res.state(s, mode)
    res.transitions += len(states)
    return res
