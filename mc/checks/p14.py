"""Shading of the circumsolar disk and of the horizon band."""
import math
import numpy as np
from mc.core import Result

ID = 'P14'
TITLE = 'Circumsolar and horizon shading are exact shares of the hidden sky'
RULE = ('all points of a lattice of covered distances from -60 to 160 percent '
        'and both circumsolar models; all pairs of a lattice of shading angles '
        'and horizon band angles, as scalars and as arrays; consecutive points '
        'are compared too')
ASSUMPTIONS = ['finite inputs', 'horizon band angle strictly positive']


def cases(tier):
    step = 0.05 if tier == 'quick' else 0.002
    out = []
    for model in ('uniform_disk', 'gaussian', None):
        for lo in range(-60, 160, 20):
            out.append(dict(kind='circ', model=model, lo=lo, hi=lo + 20,
                            step=step))
    for band in (0.5, 2.5, 6.5, 10., 45., 90.):
        out.append(dict(kind='band', band=band,
                        step=0.05 if tier == 'quick' else 0.005))
    for name in ('uniform', 'Gaussian', '', 'uniform_disk ', None, 3):
        out.append(dict(kind='unknown', name=name))
    out += [dict(kind='neighbours', tilt=t, side=s, gcr=g)
            for t in (0.5, 20., 60., 90.) for s in (-1, 1)
            for g in (0.3, 0.8)]
    return out + [dict(kind='bell')]


def disk(p):
    """Share of the unit disk covered by a half plane, from calculus"""
    d = min(max(2. * p / 100., 0.), 2.)
    x = 1. - d
    return 100. * (math.acos(x) - x * math.sqrt(max(0., 1. - x * x))) / math.pi


def bell(p):
    """Share of a gaussian profile cut at three standard deviations"""
    p = min(max(p / 100., 0.), 1.)
    phi = lambda z: 0.5 * (1. + math.erf(z / math.sqrt(2.)))
    return 100. * (phi(-3. + 6. * p) - phi(-3.)) / (phi(3.) - phi(-3.))


def run_case(case):
    from pvfactors import PVFactorsError
    from pvfactors.irradiance.utils import (
        calculate_circumsolar_shading, calculate_horizon_band_shading)
    res = Result()
    if case['kind'] == 'circ':
        m = case['model']
        kw = {} if m is None else {'model': m}
        want = bell if m == 'gaussian' else disk
        n = int(round((case['hi'] - case['lo']) / case['step'])) + 1
        last = None
        for i in range(n):
            p = case['lo'] + i * case['step']
            got = calculate_circumsolar_shading(p, **kw)
            w = want(p)
            if not abs(got - w) < 1e-7:
                res.problem('shading of the circumsolar', model=m, covered=p,
                            got=got, want=w)
            if last is not None and got < last - 1e-9:
                res.problem('shading falls when more is covered', model=m,
                            covered=p, got=got, before=last)
            last = got
            mirror = calculate_circumsolar_shading(100. - p, **kw)
            if not abs(got + mirror - 100.) < 1e-7:
                res.problem('shading is not symmetric', model=m, covered=p)
            res.outcome('none' if w == 0 else 'all' if w == 100 else 'part')
            res.state(m, p)
            res.transitions += 1
            res.traces += 2
    elif case['kind'] == 'band':
        band = case['band']
        ang = np.arange(-5., 95., case['step'])
        ang = np.unique(np.concatenate([ang, [0., band, band / 2.]]))
        want = 100. * np.clip(ang / band, 0., 1.)
        arr = calculate_horizon_band_shading(ang, band)
        for a, w, g in zip(ang, want, arr):
            one = float(calculate_horizon_band_shading(float(a), band))
            if not (abs(one - w) < 1e-9 and abs(g - w) < 1e-9):
                res.problem('shading of the horizon band', angle=a, band=band,
                            got=[one, g], want=w)
            res.outcome('none' if w == 0 else 'all' if w == 100 else 'part')
            res.state(band, a)
            res.transitions += 1
            res.traces += 2
    elif case['kind'] == 'bell':
        density(res)
    elif case['kind'] == 'neighbours':
        neighbours(res, case)
    else:
        for p in (-5., 0., 37., 100., 120.):
            try:
                calculate_circumsolar_shading(p, model=case['name'])
                res.problem('unknown model accepted', name=case['name'])
            except PVFactorsError:
                res.outcome('unknown model refused')
            res.state(case['name'], p)
            res.traces += 1
    return res


def density(res):
    """Bell-shaped profile and its integral"""
    from pvfactors.irradiance.utils import (gaussian,
                                            integral_default_gaussian)
    for x in np.arange(-40, 41) / 8.:
        for mu in (0., 0.75, -2.):
            for sigma in (1., 0.5, 3.):
                want = math.exp(-(x - mu) ** 2 / (2. * sigma ** 2)) / (
                    sigma * math.sqrt(2. * math.pi))
                got = [float(gaussian(x, mu, sigma)),
                       float(gaussian(np.array([x]), mu=mu, sigma=sigma)[0])]
                if mu == 0. and sigma == 1.:
                    got.append(float(gaussian(x)))
                if max(abs(g - want) for g in got) > 1e-12:
                    res.problem('density of a profile', x=x, mu=mu,
                                sigma=sigma, got=got, want=want)
                res.state('density', x, mu, sigma)
        for y in np.arange(-40, 41) / 8.:
            # area of exp(-t**2) / sqrt(pi) between the limits
            want = 0.5 * (math.erf(x) - math.erf(y))
            if abs(integral_default_gaussian(y, x) - want) > 1e-12:
                res.problem('integral of a profile', low=y, high=x)
            res.state('integral', x, y)
            res.transitions += 1
        res.traces += 1
    res.outcome('profiles')


def usable(model, name, args):
    """An internal method, if it is still there with the same arguments"""
    import inspect
    method = getattr(model, name, None)
    if method is None or list(inspect.signature(method).parameters) != args:
        return None
    return method


def neighbours(res, case):
    """What the methods of the model give for points and rows of an array"""
    from pvfactors.irradiance import HybridPerezOrdered
    from pvfactors.geometry.pvrow import PVRow
    from pvfactors.geometry.base import PVSurface
    from pvfactors.geometry.timeseries import TsPointCoords
    from mc import impl, space, ref
    width = 2.
    gap = width / case['gcr']
    rot = case['tilt'] * case['side']
    ups = [0.5 * math.sin(math.radians(case['tilt'])) * width]
    rows = [PVRow.from_center_tilt_width(
        (k * gap, 2.), case['tilt'], width, 90. if case['side'] > 0 else 270.,
        0.) for k in range(3)]
    tops = [(r.highest_point.x, 2. + ups[0]) for r in rows]
    for m, angle in ((None, None), ('uniform_disk', 30.), ('gaussian', 12.),
                     ('gaussian', 30.)):
        kw = {} if m is None else dict(circumsolar_model=m,
                                       circumsolar_angle=angle)
        model = HybridPerezOrdered(**kw)
        angle = 30. if angle is None else angle
        shape = bell if m == 'gaussian' else disk
        method = usable(model, '_calculate_circumsolar_shading_pct',
                        ['surface', 'idx_neighbor', 'pvrows',
                         'solar_2d_vector'])
        if method is None:
            res.outcome('no method for the circumsolar')
            break
        for elev in (1., 7., 15., 29., 45., 61., 89.):
            for sx in (-1., 1.):
                for row, j in ((1, 0), (1, 2), (0, 1), (2, 1), (0, 2)):
                    for frac in (-0.4, 0., 0.3):
                        x = row * gap + frac * width
                        y = 1.6 + frac
                        s = PVSurface(coords=[(x - 0.1, y - 0.05),
                                              (x + 0.1, y + 0.05)])
                        e = math.radians(elev)
                        got = method(s, j, rows,
                                     [sx * 2. * math.cos(e), 2. * math.sin(e)])
                        hidden = abs(math.degrees(math.atan(
                            (tops[j][1] - y) / (tops[j][0] - x))))
                        share = 100. * (hidden - elev + angle / 2.) / angle
                        want = shape(share)
                        if not abs(got - want) < 1e-6:
                            res.problem('circumsolar hidden by a row', model=m,
                                        elevation=elev, sun=sx, row=row, by=j,
                                        got=got, want=want)
                        res.outcome('none' if want == 0 else 'all'
                                    if want == 100 else 'part')
                        res.state(m, angle, elev, sx, row, j, frac)
                        res.transitions += 1
    # the horizon band, seen from the back and from the front
    turns = [case['tilt'], 0., case['tilt'] / 2., case['tilt'], 3.]
    azs = [90., 90., 270., 270., 90.]
    c = space.cfg(3, case['gcr'], width, 2., 0.)
    pa = impl.pvarray(c)
    pa.fit(np.full(5, 30.), np.full(5, 120.), np.array(turns), np.array(azs))
    for band in (None, 2., 6.5, 40.):
        kw = {} if band is None else dict(horizon_band_angle=band)
        method = usable(HybridPerezOrdered(**kw),
                        '_calculate_horizon_shading_pct_ts',
                        ['ts_pvrows', 'ts_point_coords', 'pvrow_idx',
                         'tilted_to_left', 'is_back_side'])
        if method is None:
            res.outcome('no method for the horizon')
            break
        left = np.asarray(pa.rotation_vec) > 0
        for row in range(3):
            for frac in (-0.3, 0., 0.45):
                for back in (True, False, None):
                    x = np.full(5, row * gap + frac)
                    y = np.full(5, 1.1)
                    kw2 = {} if back is None else dict(is_back_side=back)
                    got = method(pa.ts_pvrows, TsPointCoords(x, y), row, left,
                                 **kw2)
                    got = np.broadcast_to(np.asarray(got, dtype=float), 5)
                    for k in range(5):
                        g = ref.Geometry(c, turns[k], azs[k], 30., 120.)
                        to_left = turns[k] > 0 and g.nf[0] < 0
                        right = to_left if back in (True, None) else \
                            not to_left
                        j = row + (1 if right else -1)
                        want = 0.
                        if 0 <= j < 3:
                            top = g.high[j]
                            want = 100. * min(1., abs(math.degrees(math.atan(
                                (top[1] - 1.1) / (top[0] - x[k])))) / (
                                    6.5 if band is None else band))
                        if turns[k] == 0.:
                            continue   # neither end is the highest
                        if not abs(got[k] - want) < 1e-6:
                            res.problem('horizon band hidden by a row',
                                        band=band, row=row, back=back,
                                        tilt=turns[k], azimuth=azs[k],
                                        got=got[k], want=want)
                        res.transitions += 1
                    res.state('band', band, row, frac, back)
    res.traces += 1
