"""Critical angles: where a shadow, a line of a row or the sun passes a mark.

A sweep turns the rows, or moves the sun, through all of their angles. The
positions of a list of geometric events along it are found by bisection.
"""
import math
import numpy as np
from mc import ref, space

SKY = dict(dni=800., dhi=130., albedo=0.3)


def state_at(case, t):
    """State at a position t of the sweep, and the rotation"""
    ax = case['c']['axis_azimuth']
    sw, (a, b) = case['sweep'], case['arg']
    if sw == 'rotation':
        zen, rel, rot = a, b, t
    elif sw == 'azimuth':
        zen, rel, rot = b, t, a
    elif sw == 'elevation':
        zen, rel, rot = t, b, a
    elif sw == 'plane':
        # t: angle of the rows, the sun is where it is
        rel, rot = a, t
        zen = case['zen']
    else:
        # rows follow the sun (times a factor), sun along a vertical circle
        zen, rel = abs(t), b if t >= 0 else b + 180.
        p = math.degrees(math.atan2(ref.sind(zen) * ref.cosd(rel - 90.),
                                    ref.cosd(zen)))
        rot = a * p
    return dict(tilt=abs(rot), surf_az=(ax + (90. if rot >= 0 else -90.)) % 360,
                zen=zen, az=(ax + rel) % 360, rot=rot, **SKY)


def lattice(case):
    sw = case['sweep']
    n = 240 if case['tier'] == 'quick' else 720
    lo, hi = {'rotation': (-165., 165.), 'azimuth': (0., 360.),
              'elevation': (0., 89.5), 'tracking': (-89., 89.)}[sw]
    # irrational-looking step: the lattice itself avoids round angles
    return list(np.linspace(lo + 0.0123, hi - 0.0271, n))


def events(case, s):
    """Values that change sign at a critical angle"""
    c = case['c']
    g = ref.Geometry(c, s['tilt'], s['surf_az'], s['zen'], s['az'])
    out = {}
    cosn = float(g.sun.dot(g.nf))
    out['sun in the plane of the rows'] = cosn
    out['sun above the axis'] = float(g.sun[0])
    out['flat'] = s['rot']
    out['vertical'] = g.nf[1]
    sh = [g.ground_shadow(i) for i in range(g.n)]
    marks = []
    if abs(g.t[1]) > 1e-13:
        # the lines of the rows meet the ground
        marks = [(('line', i), g.centers[i][0]
                  - g.centers[i][1] * g.t[0] / g.t[1]) for i in range(g.n)]
    marks += [(('end', -1), -100.), (('end', 1), 100.)]
    for i, (a, b) in enumerate(sh):
        for j, (p, q) in enumerate(sh):
            if i < j:
                out['shadows %d and %d' % (i, j)] = (p - b) * (q - a)
        for (m, x) in marks:
            out['shadow %d start at %s' % (i, str(m))] = a - x
            out['shadow %d end at %s' % (i, str(m))] = b - x
    for (m, x) in marks:
        if m[0] == 'line':
            out['line %d at left end' % m[1]] = x + 100.
            out['line %d at right end' % m[1]] = x - 100.
    # shadow of the next row on a row
    for other in (1, -1):
        if g.n == 1 or abs(cosn) < 1e-13:
            continue
        d = np.array([other * g.dist, 0.])
        k = float(d.dot(g.nf)) / cosn
        for end, e in (('start', g.start[0]), ('end', g.end[0])):
            u = float((e + d - k * g.sun - g.start[0]).dot(g.t)) / g.w
            fr = {0., 1.}
            for sides in c['cut'].values():
                for nb in sides.values():
                    fr |= {i / nb for i in range(nb + 1)}
            for f in fr:
                out['%s of row %+d at %.3f' % (end, other, f)] = u - f
    return out


def locate(case):
    """Critical positions of the sweep: (t, name)"""
    if case['sweep'] == 'plane':
        step = case['arg'][1]
        ps = [-89.5 + step * i for i in range(int(179. / step) + 1)]
        out = [(p, ['sun in the plane of the rows exactly', 'round'])
               for p in ps if p != 0]
        return out + [(p, ['sun in front of the rows exactly', 'round'])
                      for p in ps if p != 0]
    ts = lattice(case)
    prev = None
    found = []
    for t in ts:
        now = events(case, state_at(case, t))
        if prev is not None:
            t0, e0 = prev
            for name in now:
                if name in e0 and (e0[name] > 0) != (now[name] > 0):
                    found.append((bisect(case, name, t0, t), name))
        prev = (t, now)
    if case['sweep'] in ('rotation', 'tracking'):
        found += [(0., 'flat exactly')]
        if case['sweep'] == 'rotation':
            found += [(90., 'vertical exactly'), (-90., 'vertical exactly')]
    if case['sweep'] == 'azimuth':
        found += [(t, 'cardinal') for t in (0., 90., 180., 270.)]
    # one of each position
    out = {}
    for t, name in found:
        if t is not None:
            out.setdefault(round(t, 10), (t, []))[1].append(name)
    return [out[k] for k in sorted(out)]


def bisect(case, name, a, b):
    fa = events(case, state_at(case, a))[name] > 0
    for _ in range(80):
        m = 0.5 * (a + b)
        if m in (a, b):
            break
        e = events(case, state_at(case, m))
        if name not in e:
            return None
        if (e[name] > 0) == fa:
            a = m
        else:
            b = m
    return b


# distances to a critical angle, in degrees: lengths from less than a micrometer
# to centimeters appear or disappear
NEAR = (3e-6, 3e-5, 3e-4, 3e-3, 3e-2, .3)


def near_states(c, tier='quick', sky=False, lattice_tier='quick'):
    """States just before and after the critical angles of some sweeps"""
    sweeps = [('rotation', (48., 95.)), ('elevation', (20., 90.)),
              ('elevation', (-35., 260.)), ('tracking', (1., 75.))]
    if tier == 'thorough':
        sweeps += [('rotation', (75., 250.)), ('rotation', (84., 281.)),
                   ('azimuth', (57., 63.)), ('azimuth', (-35., 85.)),
                   ('elevation', (105., 90.)), ('tracking', (.8, 110.))]
    out = []
    for sweep, arg in sweeps:
        case = dict(c=c, sweep=sweep, arg=arg, tier=lattice_tier)
        for t, _ in locate(case):
            for d in NEAR:
                for x in (t - d, t + d):
                    s = state_at(case, x)
                    del s['rot']
                    if not 0. <= s['zen'] <= 89.5 or s['tilt'] >= 179.:
                        continue
                    if not sky:
                        s = {k: s[k] for k in ('tilt', 'surf_az', 'zen', 'az')}
                    if not space.near_edge(c, s):
                        out.append(s)
    return out
