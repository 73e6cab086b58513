"""Finite alphabets shared by the checks: arrays, orientations, suns, skies."""
import itertools


def cfg(n, gcr=0.4, h=1.5, w=1., ax=0., cut=None):
    return dict(n_pvrows=n, gcr=gcr, pvrow_height=h, pvrow_width=w,
                axis_azimuth=ax, cut=cut or {})


def cuts(n):
    """Discretization schemes for n rows: none, one side, both, all the rows"""
    mid = n // 2
    out = [{}, {mid: {'back': 3}}, {0: {'front': 2, 'back': 4}}]
    if n > 1:
        out.append({i: ({'front': 1 + i % 3, 'back': 1 + (i + 1) % 3}
                        if i % 2 else {'back': 2}) for i in range(n)})
        out.append({n - 1: {'front': 5, 'back': 1}})
    return out


def key_int(c):
    return {int(k): v for k, v in c.items()}


# (gcr, height, width): narrow and wide spacing, low and high rows
SHAPES_Q = [(0.4, 1.5, 1.), (0.73, 2.2, 2.5), (0.21, 4., 3.1)]
SHAPES_T = SHAPES_Q + [(0.9, 1.1, 1.3), (0.55, 2.05, 4.), (0.12, 1., 1.9),
                       (0.33, 10., 1.)]
AXES_Q = [0., 180., 37.5, 270.]
AXES_T = AXES_Q + [90., 123., 350., 359.]


def special(tier):
    """High rows in a low sun (shadows beyond the ends of the ground, joined
    shadows), ground below or above the origin, many rows and segments (in few
    states)"""
    out = [dict(cfg(4, 0.5, 6., 8., 0., {1: {'back': 2}}), far=True),
           dict(cfg(2, 0.4, 1.5, 1., 180., {0: {'front': 2, 'back': 3}}),
                y_ground=-2.25),
           dict(cfg(3, 0.55, 2.5, 3., 37.5), far=True, y_ground=1.75),
           dict(cfg(11, 0.45, 1.7, 2., 90., {
               0: {'back': 3}, 5: {'front': 7, 'back': 12}, 10: {'front': 2}}),
               few=9)]
    if tier == 'thorough':
        out += [dict(cfg(7, 0.85, 14., 20., 270.), far=True),
                dict(cfg(16, 0.6, 1.4, 2., 0., {7: {'back': 2}}), few=29),
                dict(cfg(2, 0.35, 1.6, 2., 0., {0: {'front': 31, 'back': 25},
                                                1: {'back': 40}}), few=7),
                dict(cfg(2, 0.25, 5., 3., 90., {1: {'back': 4}}), far=True),
                dict(cfg(3, 0.3, 2., 3., 0., {2: {'back': 3}}), y_ground=40.),
                dict(cfg(1, 0.3, 4., 6., 123.), far=True, y_ground=-7.)]
    return out


def configs(tier, rows=None, shapes=None, axes=None):
    more = special(tier) if rows is None and shapes is None else []
    if tier == 'thorough':
        rows = rows or (1, 2, 3, 4, 5, 7)
        shapes = shapes or SHAPES_T
        axes = axes or AXES_T
    else:
        rows = rows or (1, 2, 3, 5)
        shapes = shapes or SHAPES_Q
        axes = axes or AXES_Q
    out = []
    for i, (n, (g, h, w)) in enumerate(itertools.product(rows, shapes)):
        for j, c in enumerate(cuts(n)):
            # the axis azimuth only rotates the frame (checked in full by the
            # frame property): rotate through its alphabet
            out.append(cfg(n, g, h, w, axes[(i + j) % len(axes)], c))
    return out + more


TILTS_Q = (0., 7.3, 24., 41.7, 62., 84., 118., 163.)
TILTS_T = (0., 3.1, 7.3, 15.6, 24., 33.3, 41.7, 52.4, 62., 73.9, 84., 88.7,
           97., 118., 141., 163., 174.5)
SIDES = (90., -90.)
ZENS_Q = (0., 9.7, 33.4, 57.8, 71.3, 81.9, 87.2)
ZENS_T = (0., 4.4, 9.7, 21.1, 33.4, 46.2, 57.8, 65.5, 71.3, 77.7, 81.9, 84.6,
          87.2, 89.3)
RELAZ_Q = (13.7, 74., 107.3, 211., 262.9, 341.)
RELAZ_T = (0.9, 13.7, 38.6, 74., 90., 107.3, 151., 166.4, 194.7, 211., 238.,
           262.9, 270., 303.1, 341.)


def orientations(tier):
    return [(t, s) for t in (TILTS_T if tier == 'thorough' else TILTS_Q)
            for s in SIDES]


def suns(tier):
    zens, rel = (ZENS_T, RELAZ_T) if tier == 'thorough' else (ZENS_Q, RELAZ_Q)
    out = [(0., 180.)]
    out += [(z, r) for z in zens if z > 0 for r in rel]
    return out


ZENS_FAR = (57.8, 81.9, 87.2, 88.3, 89.3, 89.75)


def far_suns(n):
    """About n low suns"""
    out = [(z, r) for z in ZENS_FAR for r in RELAZ_Q]
    return [out[(i * 5) % len(out)] for i in range(min(n, len(out)))]


def geo_states(config, tier, orient=None, sun=None):
    """All the orientations x all the sun positions of an array"""
    ax = config['axis_azimuth']
    sun = sun or suns(tier)
    if config.get('far'):
        sun = far_suns(len(sun))
    return [dict(tilt=t, surf_az=(ax + s) % 360, zen=z, az=(ax + r) % 360)
            for (t, s) in (orient or orientations(tier))
            for (z, r) in sun][::config.get('few', 1)]


def grazing_states(config):
    """Almost flat rows, partly shaded because the sun is almost set"""
    ax = config['axis_azimuth']
    return [s for s in (dict(tilt=t, surf_az=(ax + side) % 360, zen=90. - e,
                             az=(ax + r) % 360)
                        for t in (0., .02, .06, .2, .45, .7, 1.1, 2.)
                        for side in SIDES for e in (.015, .04, .11, .3, .6, 1.)
                        for r in (90., 60., 270., 251.))
            if not near_edge(config, s)]


# (dni, dhi, albedo): clear, hazy, overcast (no direct light), bright ground,
# no diffuse light
SKIES = [(880., 95., 0.2), (430.5, 310., 0.13), (0., 120., 0.35),
         (700., 60., 0.71), (25., 240., 0.05)]


def with_sky(states, skies=SKIES):
    """Give a sky of the alphabet to each state (product)"""
    return [dict(s, dni=d, dhi=h, albedo=a) for s in states
            for (d, h, a) in skies]


def rotate_sky(states, skies=SKIES):
    """Give one sky to each state, going through the alphabet"""
    return [dict(s, dni=skies[i % len(skies)][0], dhi=skies[i % len(skies)][1],
                 albedo=skies[i % len(skies)][2])
            for i, s in enumerate(states)]


def near_edge(config, s, margin_deg=1e-3):
    """Sun so close to the plane of the rows that sides are undefined"""
    import math
    rel_t = s['surf_az'] - config['axis_azimuth'] - 90.
    r = math.radians
    sx = math.sin(r(s['zen'])) * math.cos(
        r(s['az'] - config['axis_azimuth'] - 90.))
    sy = math.cos(r(s['zen']))
    nx = math.sin(r(s['tilt'])) * (1. if math.cos(r(rel_t)) > 0 else -1.)
    ny = math.cos(r(s['tilt']))
    return abs(sx * nx + sy * ny) < math.sin(r(margin_deg))
