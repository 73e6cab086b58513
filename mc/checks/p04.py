"""View factors against an exact visibility calculation."""
import numpy as np
from mc import events, impl, ref, space
from mc.core import Result

ID = 'P04'
TITLE = 'View factors are exact, with all obstructions accounted for'
RULE = ('all arrays of the alphabet x all orientations x all sun positions '
        '(which set the shadow surfaces); the reference integrates the exact '
        'visibility from every PV row surface, with every row as obstacle')
ASSUMPTIONS = ['sun above the horizon and not in the plane of the rows',
               'the ground beyond 100 m from the first row counts as sky']
TOL = 1e-7


def cases(tier):
    out = [dict(c, tier=tier) for c in space.configs(tier)]
    out += [dict(c, near=tier) for c in out[::1 if tier == 'thorough' else 4]
            if c['n_pvrows'] < 6]
    out += [dict(space.cfg(9, 0.5, 2., 2., 0., {3: {'front': 2, 'back': 2}}),
                 tier='few'),
            dict(space.cfg(4, 0.65, 1.9, 2.2, 15., {2: {'back': 6}}),
                 tier='few')]
    return out


def run_case(c):
    res = Result()
    tier = c['tier']
    c = {k: v for k, v in c.items() if k != 'tier'}
    c['cut'] = space.key_int(c['cut'])
    near = c.pop('near', None)
    if near:
        states = events.near_states(c, near)
    elif tier == 'few':
        states = space.geo_states(c, 'quick', sun=space.suns('quick')[::5])
    else:
        states = space.geo_states(c, tier if c['n_pvrows'] < 5 else 'quick')
    states = [s for s in states if not space.near_edge(c, s)]
    for b in range(0, len(states), 600):
        batch(res, c, states[b:b + 600])
    return res


def batch(res, c, states):
    from pvfactors.viewfactors import VFCalculator
    n = len(states)
    pa = impl.pvarray(c, states)
    A = impl.Arrays(pa, n)
    F = VFCalculator().build_ts_vf_matrix(pa)
    for it, s in enumerate(states):
        compare(res, c, s, A, F, it)
        res.state(c, s)
    res.transitions += n
    res.traces += n


def compare(res, c, s, A, F, it):
    geom = ref.Geometry(c, **s)
    sc, pos = A.scene_surfaces(it, 1.1e-8)
    scene = ref.Scene(geom, sc)
    M = scene.matrix()
    # pieces shorter than min_len are not in the scene
    if scene.max_lost > 1e-9 + 2e-8 / max(1e-7, min(
            x for x, r in zip(scene.len, sc) if r['kind'] == 'row')):
        res.problem('surfaces leave a gap', state=s)
        return
    ix = np.append(A.index[pos], F.shape[0] - 1)
    f = F[:, :, it][np.ix_(ix, ix)]
    N = len(sc)
    tol = (TOL + 1e-9 / np.maximum(scene.len, 1e-9))[:, None]
    d = np.abs(f[:N] - M[:N])
    if not (d < tol).all():
        i, j = np.unravel_index(np.argmax(d / tol), d.shape)
        name = [surface_name(x) for x in sc] + ['sky']
        res.problem('a view factor is wrong', state=s, config=c,
                    surface=name[i], to=name[j],
                    got=f[i, j], want=M[i, j])
    for x, r in zip(sc, M):
        if x['kind'] == 'row':
            res.outcome('%s sees %s%s' % (x['side'], 'ground ' if any(
                r[j] > 1e-9 for j in range(N) if sc[j]['kind'] == 'gnd')
                else '', 'row' if any(r[j] > 1e-9 for j in range(N)
                                      if sc[j]['kind'] == 'row') else ''))


def surface_name(x):
    if x['kind'] == 'gnd':
        return 'ground %s [%.4f, %.4f]' % (
            'shaded' if x['shaded'] else 'illuminated', x['p'][0], x['q'][0])
    return 'row %d %s seg %d %s' % (x['row'], x['side'], x['seg'],
                                    'shaded' if x['shaded'] else 'illuminated')
