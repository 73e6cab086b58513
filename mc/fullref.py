"""Reference solution of the full mode at one timestep."""
import numpy as np
from mc import ref


def reference(c, model, s, doy, sc, horizon_at=None):
    """sc: surfaces as given by impl.Arrays.scene_surfaces

    Returns per-surface dicts of direct, circumsolar, horizon, isotropic,
    reflection, qinc, qabs, rho, q0 and the matrix of view factors."""
    geom = ref.Geometry(c, s['tilt'], s['surf_az'], s['zen'], s['az'])
    scene = ref.Scene(geom, sc)
    F = scene.matrix()
    comp, sky = ref.beam_components(model, s, doy)
    N = len(sc)
    names = ['direct'] + (['circumsolar', 'horizon']
                          if model['kind'] == 'perez' else [])
    rho_f = model.get('rho_front', 0.01)
    rho_b = model.get('rho_back', 0.03)
    out = {k: np.zeros(N) for k in names}
    rho = np.zeros(N)
    for k, x in enumerate(sc):
        where = 'gnd' if x['kind'] == 'gnd' else x['side']
        rho[k] = s['albedo'] if where == 'gnd' else \
            (rho_f if where == 'front' else rho_b)
        for name in names:
            v = comp[where, not x['shaded']][name]
            if name == 'horizon' and where == 'back':
                mid = 0.5 * (np.array(x['p']) + np.array(x['q']))
                v *= 1. - ref.horizon_shading(geom, model, x['row'], mid)
            out[name][k] = v
    irr = sum(out[k] for k in names)
    q = ref.solve_radiosity(F, irr, rho, sky)
    out['isotropic'] = F[:N, N] * sky
    out['qinc'] = q
    out['q0'] = rho * q
    out['reflection'] = q - irr - out['isotropic']
    out['qabs'] = (1. - rho) * q
    out['rho'] = rho
    return out, F, scene, sky, geom
