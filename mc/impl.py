"""Driving the real code through its public API, and reading its results."""
import datetime as dt
import numpy as np

DAY0 = dt.datetime(2019, 6, 1, 12)


def stamps(n, start=DAY0, step_h=1):
    return [start + dt.timedelta(hours=step_h * i) for i in range(n)]


def pvarray(cfg, fit=None):
    from pvfactors.geometry import OrderedPVArray
    pa = OrderedPVArray.init_from_dict(dict(
        n_pvrows=cfg['n_pvrows'], pvrow_height=cfg['pvrow_height'],
        pvrow_width=cfg['pvrow_width'], axis_azimuth=cfg['axis_azimuth'],
        gcr=cfg['gcr'], cut=int_keys(cfg.get('cut', {}))))
    if 'y_ground' in cfg:
        pa.y_ground = cfg['y_ground']
    if fit is not None:
        pa.fit(*[np.array([s[k] for s in fit], dtype=float)
                 for k in ('zen', 'az', 'tilt', 'surf_az')])
    return pa


def int_keys(cut):
    return {int(k): dict(v) for k, v in cut.items()}


def make_model(model):
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    kw = {k: v for k, v in model.items() if k not in ('kind', 'faoi')}
    cls = {'isotropic': IsotropicOrdered, 'perez': HybridPerezOrdered}
    return cls[model['kind']](**kw)


COLS = ('dni', 'dhi', 'zen', 'az', 'tilt', 'surf_az', 'albedo')


def columns(states):
    return {k: np.array([s[k] for s in states], dtype=float) for k in COLS}


def make_engine(cfg, model, vf=None, irr=None, **kw):
    from pvfactors.engine import PVEngine
    return PVEngine(pvarray(cfg), irradiance_model=irr or make_model(model),
                    vf_calculator=vf, **kw)


def fit_engine(eng, states, times=None, with_ghi=False):
    c = columns(states)
    ghi = np.array([s['ghi'] for s in states], dtype=float) if with_ghi else None
    eng.fit(times or stamps(len(states)), c['dni'], c['dhi'], c['zen'], c['az'],
            c['tilt'], c['surf_az'], c['albedo'], ghi=ghi)
    return eng


def surfaces(pa):
    """All timeseries surfaces, as (kind, row, side, shaded, segment, surface)"""
    out = []
    g = pa.ts_ground
    for el in g.shadow_elements:
        for s in el.all_ts_surfaces:
            out.append(('gnd', None, None, True, None, s))
    for el in g.illum_elements:
        for s in el.all_ts_surfaces:
            out.append(('gnd', None, None, False, None, s))
    for i, row in enumerate(pa.ts_pvrows):
        for side, sd in (('front', row.front), ('back', row.back)):
            for k, seg in enumerate(sd.list_segments):
                for s in seg.illum.list_ts_surfaces:
                    out.append(('row', i, side, False, k, s))
                for s in seg.shaded.list_ts_surfaces:
                    out.append(('row', i, side, True, k, s))
    return out


class Arrays(object):
    """Coordinates of all the surfaces of a fitted array, as dense arrays"""

    def __init__(self, pa, n):
        self.meta = surfaces(pa)
        self.index = np.array([m[5].index for m in self.meta])
        self.xy = np.array([[np.broadcast_to(m[5].b1.x, n),
                             np.broadcast_to(m[5].b1.y, n),
                             np.broadcast_to(m[5].b2.x, n),
                             np.broadcast_to(m[5].b2.y, n)]
                            for m in self.meta], dtype=float)  # (S, 4, n)
        self.length = np.hypot(self.xy[:, 2] - self.xy[:, 0],
                               self.xy[:, 3] - self.xy[:, 1])

    def scene_surfaces(self, it, min_len=1e-7):
        """Surfaces of a timestep in the format of ref.Scene, with their
        position in self.meta."""
        out, pos = [], []
        for k, m in enumerate(self.meta):
            if self.length[k, it] > min_len:
                x1, y1, x2, y2 = self.xy[k, :, it]
                out.append(dict(p=(x1, y1), q=(x2, y2), kind=m[0], row=m[1],
                                side=m[2], shaded=m[3], seg=m[4]))
                pos.append(k)
        return out, pos


def param(surface, name, n):
    return np.broadcast_to(np.asarray(surface.get_param(name), dtype=float), n)
