"""Independent reference model of an ordered PV array, one timestep at a time.

Written from the documentation of the conventions (docs/theory and the class
docstrings), with plain geometry: ray casting for shadows, an exact angular
visibility sweep for the view factors (no crossed strings, no "only the
neighbour obstructs" shortcut, no cut points), a scalar Perez model, and a
direct solution of the radiosity balance.  Nothing here is imported from
pvfactors.
"""
import math
import numpy as np

X_MIN, X_MAX = -100., 100.
TINY = 1e-12


def cosd(a):
    return math.cos(math.radians(a))


def sind(a):
    return math.sin(math.radians(a))


class Geometry(object):
    """2D cross-section at one timestep.

    The x axis points towards azimuth ``axis_azimuth + 90``, y is up."""

    def __init__(self, cfg, tilt, surf_az, zen=None, az=None):
        self.cfg = cfg
        n = cfg['n_pvrows']
        self.n = n
        self.w = float(cfg['pvrow_width'])
        # level of the ground, height of the centers above it
        self.y0 = float(cfg.get('y_ground', 0.))
        self.h = float(cfg['pvrow_height'])
        self.dist = self.w / cfg['gcr']
        rel = surf_az - cfg['axis_azimuth'] - 90.
        self.nf = np.array([sind(tilt) * (1. if cosd(rel) > 0 else -1.),
                            cosd(tilt)])
        self.t = np.array([self.nf[1], -self.nf[0]])
        self.centers = np.array([[i * self.dist, self.y0 + self.h] for i in range(n)])
        self.start = self.centers - 0.5 * self.w * self.t
        self.end = self.centers + 0.5 * self.w * self.t
        self.low = np.where((self.start[:, 1] < self.end[:, 1])[:, None],
                            self.start, self.end)
        self.high = np.where((self.start[:, 1] < self.end[:, 1])[:, None],
                             self.end, self.start)
        self.sun = None
        if zen is not None:
            self.sun = np.array([sind(zen) * cosd(az - cfg['axis_azimuth'] - 90.),
                                 cosd(zen)])

    # -- shadows -----------------------------------------------------------
    def ground_shadow(self, i):
        """Interval of the ground (unclipped) shadowed by row i"""
        xs = []
        for e in (self.start[i], self.end[i]):
            xs.append(e[0] - (e[1] - self.y0) * self.sun[0] / self.sun[1])
        return min(xs), max(xs)

    def ground_shaded_intervals(self):
        """Union of the shadows, clipped to the ground"""
        iv = []
        for i in range(self.n):
            a, b = self.ground_shadow(i)
            iv.append((min(max(a, X_MIN), X_MAX), min(max(b, X_MIN), X_MAX)))
        return union(iv)

    def sunlit_side(self):
        """'front', 'back', or None when the sun is in the plane of the rows"""
        c = float(self.sun.dot(self.nf))
        return 'front' if c > TINY else ('back' if c < -TINY else None)

    def row_shaded_intervals(self, i, side):
        """Union of shadows of the other rows on a side of row i, in terms of
        distance from the start point of the row."""
        if self.sunlit_side() != side:
            return []
        c = float(self.sun.dot(self.nf))
        iv = []
        for j in range(self.n):
            if j == i:
                continue
            k = float((self.start[j] - self.centers[i]).dot(self.nf)) / c
            if k <= 0:
                continue  # row j is not between row i and the sun
            us = [float((e - k * self.sun - self.start[i]).dot(self.t))
                  for e in (self.start[j], self.end[j])]
            a = max(0., min(us))
            b = min(self.w, max(us))
            if b > a:
                iv.append((a, b))
        return union(iv)

    def point_in_sun(self, p, skip_row=None):
        """Ray cast from point p to the sun: does it miss all the rows?"""
        for j in range(self.n):
            if j == skip_row:
                continue
            if ray_hits(p, self.sun, self.start[j], self.end[j]):
                return False
        return True


def union(iv, tol=1e-12):
    out = []
    for a, b in sorted(iv):
        if b - a <= tol:
            continue
        if out and a <= out[-1][1] + tol:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def total(iv):
    return sum(b - a for a, b in iv)


def same(got, want, tol):
    """The same intervals, up to gaps and pieces shorter than tol"""
    if len(got) == len(want) and not any(
            abs(a - b) > tol for p, q in zip(got, want) for a, b in zip(p, q)):
        return True
    g, w = union(got, tol), union(want, tol)
    ends = sorted({x for i in g + w for x in i})
    diff = 0.
    for a, b in zip(ends[:-1], ends[1:]):
        m = .5 * (a + b)
        if any(p < m < q for p, q in g) != any(p < m < q for p, q in w):
            if b - a > tol:
                return False
            diff += b - a
    return diff <= 8 * tol


def ray_hits(p, d, a, b):
    """Does the open ray p + k d (k > 0) cross segment [a, b]?"""
    ex, ey = b[0] - a[0], b[1] - a[1]
    det = d[0] * (-ey) + ex * d[1]
    if abs(det) < 1e-15:
        return False
    rx, ry = a[0] - p[0], a[1] - p[1]
    k = (rx * (-ey) + ex * ry) / det
    u = (d[0] * ry - d[1] * rx) / det
    return k > 1e-12 and 0. <= u <= 1.


class Scene(object):
    """Surfaces of one timestep, for exact visibility calculations.

    surfaces: list of dicts with
        p, q   end points,
        kind   'gnd' or 'row',
        row, side ('front'/'back') for kind 'row'
    Surfaces of zero length must not be in the list.
    Rows are the only obstacles, the ground is at y = geom.y0."""

    def __init__(self, geom, surfaces):
        self.g = geom
        self.s = surfaces
        self.beyond = 0.      # view factor to the plane of the ground beyond
        self.P = np.array([s['p'] for s in surfaces], dtype=float).reshape(-1, 2)
        self.Q = np.array([s['q'] for s in surfaces], dtype=float).reshape(-1, 2)
        self.len = np.hypot(*(self.Q - self.P).T)
        pts = np.vstack([geom.start, geom.end, self.P, self.Q])
        # unique points
        key = np.round(pts, 9)
        _, ix = np.unique(key, axis=0, return_index=True)
        self.crit = pts[np.sort(ix)]
        # lookup tables: ground surfaces by x, row surfaces by (row, side)
        self.gnd = sorted(
            (min(s['p'][0], s['q'][0]), max(s['p'][0], s['q'][0]), k)
            for k, s in enumerate(surfaces) if s['kind'] == 'gnd')
        self.gnd_lo = np.array([a for a, _, _ in self.gnd])
        self.gnd_hi = np.array([b for _, b, _ in self.gnd])
        self.gnd_ix = np.array([k for _, _, k in self.gnd], dtype=int)
        self.row = {}
        for k, s in enumerate(surfaces):
            if s['kind'] == 'row':
                u = sorted(float((np.asarray(e) - geom.start[s['row']]).dot(geom.t))
                           for e in (s['p'], s['q']))
                self.row.setdefault((s['row'], s['side']), []).append(
                    (u[0], u[1], k))

    def frame(self, k):
        s = self.s[k]
        n = self.g.nf if s['side'] == 'front' else -self.g.nf
        t = np.array([n[1], -n[0]])
        a, b = self.P[k], self.Q[k]
        if (b - a).dot(t) < 0:
            a, b = b, a
        return a, b, t, n

    def _first_hit(self, origins, dirs, skip_row):
        """Index of the surface seen from origins in directions dirs;
        -1: sky, -2: something that is no listed surface."""
        m = len(origins)
        best = np.full(m, np.inf)
        hit = np.full(m, -1, dtype=int)
        g = self.g
        for j in range(g.n):
            if j == skip_row:
                continue
            a, e = g.start[j], g.end[j] - g.start[j]
            det = dirs[:, 0] * (-e[1]) + e[0] * dirs[:, 1]
            rx, ry = a[0] - origins[:, 0], a[1] - origins[:, 1]
            with np.errstate(all='ignore'):
                k = (rx * (-e[1]) + e[0] * ry) / det
                u = (dirs[:, 0] * ry - dirs[:, 1] * rx) / det
            ok = (np.abs(det) > 1e-15) & (k > 1e-12) & (u >= 0) & (u <= 1) \
                & (k < best)
            if not ok.any():
                continue
            facing_front = dirs.dot(g.nf) < 0
            for side, sel in (('front', ok & facing_front),
                              ('back', ok & ~facing_front)):
                if not sel.any():
                    continue
                uu = u[sel] * g.w
                res = np.full(sel.sum(), -2, dtype=int)
                for lo, hi, idx in self.row.get((j, side), []):
                    res[(uu >= lo) & (uu <= hi)] = idx
                hit[sel] = res
            best[ok] = k[ok]
        down = dirs[:, 1] < 0
        with np.errstate(all='ignore'):
            kg = (g.y0 - origins[:, 1]) / dirs[:, 1]
        sel = down & (kg > 0) & (kg < best)
        if sel.any() and len(self.gnd):
            x = origins[sel, 0] + kg[sel] * dirs[sel, 0]
            pos = np.searchsorted(self.gnd_lo, x, side='right') - 1
            res = np.full(len(x), -3, dtype=int)      # beyond the ground: sky
            okp = pos >= 0
            inside = okp & (x <= self.gnd_hi[np.maximum(pos, 0)])
            res[inside] = self.gnd_ix[pos[inside]]
            res[(~inside) & (x > X_MIN) & (x < X_MAX)] = -2
            hit[sel] = res
        return hit

    def view_factors(self, k):
        """Exact view factors from row surface k to every surface, and to the
        sky (last element)."""
        g = self.g
        a, b, t, n = self.frame(k)
        skip = self.s[k]['row']
        L = float((b - a).dot(t))
        # break the surface where the order of visible end points changes: at
        # the lines through the end of an obstacle and any other end point
        obst = np.vstack([np.delete(g.start, skip, 0), np.delete(g.end, skip, 0)])
        cuts = [0., L]
        if len(obst):
            O = np.repeat(obst, len(self.crit), axis=0)
            C = np.tile(self.crit, (len(obst), 1))
            d = C - O
            den = d.dot(n)
            with np.errstate(all='ignore'):
                lam = (a - O).dot(n) / den
                x = (O + lam[:, None] * d - a).dot(t)
            x = x[np.isfinite(x) & (x > 1e-11) & (x < L - 1e-11)]
            cuts += x.tolist()
        cuts = np.unique(np.array(cuts))
        keep = np.concatenate([[True], np.diff(cuts) > 1e-11])
        cuts = cuts[keep]
        xa, xb = cuts[:-1], cuts[1:]
        xa, xb = xa.copy(), xb.copy()
        xb[-1] = L
        # order the end points as seen from one position in each piece; where
        # two directions happen to coincide there, look from another position
        for fraction in (0.4371, 0.5519, 0.3137, 0.6823):
            mid = xa + fraction * (xb - xa)
            out = self._sweep(a, t, n, skip, mid, xa, xb)
            if self.dropped < 1e-11 * L:
                break
        self.beyond /= L
        self.lost /= L
        return out / L

    def _sweep(self, a, t, n, skip, mid, xa, xb):
        K = len(mid)
        rel = self.crit - a
        px, py = rel.dot(t), rel.dot(n)
        front = py > 1e-10
        px, py = px[front], py[front]
        M = len(px)
        X = px[None, :] - mid[:, None]
        Y = np.repeat(py[None, :], K, axis=0)
        phi = np.arctan2(Y, X)
        # integrals of cos(phi) over each piece, for each limit direction
        I = np.hypot(px[None, :] - xa[:, None], py[None, :]) \
            - np.hypot(px[None, :] - xb[:, None], py[None, :])
        ln = (xb - xa)[:, None]
        phi = np.hstack([np.zeros((K, 1)), phi, np.full((K, 1), math.pi)])
        I = np.hstack([ln, I, -ln])
        order = np.argsort(phi, axis=1, kind='stable')
        phi = np.take_along_axis(phi, order, 1)
        I = np.take_along_axis(I, order, 1)
        contrib = 0.5 * (I[:, :-1] - I[:, 1:])
        mphi = 0.5 * (phi[:, :-1] + phi[:, 1:])
        wide = (phi[:, 1:] - phi[:, :-1]) > 1e-11
        self.dropped = float(np.abs(contrib[~wide]).sum())
        kk, mm = np.nonzero(wide)
        ang = mphi[kk, mm]
        dirs = np.cos(ang)[:, None] * t[None, :] + np.sin(ang)[:, None] * n[None, :]
        orig = a[None, :] + mid[kk][:, None] * t[None, :]
        hit = self._first_hit(orig, dirs, skip)
        N = len(self.s)
        out = np.zeros(N + 3)
        np.add.at(out, np.where(hit >= 0, hit, N - 1 - hit), contrib[kk, mm])
        self.beyond = float(out[N + 2])
        self.lost = float(out[N + 1])
        out[N] += self.beyond
        return out[:N + 1]

    def seen_from_center(self, k):
        """Angular intervals (from the surface plane, in degrees, 0 to 180)
        seen from the middle of row surface k: list of (lo, hi, index), index
        len(surfaces) being the sky."""
        a, b, t, n = self.frame(k)
        skip = self.s[k]['row']
        m = 0.5 * (a + b)
        rel = self.crit - m
        px, py = rel.dot(t), rel.dot(n)
        f = py > 1e-10
        phi = np.sort(np.concatenate([[0.], np.arctan2(py[f], px[f]), [math.pi]]))
        lo, hi = phi[:-1], phi[1:]
        w = hi - lo > 1e-11
        lo, hi = lo[w], hi[w]
        ang = 0.5 * (lo + hi)
        dirs = np.cos(ang)[:, None] * t + np.sin(ang)[:, None] * n
        hit = self._first_hit(np.repeat(m[None, :], len(ang), 0), dirs, skip)
        return [(math.degrees(x), math.degrees(y),
                 int(h) if h >= 0 else (-2 if h == -2 else len(self.s)))
                for x, y, h in zip(lo, hi, hit)]

    def matrix(self):
        """Full matrix [n + 1, n + 1]: exact view factors for the rows, by
        reciprocity for the ground, and the rest goes to the sky."""
        N = len(self.s)
        F = np.zeros((N + 1, N + 1))
        lost = 0.
        for k, s in enumerate(self.s):
            if s['kind'] == 'row':
                F[k, :] = self.view_factors(k)
                lost = max(lost, abs(self.lost))
        for k, s in enumerate(self.s):
            if s['kind'] == 'gnd':
                for j, r in enumerate(self.s):
                    if r['kind'] == 'row':
                        F[k, j] = F[j, k] * self.len[j] / self.len[k]
                F[k, N] = 1. - F[k, :N].sum()
        self.max_lost = lost
        return F


# ---------------------------------------------------------------------------
# Perez model (Perez et al. 1990, 'allsitescomposite1990'), scalar
PEREZ_BINS = [1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2]
PEREZ_COEFFS = [
    [-0.0080, 0.5880, -0.0620, -0.0600, 0.0720, -0.0220],
    [0.1300, 0.6830, -0.1510, -0.0190, 0.0660, -0.0290],
    [0.3300, 0.4870, -0.2210, 0.0550, -0.0640, -0.0260],
    [0.5680, 0.1870, -0.2950, 0.1090, -0.1520, -0.0140],
    [0.8730, -0.3920, -0.3620, 0.2260, -0.4620, 0.0010],
    [1.1320, -1.2370, -0.4120, 0.2880, -0.8230, 0.0560],
    [1.0600, -1.6000, -0.3590, 0.2640, -1.1270, 0.1310],
    [0.6780, -0.3270, -0.2500, 0.1560, -1.3770, 0.2510]]


def extra_radiation(doy):
    b = 2. * math.pi / 365. * (doy - 1)
    return 1366.1 * (1.00011 + 0.034221 * math.cos(b) + 0.00128 * math.sin(b)
                     + 0.000719 * math.cos(2 * b) + 7.7e-05 * math.sin(2 * b))


def airmass(zen):
    if zen > 90:
        return float('nan')
    return 1. / (cosd(zen) + 0.50572 * (6.07995 + (90. - zen)) ** -1.6364)


def perez_f1_f2(doy, zen, dni, dhi):
    z = math.radians(zen)
    k3 = 1.041 * z ** 3
    eps = ((dhi + dni) / dhi + k3) / (1. + k3)
    row = PEREZ_COEFFS[sum(1 for b in PEREZ_BINS if eps >= b)]
    delta = dhi * airmass(zen) / extra_radiation(doy)
    f1 = max(0., row[0] + row[1] * delta + row[2] * z)
    f2 = row[3] + row[4] * delta + row[5] * z
    return f1, f2


def aoi_cos(tilt, surf_az, zen, az):
    c = cosd(tilt) * cosd(zen) + sind(tilt) * sind(zen) * cosd(az - surf_az)
    return min(1., max(-1., c))


def perez_components(doy, tilt, surf_az, zen, az, dni, dhi):
    """Isotropic luminance, circumsolar irradiance on the horizontal, horizon
    irradiance on the tilted surface, circumsolar irradiance on front/back.

    When the total diffuse irradiance on a side comes out negative, Perez sets
    it (with all its components) to zero."""
    if dhi == 0:
        return dict(iso=0., circ=0., horizon=0., circ_front=0., circ_back=0.)
    f1, f2 = perez_f1_f2(doy, zen, dni, dhi)
    ca = aoi_cos(tilt, surf_az, zen, az)
    b = max(cosd(zen), cosd(85.))

    def total_diffuse(tl, cos_aoi):
        return dhi * ((1. - f1) * 0.5 * (1. + cosd(tl))
                      + f1 * max(0., cos_aoi) / b + f2 * sind(tl))
    front = total_diffuse(tilt, ca) > 0
    iso = dhi * (1. - f1) if front else 0.
    horizon = abs(dhi * f2 * sind(tilt)) if front else 0.
    if ca < 0:
        back = total_diffuse(180. - tilt, -ca) > 0
        circ = dhi * f1 if back else 0.
    else:
        circ = dhi * f1 if front else 0.
    return dict(iso=iso, circ=circ, horizon=horizon,
                circ_front=circ * max(0., ca) / b,
                circ_back=circ * max(0., -ca) / b)


def through_modules(model):
    """Share of direct light that goes through the PV rows"""
    s = model.get('module_spacing_ratio', 0.)
    return s + (1. - s) * model.get('module_transparency', 0.)


def beam_components(model, state, doy):
    """Irradiance components, per category of surface.

    Returns {category: {component: value}} without horizon shading, and the
    isotropic luminance of the sky."""
    zen, az = state['zen'], state['az']
    dni, dhi = state['dni'], state['dhi']
    ca = aoi_cos(state['tilt'], state['surf_az'], zen, az)
    thru = through_modules(model)
    direct = {'gnd': dni * cosd(zen), 'front': dni * max(0., ca),
              'back': dni * max(0., -ca)}
    if model['kind'] == 'isotropic':
        comp = {'direct': direct}
        sky = dhi
        horizon = None
    else:
        pz = perez_components(doy, state['tilt'], state['surf_az'], zen, az,
                              dni, dhi)
        comp = {'direct': direct,
                'circumsolar': {'gnd': pz['circ'], 'front': pz['circ_front'],
                                'back': pz['circ_back']}}
        sky = pz['iso']
        horizon = pz['horizon']
    out = {}
    for where in ('gnd', 'front', 'back'):
        for lit in (True, False):
            out[where, lit] = {c: v[where] * (1. if lit else thru)
                               for c, v in comp.items()}
            if horizon is not None:
                out[where, lit]['horizon'] = 0. if where == 'gnd' else horizon
    return out, sky


def horizon_shading(geom, model, row, point):
    """Share of the horizon band hidden from a point of the back side of a row
    by the row that this side looks at."""
    band = model.get('horizon_band_angle', 6.5)
    looks_right = geom.nf[0] < 0
    j = row + 1 if looks_right else row - 1
    if j < 0 or j >= geom.n:
        return 0.
    top = geom.high[j]
    ang = abs(math.degrees(math.atan((top[1] - point[1]) / (top[0] - point[0]))))
    return min(1., ang / band)


def solve_radiosity(F, irr, rho, sky):
    """qinc = irr + F q0 (sky included as last element, with q0 = sky);
    q0 = rho * qinc"""
    N = len(irr)
    A = np.eye(N) - F[:N, :N] * np.asarray(rho)[None, :]
    qinc = np.linalg.solve(A, np.asarray(irr) + F[:N, N] * sky)
    return qinc
