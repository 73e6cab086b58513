"""Drawings: recorded calls on a stand-in for the axes of matplotlib."""
import numpy as np
from mc import impl, ref, space
from mc.core import Result

ID = 'P23'
TITLE = 'A drawing of a timestep shows its surfaces'
RULE = ('arrays x orientations x sun positions x all drawing options (merged '
        'shadows, cut points, names of surfaces, extent), of arrays, grounds, '
        'rows, sides, segments and surfaces; the axes record what is drawn')
ASSUMPTIONS = ['sun above the horizon and not in the plane of the rows',
               'surfaces of a length below 1e-6 may be drawn or not',
               'colors are those of pvfactors.config.COLOR_DIC']
TOL = 1e-6


class Axes(object):
    """Stand-in for matplotlib axes"""

    def __init__(self):
        self.lines, self.points, self.texts = [], [], []
        self.xlim = self.ylim = None
        self.other = []

    def plot(self, x, y, *args, **kw):
        x, y = np.atleast_1d(x).astype(float), np.atleast_1d(y).astype(float)
        if args and args[0] == 'o':
            self.points += list(zip(x, y))
        else:
            self.lines.append((x, y, kw.get('color')))

    def text(self, x, y, s, **kw):
        self.texts.append((float(x), float(y), s))

    def set_xlim(self, a, b):
        self.xlim = (a, b)

    def set_ylim(self, a, b):
        self.ylim = (a, b)

    def __getattr__(self, name):
        def f(*a, **k):
            self.other.append(name)
        return f


def cases(tier):
    cfgs = space.configs(tier)
    return [dict(c=c, tier=tier) for c in (
        cfgs if tier == 'thorough' else cfgs[::2] + space.special(tier))]


def run_case(case):
    res = Result()
    c, tier = dict(case['c']), case['tier']
    c['cut'] = space.key_int(c['cut'])
    sun = space.suns(tier)
    sun = sun[::13] if tier == 'quick' else sun[::9]
    orient = space.orientations('quick')
    states = [s for s in space.geo_states(c, tier, sun=sun, orient=orient)
              if not space.near_edge(c, s)]
    n = len(states)
    pa = impl.pvarray(c, states)
    from pvfactors.config import COLOR_DIC as col
    A = impl.Arrays(pa, n)
    before = A.xy.copy()
    for it, s in enumerate(states):
        geom = ref.Geometry(c, **s)
        hidden = max(ref.total(geom.row_shaded_intervals(i, side))
                     for i in range(geom.n) for side in ('front', 'back'))
        options = [(m, k, w) for m in (True, False) for k in (True, False)
                   for w in (True, False)]
        # all the options over the states, two for each
        for o in (it, it + 3):
            array(res, pa, A, it, s, c, geom, col, options[o % 8],
                  o % 3 == 0, 0 < hidden)
        parts(res, pa, A, it, s, c, col)
        res.state(c, s)
    if not np.array_equal(impl.Arrays(pa, n).xy, before):
        res.problem('drawing changes the array')
    # everything again with the names of the arguments left out
    ax = Axes()
    pa.plot_at_idx(0, ax)
    if ax.texts or not ax.lines:
        res.problem('default options of the drawing')
    res.transitions += n * 2
    res.traces += n * 2
    return res


def key(p, q):
    return tuple(sorted([(round(p[0], 6) + 0., round(p[1], 6) + 0.),
                         (round(q[0], 6) + 0., round(q[1], 6) + 0.)]))


def segment_of(x, y):
    return np.array([x[0], y[0]]), np.array([x[-1], y[-1]])


def same(a, b):
    return min(np.abs(np.array(a) - np.array(b)).max(),
               np.abs(np.array(a) - np.array(b)[::-1]).max()) < TOL


def find(res, what, lines, wanted, optional, s, c):
    """Every wanted (line, color) is drawn once, and nothing else is"""
    left = list(lines)
    for want, color in wanted:
        hit = [k for k, (x, y, cc) in enumerate(left)
               if same(segment_of(x, y), want) and cc == color]
        if not hit:
            # front and back of a row are drawn at the same place
            res.problem('%s: a surface is not drawn' % what,
                        state=s, config=c, surface=want, color=color)
            return
        left.pop(hit[0])
    for want, color in optional:
        for k, (x, y, cc) in enumerate(left):
            if same(segment_of(x, y), want) and cc == color:
                left.pop(k)
                break
    if left:
        res.problem('%s: unexpected line' % what, state=s, config=c,
                    lines=[segment_of(x, y) for x, y, _ in left],
                    colors=[cc for _, _, cc in left])


def wanted(A, ks, it, illum, shaded):
    must, may = [], []
    for k in ks:
        x1, y1, x2, y2 = A.xy[k, :, it]
        L = A.length[k, it]
        item = (((x1, y1), (x2, y2)), shaded if A.meta[k][3] else illum)
        (must if L > TOL else may).append(item)
    return must, [m for m in may]


def array(res, pa, A, it, s, c, geom, col, option, default_color, hidden):
    merge, cuts, names = option
    ax = Axes()
    pa.plot_at_idx(it, ax, merge_if_flag_overlap=merge, with_cut_points=cuts,
                   with_surface_index=names)
    rows = [k for k, m in enumerate(A.meta) if m[0] == 'row']
    gnd = [k for k, m in enumerate(A.meta) if m[0] == 'gnd']
    y0 = geom.y0
    flat = [l for l in ax.lines if np.abs(l[1] - y0).max() < 1e-9
            and l[2] in (col['ground_illum'], col['ground_shaded'])]
    other = [l for l in ax.lines
             if not any(l is f for f in flat)]
    what = 'array merged=%s cut=%s' % (merge, cuts)
    must, may = wanted(A, rows, it, col['pvrow_illum'], col['pvrow_shaded'])
    find(res, what + ' rows', other, must, may, s, c)
    if cuts and not (merge and hidden):
        must, may = wanted(A, gnd, it, col['ground_illum'],
                           col['ground_shaded'])
        find(res, what + ' ground', flat, must, may, s, c)
    shadows = geom.ground_shaded_intervals()
    for color, want in ((col['ground_shaded'], shadows),
                        (col['ground_illum'], complement(shadows))):
        u = ref.union([(min(x), max(x)) for x, y, cc in flat if cc == color],
                      1e-9)
        u = [a for a in u if a[1] - a[0] > TOL]
        w = [a for a in want if a[1] - a[0] > TOL]
        if len(u) != len(w) or (w and np.abs(np.array(u) - np.array(w)).max()
                                > TOL):
            res.problem('%s: ground' % what, state=s, config=c, got=u, want=w)
        total = sum(max(x) - min(x) for x, y, cc in flat if cc == color)
        if not abs(total - ref.total(want)) < 10 * TOL:
            res.problem('%s: ground drawn twice' % what, state=s, config=c)
    # ends of surfaces are marked
    pts = np.array(ax.points)
    for x, y, _ in ax.lines:
        for p in segment_of(x, y):
            if not (np.abs(pts - p).max(axis=1) < 1e-9).any():
                res.problem('%s: end of a surface not marked' % what, state=s)
    # all the rows are in view
    if ax.xlim is None or not all(ax.xlim[0] <= x <= ax.xlim[1]
                                  for x in geom.centers[:, 0]) or \
            (y0 == 0 and not all(ax.ylim[0] <= y <= ax.ylim[1] for y in list(
                geom.high[:, 1]) + [0.])):
        res.problem('%s: rows out of view' % what, xlim=ax.xlim, ylim=ax.ylim)
    if 'axis' not in ax.other:
        res.problem('%s: axes of different scales' % what)
    # names
    if not names:
        if ax.texts:
            res.problem('%s: names of surfaces not asked for' % what)
        return
    by = {A.meta[k][5].index: k for k in rows + gnd}
    seen = set()
    for x, y, t in ax.texts:
        if not cuts and t == 'None':
            continue          # merged elements have no index
        if not t.lstrip('-').isdigit() or int(t) not in by:
            res.problem('%s: unknown name %r' % (what, t), state=s)
            continue
        k = by[int(t)]
        seen.add(k)
        p, q = A.xy[k, :2, it], A.xy[k, 2:, it]
        kind, row, side = A.meta[k][:3]
        if kind == 'row':
            nv = geom.nf if side == 'front' else -geom.nf
            want = 0.5 * (p + q) + 0.2 * nv
            ok = np.hypot(x - want[0], y - want[1]) < TOL
        elif merge and hidden:
            ok = abs(abs(y - y0) - 0.2) < TOL
        else:
            ok = abs(x - 0.5 * (p[0] + q[0])) < TOL and \
                abs(abs(y - y0) - 0.2) < TOL
        if not ok:
            res.problem('%s: place of the name of a surface' % what, state=s,
                        config=c, name=t, got=(x, y), ends=(p, q), side=side)
    missing = [k for k in rows if A.length[k, it] > TOL and k not in seen
               and abs(A.xy[k, [0, 2], it].mean()) < 49]
    if cuts and not (merge and hidden):
        missing += [k for k in gnd if A.length[k, it] > TOL and k not in seen
                    and abs(A.xy[k, [0, 2], it].mean()) < 49]
    if missing:
        res.problem('%s: names missing' % what, state=s, config=c,
                    names=[A.meta[k][5].index for k in missing])
    res.outcome(what + ' names')


def complement(shadows):
    out, x = [], ref.X_MIN
    for a, b in shadows:
        if a > x:
            out.append((x, a))
        x = b
    if x < ref.X_MAX:
        out.append((x, ref.X_MAX))
    return out


def parts(res, pa, A, it, s, c, col):
    gnd = [k for k, m in enumerate(A.meta) if m[0] == 'gnd']
    ax = Axes()
    pa.ts_ground.plot_at_idx(it, ax, color_shaded='A', color_illum='B',
                             merge_if_flag_overlap=False)
    must, may = wanted(A, gnd, it, 'B', 'A')
    find(res, 'ground', ax.lines, must, may, s, c)
    for i, row in enumerate(pa.ts_pvrows):
        mine = [k for k, m in enumerate(A.meta) if m[1] == i]
        for what, kw, (lit, dark) in (
                ('row', {}, (col['pvrow_illum'], col['pvrow_shaded'])),
                ('row', dict(color_shaded='A', color_illum='B',
                             with_surface_index=True), ('B', 'A'))):
            ax = Axes()
            row.plot_at_idx(it, ax, **kw)
            must, may = wanted(A, mine, it, lit, dark)
            find(res, what, ax.lines, must, may, s, c)
            if bool(ax.texts) != bool(kw) and abs(i * geom_dist(c)) < 40:
                res.problem('names of surfaces of a row')
        for side in ('front', 'back'):
            sd = getattr(row, side)
            own = [k for k in mine if A.meta[k][2] == side]
            ax = Axes()
            sd.plot_at_idx(it, ax, color_shaded='A', color_illum='B')
            must, may = wanted(A, own, it, 'B', 'A')
            find(res, 'side', ax.lines, must, may, s, c)
            for j, seg in enumerate(sd.list_segments):
                k1 = [k for k in own if A.meta[k][4] == j]
                ax = Axes()
                seg.plot_at_idx(it, ax, color_shaded='A', color_illum='B')
                must, may = wanted(A, k1, it, 'B', 'A')
                find(res, 'segment', ax.lines, must, may, s, c)
    for k, m in enumerate(A.meta):
        ax = Axes()
        m[5].plot_at_idx(it, ax, 'C')
        must, may = wanted(A, [k], it, 'C', 'C')
        find(res, 'surface', ax.lines, must, may, s, c)
    res.outcome('parts')


def geom_dist(c):
    return c['n_pvrows'] * c['pvrow_width'] / c['gcr']
