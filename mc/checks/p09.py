"""Histories of calls on engines: results depend on the last fit only."""
import copy
import itertools
import numpy as np
from mc import impl, space
from mc.core import Result
from mc.checks import p07

ID = 'P09'
TITLE = 'An engine forgets: results depend only on the last fit and the mode run'
RULE = ('all sequences of calls, up to the bound, on one engine and on two '
        'engines in turn (fit with batches of different lengths, full mode, '
        'fast mode on a row or segment, matrix of view factors); after each '
        'call everything that can be read is compared with a new engine that '
        'only made the last fit and the last run, and the inputs with copies')
ASSUMPTIONS = ['engines in turn share neither array, model nor calculator']

A_, B_, C_ = (
    ['noon', 'morning shading', 'evening shading'],
    ['evening shading', 'flat', 'sun on the back', 'overcast'],
    ['back shading'])
# as long as A, other surfaces exist at each of its timesteps
D_ = ['back shading', 'overcast', 'noon']
BATCH = {'A': A_, 'B': B_, 'C': C_, 'D': D_}
FITS = ['fit A', 'fit B', 'fit C', 'fit D']
OPS = FITS + [
    'full', 'fast 0', 'fast 1', 'fast 1 seg 1',
       'matrix']
CFG = space.cfg(3, 0.45, 1.6, 1.8, 0., {1: {'back': 2, 'front': 2}})
MODELS = [dict(kind='perez', module_transparency=0.1), dict(kind='isotropic'),
          dict(kind='perez', faoi=True)]


def new_engine(im, cfg=CFG):
    from pvfactors.viewfactors import VFCalculator
    model = dict(MODELS[im])
    vf = irr = None
    if model.pop('faoi', False):
        vf = VFCalculator(faoi_fn_front=p07.faoi, faoi_fn_back=p07.faoi,
                          n_aoi_integral_sections=25)
        irr = impl.make_model(dict(model, faoi_fn_front=p07.faoi,
                                   faoi_fn_back=p07.faoi))
    return impl.make_engine(cfg, model, vf=vf, irr=irr)


class Driven(object):
    """A real engine and the reference state: last fit, last runs"""

    def __init__(self, im, cfg=CFG):
        self.im = im
        self.eng = new_engine(im, cfg)
        self.fitted = None
        self.ran = ()          # runs since the last fit
        self.inputs = []
        self.read = []         # results read by the user, with copies

    def enabled(self, op):
        return self.fitted is not None or op.startswith('fit')

    def do(self, op):
        e = self.eng
        if self.ran:
            self.keep()
        if op.startswith('fit'):
            b = op[-1]
            states = [p07.ALPHABET[n] for n in BATCH[b]]
            c = impl.columns(states)
            t = [impl.stamps(1)[0]] * len(states)
            args = [t] + [c[k] for k in ('dni', 'dhi', 'zen', 'az', 'tilt',
                                         'surf_az', 'albedo')]
            self.inputs.append((op, args, copy.deepcopy(args)))
            e.fit(*args)
            self.fitted, self.ran = b, ()
        elif op == 'full':
            e.run_full_mode()
            self.ran += ('full',)
        elif op == 'matrix':
            from pvfactors.viewfactors import VFCalculator
            VFCalculator().build_ts_vf_matrix(e.pvarray)
        else:
            w = op.split()
            e.run_fast_mode(pvrow_index=int(w[1]),
                            segment_index=int(w[3]) if len(w) > 2 else None)
            self.ran += (op,)

    def keep(self):
        pa = self.eng.pvarray
        got = [pa.ts_pvrows[1].back.all_ts_surfaces[0].params.get('qinc'),
               pa.ts_pvrows[0].front.all_ts_surfaces[0].params.get('qinc'),
               pa.ts_ground.all_ts_surfaces[0].params.get('qinc')]
        if 'full' in self.ran:
            got += [pa.ts_vf_matrix, pa.ts_vf_aoi_matrix]
        self.read += [(x, np.array(x)) for x in got if x is not None]

    def observe(self):
        """Values a user reads after this history"""
        e = self.eng
        n = len(BATCH[self.fitted])
        out = {}
        for i, row in enumerate(e.pvarray.ts_pvrows):
            for side, sd in (('front', row.front), ('back', row.back)):
                for k, seg in enumerate(sd.list_segments):
                    for s in seg.all_ts_surfaces:
                        for p in ('qinc', 'isotropic', 'reflection', 'direct',
                                  'rho', 'qabs', 'q0', 'sky_term'):
                            v = s.params.get(p)
                            if v is not None:
                                out[i, side, k, s.shaded, p] = np.array(
                                    np.broadcast_to(v, n))
        for s in e.pvarray.ts_ground.all_ts_surfaces:
            for p in ('qinc', 'reflection', 'direct', 'rho', 'q0'):
                v = s.params.get(p)
                if v is not None:
                    out['gnd', s.index, p] = np.array(np.broadcast_to(v, n))
        if 'full' in self.ran:
            out['vf'] = np.array(e.pvarray.ts_vf_matrix)
            out['vf aoi'] = np.array(e.pvarray.ts_vf_aoi_matrix)
            out['calc'] = np.array(e.vf_calculator.vf_matrix)
        out['skip'] = np.array(e.skip_step)
        out['n'] = np.array(e.n_points)
        return out


_expected = {}


def canonical(ran):
    """Runs since the last fit whose results are still visible: each run
    overwrites what it calculates, so keep the last occurrence of each."""
    out = []
    for r in reversed(ran):
        if r not in out:
            out.append(r)
    return tuple(reversed(out))


def expected(im, fitted, ran):
    """A new engine: one fit, then the runs needed, once each"""
    key = (im, fitted, ran)
    if key not in _expected:
        d = Driven(im)
        d.do('fit %s' % fitted)
        for r in ran:
            d.do(r)
        _expected[key] = d.observe()
    return _expected[key]


def cases(tier):
    depth = 5 if tier == 'thorough' else 4
    out = []
    for im in range(len(MODELS)):
        for a in FITS:
            for b in OPS:
                out.append(dict(im=im, prefix=[a, b], engines=1, depth=depth +
                                0))
    # two engines, in turn; the second one has another model
    for a in FITS:
        for b in FITS:
            out.append(dict(im=0, prefix=[a, b], engines=2, depth=4 if
                            tier == 'quick' else 5))
    return out


def run_case(case):
    res = Result()
    im, d = case['im'], case['depth']
    if case['engines'] == 1:
        for rest in itertools.product(OPS, repeat=d - 2):
            # a final matrix call changes nothing more than an earlier one
            history(res, [(0, o) for o in case['prefix'] + list(rest)],
                    [im])
    else:
        ops = ['fit A', 'fit D', 'full', 'fast 1']
        for rest in itertools.product(itertools.product((0, 1), ops),
                                      repeat=d - 2):
            hist = [(0, case['prefix'][0]), (1, case['prefix'][1])] + list(rest)
            history(res, hist, [0, 1])
    return res


def history(res, hist, models):
    engines = [Driven(m) for m in models]
    cls = class_state()
    for step, (who, op) in enumerate(hist):
        engines[who].do(op)
        res.transitions += 1
    # every prefix of a history is a history of its own (shorter depth ones
    # are covered as prefixes below): compare at the end and for each engine
    for e, m in zip(engines, models):
        if e.fitted is None:
            continue
        ran = canonical(e.ran)
        want = expected(m, e.fitted, ran)
        got = e.observe()
        res.state(m, e.fitted, ran)
        if sorted(map(str, got)) != sorted(map(str, want)):
            res.problem('other results available than on a new engine',
                        history=hist)
            continue
        for k in want:
            if got[k].shape != want[k].shape or not np.allclose(
                    got[k], want[k], rtol=1e-9, atol=1e-9, equal_nan=True):
                res.problem('a result differs from that of a new engine',
                            history=hist, result=k, got=got[k], want=want[k])
                break
        for x, saved in e.read:
            if not np.array_equal(x, saved, equal_nan=True):
                res.problem('a result read earlier has changed', history=hist)
                break
        for op, args, saved in e.inputs:
            for x, y in zip(args, saved):
                if not np.array_equal(np.asarray(x), np.asarray(y)):
                    res.problem('an input was changed', history=hist)
        if 'vf' in got:
            # view factors stay view factors, losses go to the other matrix
            s = got['vf'].sum(axis=1)[:-1]
            if not ((np.abs(s - 1) < 1e-6) | (np.abs(s) < 1e-6)).all():
                res.problem('the matrix of view factors does not add up',
                            history=hist)
            if not np.array_equal(got['vf'], got['calc']):
                res.problem('matrices of the array and calculator differ',
                            history=hist)
        res.outcome(' then '.join(ran) if len(ran) < 3 else '3 runs or more')
    if class_state() != cls:
        res.problem('class attributes changed', history=hist)
    res.traces += 1


def class_state():
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    out = []
    for c in (OrderedPVArray, HybridPerezOrdered, IsotropicOrdered):
        out.append(sorted((k, repr(v)) for k, v in vars(c).items()
                          if isinstance(v, (list, dict, str, int, float))
                          and not k.startswith('__')))
    return out
