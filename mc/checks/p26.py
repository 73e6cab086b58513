"""Interleavings of two calculations in two threads."""
import numpy as np
from mc import points, space
from mc.core import Result
from mc.checks import p07, p08, p09, p25

ID = 'P26'
TITLE = 'Calculations in different threads do not disturb each other'
RULE = ('pairs of calculations (engines in both modes, with and without '
        'losses, runs from parameters, snapshots, drawings, matrices), that '
        'share no object, under a controlled scheduler: the first one is '
        'stopped at every line of pvfactors it executes while the second one '
        'runs to its end in another thread; and both are stopped in every '
        'function in turn (two preemptions). Both results must be the ones of '
        'a calculation alone')
ASSUMPTIONS = ['threads are switched between lines of pvfactors, calls to '
               'numpy and shapely are atomic',
               'the calculations share neither array, engine, model nor '
               'calculator']

CHUNKS = 10
CFG = space.cfg(2, 0.45, 1.6, 1.8, 0., {1: {'back': 2, 'front': 1}})


class Engine(object):
    def __init__(self, im, batch, op):
        self.key = im, batch, op

    def __call__(self):
        im, batch, op = self.key
        d = p09.Driven(im, CFG)
        d.do('fit %s' % batch)
        d.do(op)
        return d.observe()


class FromParameters(object):
    def __init__(self, form, n):
        self.form, self.n = form, n

    def __call__(self):
        from pvfactors import run as pvrun
        return pvrun.run_timeseries_engine(
            p08.Builder.build, **p08.arguments(self.form, self.n))


class OnArray(object):
    """Snapshots, drawings, matrices of an array of its own"""

    def __init__(self, what, batch):
        self.what, self.batch = what, batch
        self.pa = None

    def __call__(self):
        job = p25.OnArray(self.what)
        job.n = len(p09.BATCH[self.batch])
        if self.pa is None:
            d = p09.Driven(0, CFG)
            d.do('fit %s' % self.batch)
            d.do('full')
            self.pa = d.eng.pvarray
        return job.call(self.pa)


class Losses(object):
    """Full mode with losses of its own"""

    def __init__(self, power, batch):
        self.power, self.batch = power, batch

    def __call__(self):
        from pvfactors.viewfactors import VFCalculator
        from mc import impl

        def faoi(aoi):
            x = 90. - np.clip(aoi, 0., 180.)
            return np.cos(np.deg2rad(x)) ** self.power
        irr = impl.make_model(dict(kind='perez', faoi_fn_front=faoi,
                                   faoi_fn_back=faoi))
        eng = impl.make_engine(CFG, {}, vf=VFCalculator(faoi, faoi, 14),
                               irr=irr)
        states = [p07.ALPHABET[k] for k in p09.BATCH[self.batch]]
        impl.fit_engine(eng, states)
        eng.run_full_mode()
        out = p25.everything(eng.pvarray, len(states))
        out['aoi'] = np.array(eng.pvarray.ts_vf_aoi_matrix)
        return out


PAIRS = {
    'full, full': (Engine(0, 'A', 'full'), Engine(0, 'D', 'full')),
    'full, full isotropic': (Engine(0, 'A', 'full'), Engine(1, 'D', 'full')),
    'fast, fast': (Engine(0, 'A', 'fast 1'), Engine(0, 'D', 'fast 1')),
    'fast, fast segment': (Engine(1, 'A', 'fast 1'),
                           Engine(0, 'D', 'fast 1 seg 1')),
    'full, fast longer': (Engine(0, 'D', 'full'), Engine(1, 'B', 'fast 0')),
    'losses, losses': (Losses(0.2, 'A'), Losses(0.7, 'D')),
    'losses, full': (Losses(0.3, 'A'), Engine(0, 'D', 'full')),
    'parameters': (FromParameters('isotropic', 3), FromParameters('plain', 4)),
    'snapshots': (OnArray('snapshot', 'A'), OnArray('snapshot', 'D')),
    'drawings': (OnArray('drawing', 'A'), OnArray('drawing', 'D')),
    'snapshot, full': (OnArray('snapshot', 'A'), Engine(0, 'D', 'full')),
    'one side': (OnArray('one side', 'A'), OnArray('one side', 'D')),
    'matrices': (OnArray('matrix', 'A'), OnArray('losses', 'D'))}
MORE = ('full, full isotropic', 'fast, fast segment', 'losses, full')


def cases(tier):
    out = []
    for pair in PAIRS:
        n = CHUNKS if tier == 'quick' else 4 * CHUNKS
        if tier == 'quick' and pair in MORE:
            continue
        for part in range(n):
            for swap in ((False,) if tier == 'quick' else (False, True)):
                out.append(dict(pair=pair, part=part, of=n, tier=tier,
                                swap=swap))
    return out


def run_case(case):
    res = Result()
    a, b = PAIRS[case['pair']]
    if case['swap']:
        a, b = b, a
    want_a, want_b = a(), b()
    pts_a, pts_b = points.trace(a), points.trace(b)
    got = {}

    def run_a():
        got['a'] = a()

    def run_b():
        got['b'] = b()

    def check(err, **where):
        for k, w, e in (('a', want_a, err[0]), ('b', want_b, err[1])):
            if e is not None:
                res.problem('a calculation fails while another one runs',
                            pair=case['pair'], error=repr(e), **where)
                return False
            d = p25.close(got[k], w)
            if d is not None:
                res.problem('a calculation is disturbed by another one',
                            pair=case['pair'], result=d, **where)
                return False
        return True
    # one preemption: anywhere
    todo = points.select(pts_a, case['tier'], single=case['tier'] == 'quick')
    for i, (k, tag) in enumerate(todo):
        if i % case['of'] != case['part']:
            continue
        got.clear()
        err, reached = points.with_other(run_a, k, run_b)
        if not reached:
            res.outcome('point not reached again')
            continue
        if not check(err, at=pts_a[k], occurrence=tag):
            return res
        res.state(case['pair'], case['swap'], k)
        res.transitions += 1
        res.traces += 1
        res.outcome(case['pair'])
    # two preemptions: in all functions, of the other one in the same function
    # (thorough: in all functions)
    fa = points.select(pts_a, 'quick', functions=True)
    fb = points.select(pts_b, 'quick', functions=True)
    for i, (k, _) in enumerate(fa):
        if i % case['of'] != case['part']:
            continue
        for n, (j, _) in enumerate(fb):
            if pts_a[k][:2] != pts_b[j][:2] and (
                    case['tier'] == 'quick' or (n + i) % 7):
                continue
            got.clear()
            err = points.crossed(run_a, k, run_b, j)
            if not check(err, at=pts_a[k], other_at=pts_b[j]):
                return res
            res.state(case['pair'], case['swap'], k, j)
            res.transitions += 2
            res.traces += 1
            res.outcome('crossed: ' + case['pair'])
    return res
