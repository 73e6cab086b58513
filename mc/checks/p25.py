"""Failures at every point of a calculation."""
import copy
import numpy as np
from mc import impl, points, space
from mc.core import Result
from mc.checks import p07, p08, p09

ID = 'P25'
TITLE = 'A failure is never hidden and leaves nothing behind'
RULE = ('for each kind of call (fit and runs of an engine, runs from '
        'parameters, matrices, snapshots and drawings), a failure is raised at '
        'every line of pvfactors that it executes (first and last '
        'time), with what comes after it taken in turn from: the same calls '
        'again, only the run again, other calls; results must be those of '
        'objects that never failed. In parallel runs and user functions, '
        'failures are raised at every call')
ASSUMPTIONS = ['static geometries are not required to survive a failure in '
               'the middle of their own modification']

CHUNKS = 6


def cases(tier):
    out = []
    for sc in SCENARIOS:
        for part in range(CHUNKS if tier == 'quick' else 3 * CHUNKS):
            out.append(dict(sc=sc, part=part, of=CHUNKS if tier == 'quick'
                            else 3 * CHUNKS, tier=tier))
    for form in ('plain', 'faoi', 'fast'):
        for p in (1, 2, 3):
            out.append(dict(parallel=form, p=p))
    for form in ('plain', 'faoi', 'fast'):
        out.append(dict(user=form))
    return out


def close(a, b):
    if sorted(map(str, a)) != sorted(map(str, b)):
        return 'what is available'
    for k in b:
        x, y = np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float)
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9,
                                                 equal_nan=True):
            return k
    return None


class EngineRun(object):
    """fit and runs on an engine that has been used, and may have failed
    before: each point starts from what the recovery of the last one left"""

    def __init__(self, im, op, batches='AD'):
        self.im, self.op, self.batches = im, op, batches
        self.warm = None

    def setup(self):
        d = self.warm
        if d is None:
            d = p09.Driven(self.im)
            d.do('fit %s' % self.batches[1])
            d.do('full')
            d.do('fast 1')
        self.warm = None
        d.batch = self.batches[0 if d.fitted != self.batches[0] else 1]
        d.inputs, d.read = d.inputs[-3:], d.read[-6:]
        if d.ran:
            d.keep()
        d.fitted, d.ran = None, ()
        return d

    def act(self, d):
        d.do('fit %s' % d.batch)
        d.do(self.op)

    def after(self, d, tag, res):
        if tag % 3 == 1 and d.fitted:
            d.do(self.op)           # only the run again
        elif tag % 3 < 2:
            d.do('fit %s' % d.batch)
            d.do(self.op)
        else:
            d.do('fit C')
            d.do('fast 1' if self.op == 'full' else 'full')
        self.check(d, res, tag)
        self.warm = d

    def check(self, d, res, tag, what='after a failure, another result'):
        want = p09.expected(self.im, d.fitted, p09.canonical(d.ran))
        k = close(d.observe(), want)
        if k is not None:
            res.problem(what, result=k, op=self.op, fitted=d.fitted, ran=d.ran)
        for op, args, saved in d.inputs:
            for x, y in zip(args, saved):
                if not np.array_equal(np.asarray(x), np.asarray(y)):
                    res.problem('after a failure, inputs have changed')
        for x, saved in d.read:
            if not np.array_equal(x, saved, equal_nan=True):
                res.problem('after a failure, a result read earlier changed')
                break
        if tag % 5:
            return
        # an engine that is new
        e = p09.Driven(self.im)
        e.do('fit A')
        e.do(self.op)
        k = close(e.observe(), p09.expected(self.im, 'A', (self.op,)))
        if k is not None:
            res.problem('after a failure, a new engine gives another result',
                        result=k)


class FromParameters(object):
    """run_timeseries_engine"""

    def __init__(self, form):
        self.form = form

    def setup(self):
        if not hasattr(self, 'want'):
            self.want = self.call(p08.arguments(self.form, 3))
        return p08.arguments(self.form, 3)

    def call(self, kw):
        from pvfactors import run as pvrun
        return pvrun.run_timeseries_engine(p08.Builder.build, **kw)

    def act(self, kw):
        self.call(kw)

    def after(self, kw, tag, res):
        p08.unchanged(res, kw, p08.arguments(self.form, 3), self.form)
        if tag % 3 < 2:
            k = close(self.call(kw), self.want)
        else:
            k = close(self.call(p08.arguments(self.form, 3)), self.want)
        if k is not None:
            res.problem('after a failure, another report', entry=k)


def everything(pa, n):
    A = impl.Arrays(pa, n)
    out = {'xy': A.xy}
    for k, m in enumerate(A.meta):
        for p, v in m[5].params.items():
            if v is not None:
                out[k, p] = np.array(np.broadcast_to(v, n))
    return out


class OnArray(object):
    """Matrices, snapshots and drawings of a calculated array"""

    def __init__(self, what):
        self.what = what

    def setup(self):
        if hasattr(self, 'pa'):
            return self.pa          # the same array, after many failures
        d = p09.Driven(0)
        d.do('fit A')
        d.do('full')
        self.n = len(p09.BATCH['A'])
        self.before = everything(d.eng.pvarray, self.n)
        self.pa = d.eng.pvarray
        self.want = self.call(self.pa)
        return self.pa

    def call(self, pa):
        from pvfactors.viewfactors import VFCalculator
        from mc.checks import p23
        out = {}
        if self.what == 'matrix':
            out['m'] = VFCalculator().build_ts_vf_matrix(pa)
        elif self.what == 'losses':
            calc = VFCalculator(p07.faoi, p07.faoi, 12)
            calc.fit(self.n)
            calc.build_ts_vf_matrix(pa)
            out['m'] = calc.build_ts_vf_aoi_matrix(
                pa, np.full((pa.n_ts_surfaces + 1, self.n), 0.1))
        elif self.what == 'one side':
            for i in range(3):
                seg = pa.ts_pvrows[1].back.list_segments
                for s in seg[i % len(seg)].all_ts_surfaces:
                    vf = VFCalculator().get_vf_ts_pvrow_element(
                        1, s, pa.ts_pvrows, pa.ts_ground, pa.rotation_vec,
                        pa.width)
                    for k, v in vf.items():
                        out[i, s.index, k] = v
        elif self.what == 'snapshot':
            for it in range(self.n):
                for opt in ((True, False), (False, True)):
                    g = pa.ts_ground.at(it, merge_if_flag_overlap=opt[0],
                                        with_cut_points=opt[1])
                    rows = [r.at(it) for r in pa.ts_pvrows]
                    for i, x in enumerate([g] + rows):
                        for j, s in enumerate(x.all_surfaces):
                            out[it, opt, i, j] = np.array(s.coords)
                            q = s.params.get('qinc')
                            out[it, opt, i, j, 'q'] = -1. if q is None else q
        else:
            for it in range(self.n):
                ax = p23.Axes()
                pa.plot_at_idx(it, ax, with_surface_index=True)
                out[it, 'n'] = len(ax.lines)
                for j, (x, y, _) in enumerate(ax.lines):
                    out[it, j] = np.array([x, y])
                out[it, 'texts'] = [t[:2] for t in ax.texts]
        return out

    def act(self, pa):
        self.call(pa)

    def after(self, pa, tag, res):
        k = close(everything(pa, self.n), self.before)
        if k is not None:
            res.problem('a failure changed the array', what=self.what, got=k)
        k = close(self.call(pa), self.want)
        if k is not None:
            res.problem('after a failure, another result of %s' % self.what,
                        got=k)


SCENARIOS = {
    'full': EngineRun(0, 'full'), 'fast': EngineRun(0, 'fast 1'),
    'fast segment, isotropic': EngineRun(1, 'fast 1 seg 1', 'BA'),
    'full, losses': EngineRun(2, 'full', 'DA'),
    'from parameters': FromParameters('plain'),
    'from parameters, fast': FromParameters('fast'),
    'matrix': OnArray('matrix'), 'losses': OnArray('losses'),
    'one side': OnArray('one side'), 'snapshot': OnArray('snapshot'),
    'drawing': OnArray('drawing')}


def run_case(case):
    res = Result()
    if 'parallel' in case:
        return parallel(res, case['parallel'], case['p'])
    if 'user' in case:
        return user(res, case['user'])
    sc = SCENARIOS[case['sc']]
    if isinstance(sc, EngineRun):
        for op in ('full', 'fast 1', sc.op):  # references, before any failure
            for b in 'ABCD':
                p09.expected(sc.im, b, (op,))
        sc.warm = None
    ctx = sc.setup()
    pts = points.trace(lambda: sc.act(ctx))
    todo = points.select(pts, case['tier'])
    for i, (k, tag) in enumerate(todo):
        if i % case['of'] != case['part']:
            continue
        ctx = sc.setup()
        exc = points.Stop('here') if (k + tag) % 2 else MemoryError('here')
        got = points.interrupted(lambda: sc.act(ctx), k, exc)
        if got == 'hidden':       # another exception is as good
            res.problem('a failure does not get out of the call', got=got,
                        at=pts[k], scenario=case['sc'])
        before = len(res.problems)
        try:
            sc.after(ctx, tag, res)
        except Exception as e:
            res.problem('after a failure, %r' % e, at=pts[k],
                        scenario=case['sc'])
        if len(res.problems) > before:
            res.problem('failure at', at=pts[k], occurrence=tag,
                        scenario=case['sc'])
            return res
        res.outcome('failures in %s' % case['sc'])
        res.state(case['sc'], k)
        res.transitions += 1
        res.traces += 1
    return res


class Fragile(object):
    """A report builder that fails at one of its calls"""
    fail = None

    @staticmethod
    def build(pvarray):
        if Fragile.fail is not None and \
                pvarray.rotation_vec[0] in Fragile.fail:
            raise ValueError('cannot build')
        return p08.Builder.build(pvarray)

    @staticmethod
    def merge(reports):
        if Fragile.fail == ('merge',):
            raise ValueError('cannot merge')
        return p08.Builder.merge(reports)


def parallel(res, form, p):
    """Each subset of the workers fails"""
    import itertools
    import multiprocessing
    from pvfactors import run as pvrun
    multiprocessing.current_process()._config['daemon'] = False
    n = 6
    kw = p08.arguments(form, n)
    want = pvrun.run_parallel_engine(p08.Builder, n_processes=p,
                                     **p08.arguments(form, n))
    # first rotation of each chunk
    pa = pvrun.run_timeseries_engine(lambda pa: pa, **p08.arguments(form, n))
    rot = list(pa.rotation_vec)
    firsts = [rot[int(ix[0])] for ix in np.array_split(np.arange(n), p)]
    fails = [(f,) for f in firsts] + [tuple(firsts)] + [('merge',)]
    for f in fails:
        Fragile.fail = f
        try:
            got = pvrun.run_parallel_engine(Fragile, n_processes=p, **kw)
            res.problem('a failure in a worker is hidden', form=form, p=p,
                        worker=f, got=sorted(got) if got else None)
        except Exception:
            res.outcome('failures of workers')
        Fragile.fail = None
        got = pvrun.run_parallel_engine(Fragile, n_processes=p, **kw)
        k = close(got, want)
        if k is not None:
            res.problem('after a failure of a worker, another report', entry=k)
        p08.unchanged(res, kw, p08.arguments(form, n), form)
        res.state('parallel', form, p, f)
        res.transitions += 1
        res.traces += 1
    return res


def user(res, form):
    """Functions of the user (losses, report) fail at their call k"""
    from pvfactors import run as pvrun
    calls = [0]
    limit = [None]

    def losses(aoi):
        calls[0] += 1
        if limit[0] is not None and calls[0] == limit[0]:
            raise ZeroDivisionError('losses')
        return p07.faoi(aoi)

    def build(pa):
        calls[0] += 1
        if limit[0] is not None and calls[0] == limit[0]:
            raise ZeroDivisionError('report')
        return p08.Builder.build(pa)

    def args():
        kw = p08.arguments(form, 4)
        if form == 'faoi':
            kw['irradiance_model_params'].update(faoi_fn_front=losses,
                                                 faoi_fn_back=losses)
            kw['vf_calculator_params'].update(faoi_fn_front=losses,
                                              faoi_fn_back=losses)
        return kw
    want = pvrun.run_timeseries_engine(build, **args())
    total = calls[0]
    for k in range(1, total + 1):
        kw = args()
        calls[0], limit[0] = 0, k
        try:
            pvrun.run_timeseries_engine(build, **kw)
            if calls[0] >= k:
                res.problem('a failure of a function of the user is hidden',
                            call=k)
        except Exception:
            res.outcome('failures of functions')
        limit[0] = None
        e = close(pvrun.run_timeseries_engine(build, **kw), want)
        if e is not None:
            res.problem('after a failure of a function, another report',
                        entry=e, call=k)
        res.state('user', form, k)
        res.transitions += 1
        res.traces += 1
    return res
