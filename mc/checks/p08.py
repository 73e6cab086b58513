"""Parallel runs: every number of processes, every order of completion."""
import concurrent.futures
import contextlib
import copy
import itertools
import os
import pickle
import numpy as np
from mc import impl, space
from mc.core import Result

ID = 'P08'
TITLE = 'A parallel run returns the report of the serial run'
RULE = ('all numbers of timesteps x numbers of processes x forms of the inputs '
        'x modes; the pool of processes is replaced by a controlled one, which '
        'runs the tasks on pickled copies (no shared memory) in every order '
        'and delivers results in every order of completion; a few cases also '
        'run on the real pool, which validates the controlled one')
ASSUMPTIONS = [
    'worker processes share nothing with each other (pickled arguments and '
    'results), as with multiprocessing',
    'the report builder merges reports in the order of time']


class Builder(object):
    """Reports everything, in lists that merge by concatenation"""

    @staticmethod
    def build(pvarray):
        out = {'n': [pvarray.n_states]}
        for i, row in enumerate(pvarray.ts_pvrows):
            for nm, sd in (('front', row.front), ('back', row.back)):
                for p in ('qinc', 'isotropic', 'qabs', 'total_perez'):
                    try:
                        v = sd.get_param_weighted(p)
                    except (KeyError, TypeError):
                        continue
                    out['%d %s %s' % (i, nm, p)] = np.broadcast_to(
                        v, pvarray.n_states).tolist()
        return out

    @staticmethod
    def merge(reports):
        out = copy.deepcopy(reports[0])
        for r in reports[1:]:
            for k in out:
                out[k] += r[k]
        return out


class Order(object):
    """A schedule of the pool: order in which the tasks complete"""
    def __init__(self, perm):
        self.perm = perm
        self.completed = []
        self.asked = None


class ControlledPool(object):
    """Stands in for multiprocessing.Pool"""
    order = None

    def __init__(self, processes=None, *a, **k):
        ControlledPool.order.asked = processes
        self._open = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._open = False

    def _run(self, fn, tasks):
        tasks = [pickle.dumps(t) for t in tasks]
        fn = pickle.dumps(fn)
        n = len(tasks)
        perm = [p for p in ControlledPool.order.perm if p < n]
        perm += [p for p in range(n) if p not in perm]
        res = {}
        for p in perm:
            res[p] = pickle.loads(pickle.dumps(
                pickle.loads(fn)(pickle.loads(tasks[p]))))
            ControlledPool.order.completed.append(p)
        return perm, res

    def map(self, fn, tasks, chunksize=None):
        perm, res = self._run(fn, list(tasks))
        return [res[i] for i in range(len(res))]

    def imap(self, fn, tasks, chunksize=None):
        return iter(self.map(fn, tasks))

    def imap_unordered(self, fn, tasks, chunksize=None):
        perm, res = self._run(fn, list(tasks))
        return iter([res[p] for p in perm])

    def starmap(self, fn, tasks, chunksize=None):
        return self.map(_Star(fn), list(tasks))

    class _Async(object):
        def __init__(self, value):
            self.value = value

        def get(self, timeout=None):
            return self.value

        def wait(self, timeout=None):
            pass

        def ready(self):
            return True

        def successful(self):
            return True

    def map_async(self, fn, tasks, chunksize=None, callback=None,
                  error_callback=None):
        v = self.map(fn, tasks)
        if callback:
            callback(v)
        return self._Async(v)

    def starmap_async(self, fn, tasks, chunksize=None, callback=None,
                      error_callback=None):
        return self.map_async(_Star(fn), list(tasks), callback=callback)

    def apply(self, fn, args=(), kwds={}):
        return pickle.loads(pickle.dumps(fn(*pickle.loads(pickle.dumps(
            tuple(args))), **kwds)))

    def apply_async(self, fn, args=(), kwds={}, callback=None,
                    error_callback=None):
        v = self.apply(fn, args, kwds)
        if callback:
            callback(v)
        return self._Async(v)

    def close(self):
        self._open = False

    def terminate(self):
        self._open = False

    def join(self):
        pass


class ControlledFuture(concurrent.futures.Future):
    """Runs the tasks of its executor when somebody needs the result"""
    executor = None

    def result(self, timeout=None):
        self.executor.run_all()
        return super(ControlledFuture, self).result(timeout)

    def exception(self, timeout=None):
        self.executor.run_all()
        return super(ControlledFuture, self).exception(timeout)


class ControlledExecutor(object):
    """Stands in for concurrent.futures.ProcessPoolExecutor"""

    def __init__(self, max_workers=None, *a, **k):
        ControlledPool.order.asked = max_workers
        self.todo = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.run_all()

    def submit(self, fn, *args, **kwargs):
        f = ControlledFuture()
        f.executor = self
        self.todo.append((f, pickle.dumps((fn, args, kwargs))))
        return f

    def map(self, fn, *iterables, **k):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]
        return iter([f.result() for f in fs])

    def run_all(self):
        todo, self.todo = self.todo, []
        n = len(todo)
        perm = [p for p in ControlledPool.order.perm if p < n]
        for p in perm + [p for p in range(n) if p not in perm]:
            f, task = todo[p]
            fn, args, kwargs = pickle.loads(task)
            try:
                f.set_result(pickle.loads(pickle.dumps(fn(*args, **kwargs))))
            except Exception as e:
                f.set_exception(e)
            f.rank = len(ControlledPool.order.completed)
            ControlledPool.order.completed.append(p)

    def shutdown(self, *a, **k):
        self.run_all()


def as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        f.executor.run_all()
    return iter(sorted(set(fs), key=lambda f: f.rank))


def wait(fs, *a, **k):
    return set(as_completed(fs)), set()


class Context(object):
    """A context of multiprocessing with the controlled pool"""
    Pool = ControlledPool

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)


@contextlib.contextmanager
def controlled(cpus=3):
    """Parallel runs use the controlled pool of processes in here"""
    import multiprocessing
    import multiprocessing.pool
    from pvfactors import run as pvrun
    cf = concurrent.futures
    # whatever else is used instead can start processes
    multiprocessing.current_process()._config['daemon'] = False
    real_context = multiprocessing.get_context
    new = [(multiprocessing, 'Pool', ControlledPool),
           (multiprocessing.pool, 'Pool', ControlledPool),
           (multiprocessing, 'cpu_count', lambda: cpus),
           (os, 'cpu_count', lambda: cpus),
           (multiprocessing, 'get_context',
            lambda *a: Context(real_context(*a))),
           (cf, 'ProcessPoolExecutor', ControlledExecutor),
           (cf, 'as_completed', as_completed), (cf, 'wait', wait)]
    swaps = []
    for module, name, value in new:
        old = getattr(module, name)
        swaps.append((module, name, old))
        for k, v in list(vars(pvrun).items()):
            if v is old or (callable(v) and v == old):
                swaps.append((pvrun, k, v))
                setattr(pvrun, k, value)
    for module, name, value in new:
        setattr(module, name, value)
    try:
        yield
    finally:
        for module, name, value in swaps:
            setattr(module, name, value)


class _Star(object):
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, args):
        return self.fn(*args)


C = space.cfg(3, 0.45, 1.6, 1.8, 20., {1: {'back': 2}})
FORMS = ['plain', 'albedo scalar', 'ghi', 'datetimeindex', 'series',
         'datetimeindex tz', 'lists of times as array', 'isotropic', 'faoi',
         'fast', 'fast segment', 'fast ghi isotropic', 'default processes']


def all_states(n):
    s = space.rotate_sky([x for x in space.geo_states(C, 'quick')
                          if not space.near_edge(C, x)])
    s = [s[(37 * i) % len(s)] for i in range(n)]
    for i, x in enumerate(s):
        x['ghi'] = (x['dni'] * np.cos(np.deg2rad(x['zen'])) + x['dhi']) * (
            0.8 + 0.05 * (i % 7))
    if n > 2:
        s[n // 2]['zen'] = 101.        # a night timestep in the middle
    return s


def arguments(form, n):
    import pandas as pd
    from pvfactors.irradiance import IsotropicOrdered
    states = all_states(n)
    c = impl.columns(states)
    times = impl.stamps(n, step_h=31)
    kw = dict(pvarray_parameters=dict(C), timestamps=times, dni=c['dni'],
              dhi=c['dhi'], solar_zenith=c['zen'], solar_azimuth=c['az'],
              surface_tilt=c['tilt'], surface_azimuth=c['surf_az'],
              albedo=c['albedo'])
    kw['pvarray_parameters']['cut'] = space.key_int(C['cut'])
    if form == 'albedo scalar':
        kw['albedo'] = 0.23
    if 'ghi' in form:
        kw['ghi'] = np.array([s['ghi'] for s in states])
    if form.startswith('datetimeindex'):
        kw['timestamps'] = pd.DatetimeIndex(times)
        if form.endswith('tz'):
            kw['timestamps'] = kw['timestamps'].tz_localize('Etc/GMT+7')
    if form == 'lists of times as array':
        kw['timestamps'] = np.array(times)
    if form == 'series':
        ix = pd.DatetimeIndex(times)
        for k in ('dni', 'dhi', 'solar_zenith', 'solar_azimuth',
                  'surface_tilt', 'surface_azimuth', 'albedo'):
            kw[k] = pd.Series(kw[k], index=ix).values
        kw['timestamps'] = ix
    if 'isotropic' in form:
        kw['cls_irradiance'] = IsotropicOrdered
        kw['irradiance_model_params'] = dict(rho_front=0.2, rho_back=0.1,
                                             module_transparency=0.1)
    if form == 'faoi':
        kw['irradiance_model_params'] = dict(faoi_fn_front=faoi,
                                             faoi_fn_back=faoi,
                                             module_spacing_ratio=0.2)
        kw['vf_calculator_params'] = dict(faoi_fn_front=faoi,
                                          faoi_fn_back=faoi,
                                          n_aoi_integral_sections=20)
    if form.startswith('fast'):
        kw['fast_mode_pvrow_index'] = 1
        if 'segment' in form:
            kw['fast_mode_segment_index'] = 1
    return kw


def faoi(aoi):
    return np.cos(np.deg2rad(90. - np.clip(aoi, 0., 180.))) ** 0.2 * 0.97


def cases(tier):
    nmax, pmax = (7, 5) if tier == 'thorough' else (6, 4)
    out = []
    for form in FORMS:
        for n in range(1, nmax + 1):
            for p in range(1, pmax + 1):
                if p > n + 2:
                    continue
                if tier == 'quick' and p == 4 and form not in (
                        'plain', 'fast') and n != 5:
                    continue
                out.append(dict(form=form, n=n, p=p, real=False))
    out += [dict(form='plain', n=23, p=p, real=False) for p in range(5, 9)]
    for form in FORMS:
        out.append(dict(form=form, n=5, p=2, real=True))
    out += [dict(form='plain', n=7, p=p, real=True) for p in (1, 3, 7)]
    out.append(dict(form='plain', n=9, p=-1, real=True))
    out.append(dict(form='plain', n=9, p=-1, real=False))
    return out


def run_case(case):
    from pvfactors import run as pvrun
    import multiprocessing
    res = Result()
    form, n, p = case['form'], case['n'], case['p']
    kw = arguments(form, n)
    keep = copy.deepcopy(kw)
    serial_kw = dict(arguments(form, n))
    want = pvrun.run_timeseries_engine(Builder.build, **serial_kw)
    want = {k: v for k, v in want.items() if k != 'n'}
    kw_p = dict(kw)
    if form != 'default processes':
        kw_p['n_processes'] = p
    else:
        p = 2
        if n < 2:
            return res
    if case['real']:
        multiprocessing.current_process()._config['daemon'] = False
        got = pvrun.run_parallel_engine(Builder, **kw_p)
        compare(res, got, want, case, 'real pool')
        res.traces += 1
        res.outcome('real pool')
        res.state(form, n, p, 'real')
        unchanged(res, kw, keep, case)
        return res
    n_tasks = p if p > 0 else 3
    with controlled():
        perms = list(itertools.permutations(range(n_tasks))) \
            if n_tasks <= 4 or n == 5 else \
            [list(range(n_tasks)), list(range(n_tasks))[::-1]]
        for perm in perms:
            ControlledPool.order = Order(list(perm))
            got = pvrun.run_parallel_engine(Builder, **kw_p)
            compare(res, got, want, case, 'order of completion %s' % (perm,))
            res.traces += 1
            done = ControlledPool.order.completed
            for i in range(len(done)):
                res.state(form, n, p, tuple(done[:i + 1]))
            res.transitions += len(done)
            res.outcome('completed out of order' if done != sorted(done)
                        else 'completed in order' if done
                        else 'not controlled')
    unchanged(res, kw, keep, case)
    return res


def unchanged(res, kw, keep, case):
    for k in keep:
        a, b = kw[k], keep[k]
        if isinstance(b, dict):
            same = repr(sorted(a)) == repr(sorted(b)) and all(
                a[q] == b[q] for q in b)
        else:
            same = np.array_equal(np.asarray(a), np.asarray(b)) \
                if not callable(b) else a is b
        if not same:
            res.problem('the argument %s was changed by the run' % k,
                        case=case)


def compare(res, got, want, case, what):
    got = {k: v for k, v in got.items() if k != 'n'}
    if sorted(got) != sorted(want):
        res.problem('%s: other entries in the report' % what, case=case)
        return
    for k in want:
        if len(got[k]) != len(want[k]) or not np.allclose(
                got[k], want[k], rtol=1e-9, atol=1e-9, equal_nan=True):
            res.problem('the parallel report differs from the serial one',
                        run=what, entry=k, case=case, got=got[k],
                        want=want[k])
            return
