"""Framework: enumerate a finite space of cases, run each one on the real code,
compare with an independent oracle, write evidence and replay files.

A property module (mc/checks/<id>.py) provides

    ID, TITLE, RULE             strings
    ASSUMPTIONS                 list of strings
    def cases(tier)             -> iterable of JSON-able cases (complete, finite)
    def run_case(case)          -> Result

Every case is deterministic and self-contained, so a violation is replayed by
calling run_case on the JSON of its case (see replay.py).
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PVF_REPO', '/repo')

MAX_PROBLEMS_PER_CASE = 5
MAX_FAILURES = int(os.environ.get('PVF_MAX_FAILURES', '25'))
HARD_LIMIT_S = {'quick': 840, 'thorough': 6 * 3600}


def setup_environment():
    """Import pvfactors from the working tree, silently."""
    import warnings
    warnings.simplefilter('ignore')
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import pvfactors
    where = os.path.realpath(pvfactors.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('pvfactors imported from %s, not from %s'
                           % (where, REPO))


class Result(object):
    """What one case covered and what it found."""

    def __init__(self):
        self.states = set()       # canonical states (hashable), merged over cases
        self.transitions = 0      # model transitions / comparisons of neighbours
        self.traces = 0           # executions replayed on the real code
        self.outcomes = {}        # histogram: what was observed (reference side)
        self.problems = []        # list of dicts
        self.extra = {}           # additive counters

    def state(self, *key):
        self.states.add(hashlib.blake2b(
            repr(key).encode(), digest_size=8).digest())

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + int(n)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + int(n)

    def problem(self, what, **details):
        if len(self.problems) < MAX_PROBLEMS_PER_CASE:
            self.problems.append(dict(what=what, **details))
        else:
            self.count('problems_beyond_the_first_%d_of_a_case'
                       % MAX_PROBLEMS_PER_CASE)


_MODULE = None


def _work(case):
    res = None
    try:
        res = _MODULE.run_case(case)
    except Exception as exc:          # the code under test raised (or changed shape)
        res = Result()
        res.problem('exception: %s: %s' % (type(exc).__name__, exc),
                    trace=traceback.format_exc()[-3000:])
    return case, res


class _Timeout(Exception):
    pass


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        return float(x) if x == x and abs(x) != float('inf') else repr(float(x))
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, bytes):
        return x.hex()
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)


def known_findings(prop):
    """Committed list of genuine defects that were recorded, not repaired.

    Lines: ``finding: property=<id> key=<substring of the problem> <text>``
    (``fixed:`` lines suppress nothing)."""
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                parts = line[len('finding:'):].strip().split(' ', 2)
                if parts[0] == 'property=%s' % prop and \
                        parts[1].startswith('key='):
                    out.append((parts[1][4:], parts[2]))
    return out


def write_replay(prop, case, problem, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, tier=tier, case=jsonable(case),
                problem=jsonable(problem),
                how='cd /verif && mc/run.sh %s --replay <this file>' % prop)
    text = json.dumps(body, indent=1, sort_keys=True)
    name = '%s-%s.json' % (prop, hashlib.sha1(text.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        f.write(text + '\n')
    return path


def run_check(module, tier, seed, jobs=None):
    """Run all the cases of a property, return the exit code."""
    global _MODULE
    t0 = time.time()
    _MODULE = module
    prop = module.ID
    try:
        setup_environment()
        cases = list(module.cases(tier))
    except Exception as exc:
        traceback.print_exc()
        path = write_replay(prop, None, dict(
            what='the package cannot be imported or driven: %s' % exc,
            trace=traceback.format_exc()[-3000:]), tier)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    # VERIF_SEED only decides the order in which the complete space is visited
    import random
    order = list(range(len(cases)))
    random.Random(seed).shuffle(order)
    jobs = jobs or min(os.cpu_count() or 1, 8, max(1, len(cases)))
    total = Result()
    failures = []
    samples = []
    timed_out = False

    def on_alarm(*_):
        raise _Timeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(HARD_LIMIT_S[tier])
    done = 0
    pool = None
    try:
        if jobs == 1 or getattr(module, 'SERIAL', False):
            it = map(_work, (cases[i] for i in order))
        else:
            ctx = mp.get_context('fork')
            pool = ctx.Pool(jobs)
            it = pool.imap_unordered(_work, (cases[i] for i in order),
                                     chunksize=getattr(module, 'CHUNK', 1))
        for case, res in it:
            done += 1
            total.states |= res.states
            total.transitions += res.transitions
            total.traces += res.traces
            for k, v in res.outcomes.items():
                total.outcomes[k] = total.outcomes.get(k, 0) + v
            for k, v in res.extra.items():
                total.extra[k] = total.extra.get(k, 0) + v
            if len(samples) < 3:
                samples.append(jsonable(case))
            if res.problems:
                failures.append((case, res.problems))
                if len(failures) >= MAX_FAILURES:
                    break
    except _Timeout:
        timed_out = True
    finally:
        signal.alarm(0)
        if pool is not None:
            pool.terminate()
            pool.join()
    # sort out recorded findings from violations
    known = known_findings(prop)
    hit = {}
    violations = []
    for case, problems in failures:
        for problem in problems:
            text = json.dumps(jsonable(problem), sort_keys=True)
            label = next((k for k in known if k[0] in text), None)
            if label is None:
                violations.append((case, problem))
            else:
                hit[label] = hit.get(label, 0) + 1
    if timed_out and not violations:
        violations.append((None, dict(
            what='the exploration did not end within %d s: some execution '
            'of the code under test does not return' % HARD_LIMIT_S[tier])))
    for (key, text), n in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s (%d occurrences)'
              % (prop, text, n))
    violations.sort(key=lambda cp: (len(json.dumps(jsonable(cp[0]))),
                                    json.dumps(jsonable(cp[0]))))
    exhaustive = done == len(cases) and not timed_out
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=len(total.states), transitions=total.transitions,
            traces_validated_against_impl=total.traces,
            cases=done, cases_in_space=len(cases),
            outcomes=dict(sorted(total.outcomes.items())),
            rule=module.RULE, samples=samples, exhaustive=exhaustive,
            **total.extra),
        assumptions=list(module.ASSUMPTIONS),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d.tmp' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, os.path.join(d, '%s.json' % prop))
    print('%s %s: cases=%d/%d states=%d transitions=%d traces=%d wall=%.1fs'
          % (prop, tier, done, len(cases), len(total.states),
             total.transitions, total.traces, time.time() - t0))
    print('  outcomes: %s' % json.dumps(dict(sorted(total.outcomes.items()))))
    if total.extra:
        print('  counts: %s' % json.dumps(dict(sorted(total.extra.items()))))
    if violations:
        seen = set()
        for case, problem in violations:
            if problem['what'] in seen:
                continue
            seen.add(problem['what'])
            path = write_replay(prop, case, problem, tier)
            print('  problem: %s' % json.dumps(jsonable(problem))[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            if len(seen) >= 5:
                break
        sys.stdout.flush()
        return 1
    return 0
