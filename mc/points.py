"""Controlled execution: every line of pvfactors that runs is a point where
something can happen (a failure, another thread). Based on sys.monitoring."""
import sys
import threading

TOOL = 4
WAIT = 20.       # seconds: longer than any calculation explored
_on = {}            # thread id -> function called at each line of pvfactors


def _ours(code):
    f = code.co_filename.replace('\\', '/')
    return '/pvfactors/' in f and '/tests/' not in f and \
        '/site-packages/' not in f


def _line(code, line):
    if not _ours(code):
        return sys.monitoring.DISABLE
    f = _on.get(threading.get_ident())
    if f is not None:
        f(code, line)


_ready = False


def _start():
    global _ready
    M = sys.monitoring
    if not _ready:
        M.use_tool_id(TOOL, 'points')
        M.register_callback(TOOL, M.events.LINE, _line)
        _ready = True
    M.set_events(TOOL, M.events.LINE)


class at_points(object):
    """Within this context, fn is called at each line of this thread"""

    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        _start()
        self.me = threading.get_ident()
        self.before = _on.get(self.me)
        _on[self.me] = self.fn

    def __exit__(self, *a):
        if self.before is None:
            _on.pop(self.me, None)
        else:
            _on[self.me] = self.before
        if not _on:
            sys.monitoring.set_events(TOOL, 0)


def trace(act):
    """All points of a run: [(name of the code, line)...]"""
    out = []
    with at_points(lambda code, line: out.append(
            (code.co_filename, code.co_qualname, line))):
        act()
    return out


def select(points, tier, functions=False, single=False):
    """Positions to explore: for each distinct point its first and last
    occurrence (thorough: nine of them; single: one to three of them, not the
    same for all points), each with a number of its own"""
    where = {}
    for i, p in enumerate(points):
        where.setdefault(p[:2] if functions else p, []).append(i)
    out = []
    for m, (p, ix) in enumerate(where.items()):
        n = len(ix)
        if single:
            # occurrences spread over lines that are run as often; more of
            # them for lines that run many times
            k = 1 if n < 12 else 2 if n < 60 else 3
            want = [int(n * ((m * 0.6180339887 + q / float(k)) % 1.))
                    for q in range(k)]
        elif tier == 'quick':
            want = [0, n - 1]
        else:
            want = [(n - 1) * k // 8 for k in range(9)]
        seen = []
        for w in want:
            if ix[w] not in seen:
                seen.append(ix[w])
        out += [(i, len(out) + tag) for tag, i in enumerate(seen)]
    return sorted(out)


class Stop(BaseException):
    """An interruption"""


def interrupted(act, k, exc):
    """Run until point k, where exc is raised. Returns what came out: 'raised'
    when exc got out of the call, else 'hidden', or 'finished' when there were
    fewer points."""
    count = [0]

    def fn(code, line):
        count[0] += 1
        if count[0] == k + 1:
            raise exc
    try:
        with at_points(fn):
            act()
    except BaseException as e:
        if e is exc:
            return 'raised'
        return 'other: %r' % (e,)
    return 'hidden' if count[0] > k else 'finished'


def with_other(act, k, other):
    """Run act; at its point k, run other to its end in another thread.
    Returns the exceptions of both."""
    count, err = [0], [None, None]

    def run_other():
        try:
            other()
        except BaseException as e:
            err[1] = e

    def fn(code, line):
        count[0] += 1
        if count[0] == k + 1:
            other_thread.start()
            other_thread.join(WAIT)     # it may wait for a lock held by act
    other_thread = threading.Thread(target=run_other, daemon=True)
    try:
        with at_points(fn):
            act()
    except BaseException as e:
        err[0] = e
    if count[0] > k:
        other_thread.join(5 * WAIT)
        if other_thread.is_alive():
            err[1] = RuntimeError('the other thread never ends')
    return err, count[0] > k


def crossed(act, k, other, j):
    """Run act to its point k, then other (another thread) to its point j, then
    act to its end, then other to its end: two preemptions."""
    err = [None, None]
    go_b, go_a, done_a = (threading.Event() for _ in range(3))
    ca, cb = [0], [0]

    def fb(code, line):
        cb[0] += 1
        if cb[0] == j + 1:
            go_a.set()
            done_a.wait(WAIT)

    def run_other():
        go_b.wait()
        try:
            with at_points(fb):
                other()
        except BaseException as e:
            err[1] = e
        go_a.set()

    def fa(code, line):
        ca[0] += 1
        if ca[0] == k + 1:
            go_b.set()
            go_a.wait(WAIT)
    t = threading.Thread(target=run_other, daemon=True)
    t.start()
    try:
        with at_points(fa):
            act()
    except BaseException as e:
        err[0] = e
    done_a.set()
    go_b.set()
    t.join(5 * WAIT)
    if t.is_alive():
        err[1] = RuntimeError('the other thread never ends')
    return err
