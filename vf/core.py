"""Machinery shared by all checks: case generation with hypothesis, counting, shrinking,
replay files, evidence and the exit protocol.

A *part* of a check is a pair (strategy, body).  The strategy produces a JSON-serialisable
case; body(case, rec) raises Violation when the property fails on it.  Because a case is plain
data, a shrunk failure is written to a file and re-run without hypothesis (check.sh ID --replay).
"""
import collections
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

warnings.showwarning = lambda *a, **k: None

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
HOME = os.environ.get('VERIF_HOME', '/verif')
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU_LIMIT = 60.0      # CPU seconds for one case; a normal case takes well under one second


class Violation(Exception):
    """The property fails on the current case."""


class Timeout(BaseException):
    pass


class Abort(BaseException):
    """Stops a part at once, without shrinking (used for calls that do not return)."""


class Rec:
    """What one case reports about itself."""

    def __init__(self):
        self.nontrivial = True
        self.labels = []
        self.note = None

    def trivial(self):
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(str(x) for x in names)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class sut:
    """Code under test runs in this context: any exception it raises on a valid input is a
    violation of the property, not an error of the harness."""

    def __init__(self, what, allow=()):
        self.what = what
        self.allow = allow

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, (Violation, Timeout, Abort, KeyboardInterrupt)):
            return False
        if self.allow and issubclass(et, self.allow):
            return False
        if issubclass(et, (Exception, SystemExit)):
            where = [t for t in traceback.extract_tb(tb) if t.filename.startswith(REPO)]
            at = ''
            if where:
                at = ' at %s:%s' % (os.path.basename(where[-1].filename), where[-1].lineno)
            raise Violation('%s raised %s: %s%s' % (self.what, et.__name__, str(ev)[:200], at)) from None
        return False


def _alarm(signum, frame):
    raise Timeout()


def limited(fn, *a):
    """Run fn with a CPU-time limit (independent of the load of the machine)."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def clean(o):
    """JSON-serialisable copy with exact floats."""
    if isinstance(o, dict):
        return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, np.ndarray):
        return clean(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    return o


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


class Part:
    def __init__(self, name, strategy, body, quick, thorough=None, shards=1, explicit=()):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough = quick, thorough or quick * 10
        self.shards = shards
        self.explicit = list(explicit)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = []
        self.excluded = collections.Counter()

    def dump(self):
        return {'evaluations': self.evaluations, 'keys': sorted(self.keys), 'labels': dict(self.labels),
                'samples': self.samples, 'excluded': dict(self.excluded)}

    def load(self, d):
        self.evaluations += d['evaluations']
        self.keys.update(d['keys'])
        self.labels.update(d['labels'])
        self.samples.extend(d['samples'])
        self.excluded.update(d['excluded'])


def run_case(part, case, stats):
    rec = Rec()
    try:
        limited(part.body, case, rec)
    except Timeout:
        raise Abort('no return within %g s of CPU time' % CPU_LIMIT, case)
    except (ValueError, IndexError, TypeError) as e:
        # the oracle never raises on well-formed results (the unchanged tree shows none in any run)
        if isinstance(e, Violation):
            raise
        raise Violation('malformed result: %s: %s' % (type(e).__name__, str(e)[:200])) from e
    finally:
        stats.evaluations += 1
        for x in rec.labels:
            stats.labels[x] += 1
        if rec.nontrivial:
            stats.keys.add(key_of(case))
            if len(stats.samples) < 3 and stats.evaluations > 5:
                stats.samples.append({'part': part.name, 'case': case, 'labels': rec.labels})


def explore(part, seed, count, stats):
    """Run one part. Returns None, or (message, shrunk case)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45
    last = {}

    for case in part.explicit:
        case = clean(case)
        try:
            run_case(part, case, stats)
        except Violation as e:
            return str(e), case

    @hypothesis.seed(seed)
    @settings(max_examples=count, database=None, deadline=None, print_blob=False,
              report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(part.strategy)
    def test(case):
        case = clean(case)
        try:
            run_case(part, case, stats)
        except Violation as e:
            last['fail'] = (str(e), case)
            raise

    if count <= 0:
        return None
    try:
        test()
    except Violation:
        return last['fail']
    except hypothesis.errors.Flaky:
        # the case failed once and passed on re-execution: report it only if it fails again
        # in isolation (the code under test may keep state between calls)
        msg, case = last['fail']
        return msg + ' [did not fail again on re-execution in the same process: the outcome depends on earlier calls]', case
    return None


def shard_worker(part, seed, count, out):
    stats = Stats()
    res = {'fail': None, 'error': None}
    try:
        res['fail'] = explore(part, seed, count, stats)
    except Abort as e:
        res['fail'] = (str(e.args[0]), e.args[1])
    except BaseException:
        res['error'] = traceback.format_exc()
    res['stats'] = stats.dump()
    with open(out, 'w') as f:
        json.dump(res, f)


def run_part(part, seed, count, stats, budget=None):
    """Split over processes; each shard explores with its own seed."""
    import tempfile
    n = part.shards if count >= 8 else 1
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_WORK'))
    pids = []
    for k in range(n):
        out = os.path.join(d, '%d.json' % k)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.mkdir(os.path.join(d, 'cwd%d' % k))
                os.chdir(os.path.join(d, 'cwd%d' % k))
                if k:
                    part.explicit = []
                shard_worker(part, seed * 1000 + k, -(-count // n), out)
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(0)
        pids.append((pid, out))
    fail = None
    for pid, out in pids:
        os.waitpid(pid, 0)
    for pid, out in pids:
        if not os.path.exists(out):
            raise RuntimeError('worker of part %s died' % part.name)
        with open(out) as f:
            res = json.load(f)
        stats.load(res['stats'])
        if res['error']:
            raise RuntimeError('harness error in part %s:\n%s' % (part.name, res['error']))
        if res['fail'] and (fail is None or len(json.dumps(res['fail'][1])) < len(json.dumps(fail[1]))):
            fail = tuple(res['fail'])
    return fail


def show(o, maxlen=600):
    s = json.dumps(o)
    return s if len(s) <= maxlen else s[:maxlen] + '...'


def known_findings():
    """Lines 'KNOWN property=<id> finding=<key> <text>' of known_findings.txt."""
    res = collections.defaultdict(dict)
    p = os.path.join(HOME, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and w[1].startswith('property='):
                res[w[1][9:]][w[2].split('=', 1)[1]] = w[3].strip()
    return res
