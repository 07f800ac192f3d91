"""Harness shared by all checks: exhaustive enumeration on the real udapi code.

A check module (mc/checks/cNN.py) defines

    TITLE, ASSUMPTIONS            texts for the evidence file
    BOUNDS(tier)     -> dict      the bounds explored in this tier (reported)
    shards(tier)     -> list      JSON-able descriptions of disjoint parts of the bounded space
    run_shard(shard, rec)         enumerates every case of the shard, calling rec.run(case)
    run_case(case, rec)           executes one case on the real code, raises Fail on a violation

Nothing is sampled: every case of every shard is executed, in a deterministic order.
"""
import contextlib
import gc
import io
import json
import logging
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 20


class Fail(Exception):
    """The property does not hold on this case."""
    def __init__(self, sig, detail=''):
        super().__init__(f'{sig}: {detail}')
        self.sig, self.detail = sig, detail


class Hang(BaseException):
    """The code under test did not terminate within the CPU budget of one case."""


def require(cond, sig, detail=''):
    if not cond:
        raise Fail(sig, detail() if callable(detail) else detail)


def equal(got, want, sig, ctx=''):
    if got != want:
        raise Fail(sig, f'{ctx} got {got!r}, want {want!r}')


def _on_timer(_sig, _frame):
    raise Hang()


def jhash(obj):
    return hash(obj if isinstance(obj, (str, int, tuple)) else json.dumps(obj, sort_keys=True, default=str))


class Rec:
    """Counts what was explored and collects the violations of one shard."""
    MAX_PER_SIG = 3

    def __init__(self, module):
        self.module = module
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.counters = {}
        self.samples = []
        self.violations = []
        self.per_sig = {}
        self.hung = False       # True: something is violated and slow, the rest of the shard is not explored
        self.start = time.monotonic()

    def state(self, key):
        """Register a distinct state of the implementation (or distinct input) reached."""
        self.states.add(jhash(key))

    def seen(self, key):
        h = jhash(key)
        if h in self.states:
            return True
        self.states.add(h)
        return False

    def step(self, n=1):
        """n operations were executed on the real code."""
        self.transitions += n

    def trace(self, n=1):
        """n complete histories were executed on the real code and compared with the oracle."""
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def run(self, case):
        """Execute one case, never let an exception escape."""
        if self.hung:
            return False
        self.cases += 1
        n = self.cases
        if n & (n - 1) == 0 and len(self.samples) < 12:
            self.samples.append(case)
        sig = detail = None
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
        try:
            self.module.run_case(case, self)
        except Fail as exc:
            sig, detail = exc.sig, exc.detail
        except Hang:
            self.hung = True
            sig, detail = 'no-termination', f'more than {CASE_CPU_S} s of CPU for one case'
        except KeyboardInterrupt:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            sig = 'unexpected-' + type(exc).__name__
            detail = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-4:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if sig is None:
            return True
        self.per_sig[sig] = self.per_sig.get(sig, 0) + 1
        if time.monotonic() - self.start > 200:
            self.hung = True
        if self.per_sig[sig] <= self.MAX_PER_SIG:
            self.violations.append({'signature': sig, 'detail': str(detail)[:4000], 'case': case})
        return False

    def result(self):
        return {'states': self.states, 'transitions': self.transitions, 'traces': self.traces,
                'cases': self.cases, 'counters': self.counters, 'samples': self.samples,
                'violations': self.violations, 'per_sig': self.per_sig}


def worker_init():
    # The readers call gc.collect() after each document; with millions of tiny documents it would
    # dominate the run. Automatic garbage collection stays on.
    gc.freeze()
    gc.collect = lambda *args: 0
    signal.signal(signal.SIGVTALRM, _on_timer)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    logging.disable(logging.CRITICAL)


def worker(args):
    module_name, shard = args
    import importlib
    module = importlib.import_module(module_name)
    rec = Rec(module)
    start = time.time()
    try:
        with workdir():  # what the code under test writes stays in there
            module.run_shard(shard, rec)
    except Exception as exc:  # an error of the harness or of set-up code outside rec.run
        rec.violations.append({'signature': 'shard-error-' + type(exc).__name__,
                               'detail': traceback.format_exc()[-4000:], 'case': None, 'shard': shard})
        rec.per_sig['shard-error-' + type(exc).__name__] = 1
    res = rec.result()
    res['wall'] = time.time() - start
    res['shard'] = shard
    return res


@contextlib.contextmanager
def captured():
    """Capture everything the code prints to stdout."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def raises(func, *args, **kwargs):
    """Return the exception raised by func, or None."""
    try:
        func(*args, **kwargs)
    except Exception as exc:  # pylint: disable=broad-except
        return exc
    return None


@contextlib.contextmanager
def workdir():
    """A private scratch directory, made the current one meanwhile."""
    before = os.getcwd()
    with scratch() as folder:
        os.chdir(folder)
        try:
            yield folder
        finally:
            os.chdir(before)


@contextlib.contextmanager
def scratch():
    """A private scratch directory, removed afterwards."""
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    folder = tempfile.mkdtemp(prefix='vmc_', dir=base)
    try:
        yield folder
    finally:
        shutil.rmtree(folder, ignore_errors=True)
