"""Shared machinery: case scheduling, event counting, verdicts, replay, evidence.

A check is a module harness.checks.<pid> with
    RULE        how cases are made and what makes one non-trivial
    QUICK/THOROUGH  number of cases per tier
    MIN_EVENTS  {event name: minimum count}; fewer means the monitor was not reached -> inconclusive
    def directed(m)            optional: fixed cases, run once (case index -1)
    def case(m, rng, i)        one randomly generated case
`m` is a Monitor: it counts what was observed and records violations.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter


class CaseAbort(Exception):
    """Raised by Monitor.fail(abort=True): the case is over, the violation is recorded already."""


class Inconclusive(Exception):
    """The oracle could not decide this case (never a verdict on the code)."""


class CaseTimeout(BaseException):
    pass


REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')


def jsonable(x, depth=0):
    import numpy as np
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool, type(None))):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, np.ndarray):
        return [jsonable(v, depth + 1) for v in x.tolist()][:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    return repr(x)[:400]


class Monitor:
    """Observes one shard of cases. Everything in it is plain data, so that shards can be merged."""

    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.events = Counter()
        self.evaluations = 0
        self.signatures = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.index = None
        self._sig = None
        self._notes = None
        self.tmp = None

    # --- observation -------------------------------------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += int(n)

    def signature(self, *parts):
        """What identifies this case among the distinct non-trivial ones (None: trivial)."""
        self._sig = hashlib.sha1(repr(parts).encode()).hexdigest()[:16]

    def sample(self, text):
        if len(self.samples) < 4:
            self.samples.append(str(text)[:600])

    def note(self, **kw):
        """Context which is written out with a violation of this case."""
        self._notes.update(kw)

    # --- verdicts ----------------------------------------------------------------------------------------------
    def fail(self, mechanism, message, abort=True, **data):
        self.events['violations'] += 1
        if len(self.violations) < 60:
            self.violations.append({
                'property': self.pid, 'mechanism': mechanism, 'message': str(message)[:2000], 'case': self.index,
                'seed': self.seed, 'tier': self.tier, 'data': jsonable(data), 'context': jsonable(self._notes),
            })
        if abort:
            raise CaseAbort(mechanism)

    def check(self, cond, mechanism, message='', **data):
        """A single oracle decision."""
        self.events['oracle decisions'] += 1
        if not cond:
            self.fail(mechanism, message() if callable(message) else message, **data)

    def raises(self, exc, mechanism, fn, *a, **k):
        """The call has to be refused with one of the given exception types."""
        self.events['oracle decisions'] += 1
        try:
            res = fn(*a, **k)
        except exc as e:
            self.events['refusals observed'] += 1
            return e
        except Exception as e:
            self.fail(mechanism, 'refused with {} instead of {}: {}'.format(
                type(e).__name__, exc if isinstance(exc, tuple) else exc.__name__, e))
        self.fail(mechanism, 'accepted, returned {!r}'.format(res))

    # --- running -----------------------------------------------------------------------------------------------
    def run_case(self, fn, index, limit):
        self.index, self._sig, self._notes = index, None, {}
        rng = random.Random('{}:{}:{}'.format(self.seed, self.pid, index))
        import numpy as np
        np.random.seed(rng.randrange(2 ** 32))
        random.seed(rng.randrange(2 ** 32))
        import tempfile
        import shutil
        self.tmp = tempfile.mkdtemp(prefix='case', dir=SCRATCH)
        cwd = os.getcwd()

        def on_alarm(*_):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(limit)
        try:
            fn(self, rng, index)
        except CaseAbort:
            pass
        except Inconclusive as e:
            self.events['inconclusive cases'] += 1
            self.inconclusive.append(str(e)[:300])
        except CaseTimeout:
            self.events['timed out cases'] += 1
            self.inconclusive.append('case {} ran over {} s'.format(index, limit))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO + os.sep)]
            loc = '{}:{}'.format(os.path.relpath(where[-1].filename, REPO), where[-1].name) if where else 'oracle'
            try:
                self.fail('unexpected {} in {}'.format(type(e).__name__, loc),
                          ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1900:])
            except CaseAbort:
                pass
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            os.chdir(cwd)
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.evaluations += 1
        if self._sig is not None:
            self.signatures.add(self._sig)

    def export(self):
        return {'events': dict(self.events), 'evaluations': self.evaluations, 'signatures': self.signatures,
                'samples': self.samples, 'violations': self.violations, 'inconclusive': self.inconclusive[:20]}


# ---- worker side (forked) ------------------------------------------------------------------------------------------

def drop_privileges():
    """Code under test that deletes or writes where it should not reaches only scratch files."""
    if hasattr(os, 'geteuid') and os.geteuid() == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            return False
    os.umask(0)
    return True


REACHED = set()


def watch_lines():
    """Records which lines of the code under test are executed (each reported once: no cost afterwards)."""
    mon = sys.monitoring
    root = os.path.realpath(REPO) + os.sep
    inside = {}

    def line(code, number):
        f = code.co_filename
        if f not in inside:
            real = os.path.realpath(f)
            inside[f] = real[len(root):] if real.startswith(root) else None
        if inside[f]:
            REACHED.add((inside[f], number))
        return mon.DISABLE
    try:
        mon.use_tool_id(mon.COVERAGE_ID, 'verif')
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    except Exception:       # only information, nothing is decided by it
        pass


def executable_lines(path):
    """Lines inside of functions: those of modules and classes are executed by importing them."""
    out = set()

    def walk(code):
        if code.co_flags & 1:       # not the bodies of modules and classes
            out.update(n for _, _, n in code.co_lines() if n and n != code.co_firstlineno)
        for const in code.co_consts:
            if hasattr(const, 'co_code'):
                walk(const)
    with open(path) as f:
        walk(compile(f.read(), path, 'exec'))
    return out


def quiet():
    """The code under test prints a lot."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)


def worker(module, pid, seed, tier, shard, nshards, ncases, deadline, limit, conn):
    try:
        drop_privileges()
        quiet()
        os.chdir(SCRATCH)
        m = Monitor(pid, seed, tier)
        if shard == 0 and hasattr(module, 'directed'):
            m.run_case(lambda mm, rng, i: module.directed(mm), -1, limit)
            m.evaluations -= 1
            m.events['directed cases'] += 1
        for i in range(shard, ncases, nshards):
            if time.monotonic() > deadline:
                m.events['cases cut by the time budget'] += 1
                break
            m.run_case(module.case, i, limit)
        conn.send(dict(m.export(), reached=sorted(REACHED)))
    except BaseException:
        conn.send({'error': traceback.format_exc()})
    finally:
        conn.close()
        os._exit(0)
