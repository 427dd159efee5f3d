"""Support for the scheduler checks: fast polling, deadlines, worker watch."""
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time as _time
import mdp
from mdp import parallel as P
from mdp.parallel import scheduling, thread_schedule, process_schedule
from harness.core import Violation, REPO, VERIF


class _FastTime(object):
    """The time module with short polling sleeps (used inside the scheduler
    modules only; the polling interval is not part of the behaviour)."""
    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)

    def sleep(self, t):
        self._real.sleep(min(t, 0.004))


def fast_polling():
    for m in (scheduling, thread_schedule, process_schedule):
        if getattr(m, 'time', None) is _time:
            m.time = _FastTime(_time)


class WatchedPopen(subprocess.Popen):
    started = []

    def __init__(self, *a, **k):
        k.setdefault('stderr', subprocess.DEVNULL)
        super(WatchedPopen, self).__init__(*a, **k)
        WatchedPopen.started.append(self)


class _Subprocess(object):
    Popen = WatchedPopen

    def __getattr__(self, name):
        return getattr(subprocess, name)


def watch_processes():
    if getattr(process_schedule, 'subprocess', None) is subprocess:
        process_schedule.subprocess = _Subprocess()
    WatchedPopen.started = []


def reap():
    for p in WatchedPopen.started:
        if p.poll() is None:
            p.kill()
            p.wait()


def deadline(fn, seconds=60, what=''):
    """Run fn in a thread; a Violation if it does not come back in time."""
    box = {}

    def run():
        try:
            box['r'] = fn()
        except BaseException as e:
            box['e'] = e
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(seconds)
    if t.is_alive():
        raise Violation('hang', 'call did not return within %s s: %s' % (seconds, what))
    if 'e' in box:
        raise box['e']
    return box['r']


SOURCE_PATHS = [REPO, VERIF]


def make(kind, n, container=None, **kw):
    if kind == 'base':
        return P.Scheduler(result_container=container, **kw)
    if kind == 'thread':
        return P.ThreadScheduler(result_container=container, n_threads=n, **kw)
    if kind == 'process':
        return P.ProcessScheduler(result_container=container, n_processes=n,
                                  source_paths=SOURCE_PATHS, **kw)
    raise ValueError(kind)


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vsched')
        return self

    def path(self, name):
        return os.path.join(self.dir, name)

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
