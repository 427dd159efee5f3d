"""Task callables that report every life-cycle event to an append-only log.

Importable in worker processes (this directory's parent is on sys.path there).
One event is one line, written by a single O_APPEND write, so that events of
several processes and threads never interleave.
"""
import json
import os
import threading
import time
import mdp


def emit(path, **ev):
    ev['t'] = time.monotonic()
    ev['pid'] = os.getpid()
    ev['tid'] = threading.get_ident()
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, (json.dumps(ev) + '\n').encode())
    finally:
        os.close(fd)


def read(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


class Logged(mdp.parallel.TaskCallable):
    """Result: (tag, generation, calls, payload).  generation is the number of
    forks since the user's object, calls the number of calls of this object."""
    def __init__(self, path, tag):
        self.path = path
        self.tag = tag
        self.gen = 0
        self.calls = 0

    def setup_environment(self):
        emit(self.path, ev='setup', tag=self.tag)

    def fork(self):
        f = self.__class__(self.path, self.tag)
        f.gen = self.gen + 1
        return f

    def __call__(self, data):
        uid, delay, payload = data
        emit(self.path, ev='start', uid=uid, tag=self.tag)
        self.calls += 1
        if isinstance(delay, tuple):        # ('meet', n, deadline)
            met = meet(self.path, delay[1], delay[2])
            emit(self.path, ev='met', uid=uid, met=met)
        elif delay:
            time.sleep(delay)
        emit(self.path, ev='end', uid=uid, tag=self.tag)
        return (self.tag, self.gen, self.calls, payload)


class Wait(Logged):
    """Ends only when the gate file exists."""
    def __call__(self, data):
        uid, gate, payload = data
        emit(self.path, ev='start', uid=uid, tag=self.tag)
        end = time.monotonic() + 60
        while gate and not os.path.exists(gate) and time.monotonic() < end:
            time.sleep(0.005)
        emit(self.path, ev='end', uid=uid, tag=self.tag)
        return (self.tag, self.gen, self.calls, payload)


def meet(path, n, deadline):
    """Wait until n tasks have started and none of them has ended."""
    end = time.monotonic() + deadline
    while time.monotonic() < end:
        if sum(e['ev'] == 'start' for e in read(path)) >= n:
            return True
        time.sleep(0.005)
    return False


class Custom(Exception):
    pass


class Faulty(mdp.parallel.TaskCallable):
    """data is (fault, payload); returns ('ok', payload) for fault None."""
    def __init__(self, fork_fault=None, setup_fault=None):
        self.fork_fault = fork_fault
        self.setup_fault = setup_fault
        self.pid = os.getpid()

    def fork(self):
        if self.fork_fault:
            raise Custom('fork fault')
        return self

    def setup_environment(self):
        if self.setup_fault:
            raise Custom('setup fault')

    def __call__(self, data):
        fault, payload = data
        if fault is None:
            return ('ok', payload)
        if fault == 'value':
            raise ValueError('injected')
        if fault == 'custom':
            raise Custom('injected')
        if fault == 'node':
            raise mdp.NodeException('injected')
        if fault == 'eof':
            raise EOFError('injected')
        if fault == 'memory':
            raise MemoryError('injected')
        if fault == 'sysexit':
            raise SystemExit(3)
        if fault == 'stopiter':
            raise StopIteration('injected')
        if fault == 'unpicklable':
            return lambda: 0
        if fault == 'print':
            print('some output of a task')
            return ('ok', payload)
        # the following only make sense in a worker process
        assert os.getpid() != self.pid, 'must not run in the parent process'
        if fault == 'exit':
            os._exit(7)
        if fault == 'kill':
            os.kill(os.getpid(), 9)
        raise AssertionError(fault)


class BadPickle(object):
    def __reduce__(self):
        raise Custom('cannot be pickled')


class BadLoad(object):
    def __reduce__(self):
        return (_bad_load, ())


def _bad_load():
    raise Custom('cannot be unpickled')
