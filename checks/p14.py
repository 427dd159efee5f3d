"""P14 schedulers never lock up: misuse and shutdown are safe and errors surface."""
import os
import random
import threading
import time
import numpy as np
import mdp
from mdp import parallel as P
import mdp.nodes as mn
from harness.core import Check, Skip, Violation
from harness import sched as S
from harness import sched_tasks as T

CHECK = Check('P14', 'A case is a history with injected faults or misuse: failing forks, set-ups, tasks, results that '
              'cannot be pickled, dying workers, failing containers, failing data sources, calls in the wrong order, '
              'repeated shutdown. Every call runs under a deadline; monitors require that it returns, that every fault '
              'surfaces (in add_task or get_results), that results handed out without an error are complete and '
              'exact, that the scheduler works normally afterwards and that no worker process survives shutdown. '
              'Distinct by scheduler, fault kinds and positions.')
CHECK.expect_events(faults_injected=150, surfaced=120, recovered_rounds=120, shutdowns=40)

IN_PROC = ['value', 'custom', 'node', 'eof', 'memory', 'stopiter']
PROC = IN_PROC + ['sysexit', 'unpicklable', 'exit', 'kill', 'bad-data', 'bad-load']


def healthy(rec, s, key, what, m=5):
    """A normal round must work after what happened before."""
    def go():
        for i in range(m):
            s.add_task((None, i), T.Faulty() if i == 0 else None)
        return s.get_results()
    try:
        res = S.deadline(go, 60, 'normal round after %s' % (what,))
    except Violation:
        raise
    except Exception as e:
        raise Violation(key + ':not-usable', 'normal round after %s raised %s: %s' % (what, type(e).__name__, e))
    rec.require(res == [('ok', i) for i in range(m)], key + ':not-usable',
                lambda: 'after %s a normal round gave %r' % (what, res))
    rec.event('recovered_rounds')


def close(rec, s, kind, times=2):
    for _ in range(times):
        S.deadline(s.shutdown, 40, 'shutdown')
    rec.event('shutdowns')
    if kind == 'process':
        gone(rec, 'process')


def gone(rec, key):
    end = time.monotonic() + 15
    while time.monotonic() < end and any(p.poll() is None for p in S.WatchedPopen.started):
        time.sleep(0.01)
    left = [p.pid for p in S.WatchedPopen.started if p.poll() is None]
    rec.require(not left, key + ':workers-left', 'worker processes still run after shutdown: %s' % left)
    rec.event('workers_seen_gone', len(S.WatchedPopen.started))


def faulty_round(rec, s, kind, faults, n_tasks):
    """faults: {position: kind}.  Returns what surfaced."""
    added, surfaced = [], []

    def go():
        c = T.Faulty()
        for i in range(n_tasks):
            f = faults.get(i)
            data = (f, i)
            if f == 'bad-data':
                data = (None, T.BadPickle())
            elif f == 'bad-load':
                data = (None, T.BadLoad())
            try:
                s.add_task(data, c if i == 0 else None)
                added.append(i)
            except BaseException as e:
                surfaced.append((i, e))
        try:
            return s.get_results()
        except BaseException as e:
            surfaced.append((None, e))
            return None
    res = S.deadline(go, 80, 'round with faults %s' % (faults,))
    return added, surfaced, res


def judge_round(rec, key, faults, n_tasks, added, surfaced, res):
    rec.event('faults_injected', len(faults))
    by_add = set(i for i, _ in surfaced if i is not None)
    rec.require(by_add <= set(faults), key + ':spurious-error',
                lambda: 'add_task raised for healthy tasks: %r' % (surfaced,))
    got = [e for i, e in surfaced if i is None]
    late = [i for i in faults if i not in by_add]
    if got:
        rec.require(late, key + ':spurious-error', lambda: 'get_results raised %r without a failed task' % (got,))
        rec.event('surfaced', len(faults))
    else:
        rec.require(not late, key + ':error-lost',
                    lambda: 'tasks %s failed, but get_results returned %r' % (late, res))
        rec.require(res == [('ok', i) for i in range(n_tasks) if i in added], key + ':results-after-error',
                    lambda: 'faults %s, results %r' % (faults, res))
        rec.event('surfaced', len(faults))
    types = {'value': ValueError, 'custom': T.Custom, 'node': mdp.NodeException, 'eof': EOFError,
             'memory': MemoryError, 'stopiter': StopIteration}
    for i, e in surfaced:
        if i is not None and faults[i] in types:
            rec.require(isinstance(e, types[faults[i]]), key + ':error-type',
                        lambda: 'task %s raised %s, surfaced as %r' % (i, faults[i], e))
    if got and key == 'thread':
        rec.require(any(isinstance(got[0], types.get(faults[i], BaseException)) for i in late), key + ':error-type',
                    lambda: 'faults %s surfaced as %r' % (faults, got[0]))
    elif got:
        rec.require(isinstance(got[0], Exception) and str(got[0]), key + ':error-type', lambda: repr(got[0]))


@CHECK.each([(k, k) for k in ('base', 'thread', 'process')], quick=10, thorough=100, timeout=300)
def failing_tasks(rng, rec, kind):
    S.fast_polling()
    S.watch_processes()
    n = int(rng.choice([1, 2, 3]))
    kw = {}
    if kind == 'process' and rng.rand() < 0.3:
        kw['cache_callable'] = False
    if kind == 'thread' and rng.rand() < 0.3:
        kw['copy_callable'] = False
    s = S.make(kind, n, **kw)
    try:
        for rnd in range(4):
            m = int(rng.randint(1, 8))
            pool = PROC if kind == 'process' else IN_PROC
            k = int(rng.randint(1, min(3, m) + 1))
            pos = [int(i) for i in rng.permutation(m)[:k]]
            faults = dict((i, str(rng.choice(pool))) for i in pos)
            out = faulty_round(rec, s, kind, faults, m)
            judge_round(rec, kind, faults, m, *out)
            if rng.rand() < 0.7:
                healthy(rec, s, kind, faults)
            rec.case(kind, n, m, sorted(faults.items()))
        healthy(rec, s, kind, 'faulty rounds')
        close(rec, s, kind)
    finally:
        S.reap()


@CHECK.each([(k, k) for k in ('base', 'thread', 'process')], quick=4, thorough=40, timeout=300)
def failing_callables(rng, rec, kind):
    """fork, set-up and pickling of the callable itself fail."""
    S.fast_polling()
    S.watch_processes()
    s = S.make(kind, int(rng.choice([1, 2])))
    try:
        kinds = ['fork'] + (['setup', 'unpicklable', 'badload'] if kind == 'process' else [])
        if kind == 'thread':
            kinds.append('unpicklable')
        for rnd in range(3):
            what = str(rng.choice(kinds))
            c = T.Faulty(fork_fault=what == 'fork', setup_fault=what == 'setup')
            if what == 'unpicklable':
                c.attr = T.BadPickle()
            if what == 'badload':
                c.attr = T.BadLoad()
            m = int(rng.randint(1, 5))

            def go():
                errs = 0
                try:
                    if rng.rand() < 0.5:
                        s.set_task_callable(c)
                        c2 = None
                    else:
                        c2 = c
                    for i in range(m):
                        try:
                            s.add_task((None, i), c2)
                        except Exception:
                            errs += 1
                    r = s.get_results()
                except Exception:
                    errs += 1
                    r = None
                return errs, r
            errs, r = S.deadline(go, 80, 'callable with failing %s' % what)
            rec.event('faults_injected', m)
            rec.require(errs > 0, kind + ':error-lost', 'failing %s of the callable went unnoticed: %r' % (what, r))
            rec.require(not r, kind + ':results-after-error', lambda: 'results %r' % (r,))
            rec.event('surfaced', m)
            healthy(rec, s, kind, 'failing %s of the callable' % what)
            rec.case(kind, what, m)
        close(rec, s, kind)
    finally:
        S.reap()


class BadContainer(P.OrderedResultContainer):
    def __init__(self, at):
        super(BadContainer, self).__init__()
        self.at = at
        self.count = 0

    def add_result(self, result, task_index):
        self.count += 1
        if self.count == self.at:
            raise T.Custom('result cannot be joined')
        super(BadContainer, self).add_result(result, task_index)


class BadGet(P.OrderedResultContainer):
    bad = 1

    def get_results(self):
        r = super(BadGet, self).get_results()
        if self.bad:
            self.bad -= 1
            raise T.Custom('get_results failed')
        return r


@CHECK.each([(k, k) for k in ('base', 'thread', 'process')], quick=3, thorough=25, timeout=300)
def failing_container(rng, rec, kind):
    S.fast_polling()
    S.watch_processes()
    m = int(rng.randint(1, 6))
    for cont in (BadContainer(int(rng.randint(1, m + 1))), BadGet()):
        s = S.make(kind, 2, cont)
        try:
            def go():
                e = []
                r = None
                for i in range(m):
                    try:
                        s.add_task((None, i), T.Faulty())
                    except T.Custom as x:
                        e.append(x)
                try:
                    r = s.get_results()
                except T.Custom as x:
                    e.append(x)
                return e, r
            errs, r = S.deadline(go, 60, 'container raises')
            rec.event('faults_injected')
            rec.require(errs, kind + ':error-lost', lambda: 'failing container unnoticed, results %r' % (r,))
            rec.event('surfaced')
            healthy(rec, s, kind, 'failing container')
            rec.case(kind, type(cont).__name__, m)
            close(rec, s, kind)
        finally:
            S.reap()


@CHECK.each([(k, k) for k in ('base', 'thread', 'process')], quick=5, thorough=50, timeout=300)
def misuse(rng, rec, kind):
    """Random sequences of calls which are all allowed at any time."""
    S.fast_polling()
    S.watch_processes()
    s = S.make(kind, int(rng.choice([1, 2])))
    try:
        ops = ['empty', 'empty', 'nocall', 'noncallable', 'none-callable', 'round', 'enter', 'fault', 'twice']
        seq = [str(rng.choice(ops)) for _ in range(int(rng.randint(3, 9)))]
        if rng.rand() < 0.6:
            seq.insert(0, str(rng.choice(['empty', 'nocall'])))
        have = False
        for i, op in enumerate(seq):
            key = '%s:%s' % (kind, op)
            if op == 'empty':
                r = S.deadline(s.get_results, 30, 'get_results without tasks in %s' % seq[:i + 1])
                rec.require(r == [], key, lambda: 'empty round gave %r' % (r,))
            elif op == 'nocall':
                def go():
                    try:
                        s.add_task((None, 1))
                        return None
                    except Exception as e:
                        return e
                e = S.deadline(go, 30, 'add_task without callable in %s' % seq[:i + 1])
                if have:
                    r = S.deadline(s.get_results, 30)
                    rec.require(e is None and r == [('ok', 1)], key, lambda: '%r %r' % (e, r))
                else:
                    rec.require(isinstance(e, Exception), key + ':accepted', 'a task without callable was accepted')
                    rec.require(s.n_open_tasks == 0, key, 'refused task is counted as open')
            elif op == 'noncallable':
                def go():
                    try:
                        s.add_task((None, 1), 'not callable')
                        return s.get_results()
                    except Exception as e:
                        return e
                e = S.deadline(go, 30, 'not callable')
                rec.require(isinstance(e, Exception), key, lambda: 'returned %r' % (e,))
                have = None
            elif op == 'none-callable':
                S.deadline(lambda: s.set_task_callable(None), 30, 'set_task_callable(None)')
                have = False
            elif op == 'round':
                healthy(rec, s, kind, seq[:i])
                have = True
            elif op == 'enter':
                def go():
                    return s.__enter__()
                rec.require(S.deadline(go, 30) is s, key, '__enter__ did not return the scheduler')
            elif op == 'fault':
                f = {1: 'value'}
                out = faulty_round(rec, s, kind, f, 3)
                judge_round(rec, kind, f, 3, *out)
                have = True
            elif op == 'twice':
                healthy(rec, s, kind, seq[:i])
                r = S.deadline(s.get_results, 30, 'second get_results')
                rec.require(r == [], key, lambda: 'handed out again: %r' % (r,))
                have = True
            if have is None:
                S.deadline(lambda: s.set_task_callable(T.Faulty()), 30)
                have = True
        healthy(rec, s, kind, seq)
        rec.case(kind, seq)
        close(rec, s, kind, int(rng.randint(1, 4)))
    finally:
        S.reap()


@CHECK.each([(k, k) for k in ('base', 'thread', 'process')], quick=3, thorough=25, timeout=300)
def context(rng, rec, kind):
    """Context manager: normal exit, exit by exception, shutdown inside."""
    S.fast_polling()
    S.watch_processes()
    try:
        mode = str(rng.choice(['normal', 'raise', 'inner-shutdown', 'unused']))

        def go():
            with S.make(kind, 2) as s:
                if mode != 'unused':
                    for i in range(4):
                        s.add_task((None, i), T.Faulty())
                    r = s.get_results()
                    rec.require(r == [('ok', i) for i in range(4)], kind + ':context', lambda: repr(r))
                if mode == 'raise':
                    raise T.Custom('body')
                if mode == 'inner-shutdown':
                    s.shutdown()
            return 'done'
        try:
            r = S.deadline(go, 80, 'context %s' % mode)
            rec.require(mode != 'raise', kind + ':context', 'exception of the body was swallowed')
        except T.Custom:
            rec.require(mode == 'raise', kind + ':context', 'unexpected exception')
        if kind == 'process':
            gone(rec, kind)
        rec.event('shutdowns')
        rec.case(kind, mode)
    finally:
        S.reap()


@CHECK.scenario(quick=3, thorough=25, timeout=300)
def after_shutdown(rng, rec):
    """Use after shutdown ends with an error, not with an endless wait."""
    S.fast_polling()
    S.watch_processes()
    s = S.make('process', 2)
    try:
        if rng.rand() < 0.5:
            healthy(rec, s, 'process', 'start')
        S.deadline(s.shutdown, 40, 'shutdown')
        gone(rec, 'process')

        def go():
            try:
                s.add_task((None, 1), T.Faulty())
                return s.get_results()
            except Exception as e:
                return e
        e = S.deadline(go, 60, 'add_task after shutdown')
        rec.require(isinstance(e, Exception), 'process:after-shutdown', lambda: 'returned %r' % (e,))
        r = S.deadline(s.get_results, 30, 'get_results after shutdown')
        rec.require(r == [], 'process:after-shutdown', lambda: repr(r))
        S.deadline(s.shutdown, 40, 'second shutdown')
        rec.event('shutdowns')
        rec.case(rec.index)
    finally:
        S.reap()


@CHECK.scenario(quick=3, thorough=25, timeout=300)
def busy_shutdown(rng, rec):
    """Shutdown while tasks are running either waits or refuses; afterwards the
    running tasks can be collected and the scheduler can be shut down."""
    S.fast_polling()
    S.watch_processes()
    n = int(rng.choice([1, 2, 3]))
    s = S.make('process', n)
    try:
        with S.Scratch() as scr:
            gate = scr.path('gate')
            k = int(rng.randint(1, n + 1))

            def start():
                for i in range(k):
                    s.add_task((i, gate, i), T.Wait(scr.path('log'), 'g'))
            S.deadline(start, 40, 'adding tasks')
            end = time.monotonic() + 40
            while sum(e['ev'] == 'start' for e in T.read(scr.path('log'))) < k and time.monotonic() < end:
                time.sleep(0.01)
            opener = threading.Timer(0.3, lambda: open(gate, 'w').close())
            opener.daemon = True
            refused = []

            def stop():
                try:
                    s.shutdown()
                except Exception as e:
                    refused.append(e)
            opener.start()
            S.deadline(stop, 60, 'shutdown while %d of %d processes work' % (k, n))
            if refused:
                rec.event('busy_shutdown_refused')
                r = S.deadline(s.get_results, 60, 'get_results after refused shutdown')
                rec.require([x[3] for x in r] == list(range(k)), 'process:busy-shutdown', lambda: repr(r))
                healthy(rec, s, 'process', 'refused shutdown')
            close(rec, s, 'process')
            rec.case(n, k)
    finally:
        S.reap()


@CHECK.scenario(quick=3, thorough=25, timeout=300)
def killed_idle_worker(rng, rec):
    """An idle worker process dies: the next rounds either work or report it,
    and the scheduler recovers or can be shut down."""
    S.fast_polling()
    S.watch_processes()
    n = int(rng.choice([1, 2, 3]))
    s = S.make('process', n)
    try:
        if not S.WatchedPopen.started:
            raise Skip()
        if rng.rand() < 0.7:
            healthy(rec, s, 'process', 'start')
        victims = [S.WatchedPopen.started[i] for i in rng.permutation(len(S.WatchedPopen.started))
                   [:int(rng.randint(1, n + 1))]]
        for p in victims:
            p.kill()
            p.wait()
        rec.event('faults_injected', len(victims))
        if rng.rand() < 0.3:
            close(rec, s, 'process')
        else:
            # a dead worker shows when it gets a task, which may be in any later round
            bad = good = 0
            while good < 3:
                out = faulty_round(rec, s, 'process', {}, 2 * n)
                if out[2] is not None:
                    rec.require(out[2] == [('ok', i) for i in range(2 * n)], 'process:dead-worker',
                                lambda: 'results %r' % (out[2],))
                    good += 1
                    continue
                rec.event('surfaced')
                bad += 1
                if bad > n + 1:
                    raise Violation('process:dead-worker', 'scheduler does not recover from a dead worker: %r' % (out,))
            if n == 1 or (bad and len(victims) == 1):
                healthy(rec, s, 'process', 'dead worker')
            close(rec, s, 'process')
        rec.case(n, len(victims))
    finally:
        S.reap()


# -- flows on faulty schedulers ------------------------------------------------
class Fragile(mdp.Node):
    """Fails on data marked with NaN in the given hook."""
    def __init__(self, where='train', **kw):
        super(Fragile, self).__init__(**kw)
        self.where = where
        self.total = 0.
        self.n = 0

    def _train(self, x):
        if self.where == 'train' and np.isnan(x).any():
            raise T.Custom('bad chunk')
        self.total = self.total + np.nansum(x, axis=0)
        self.n += len(x)

    def _stop_training(self):
        self.mean = self.total / self.n

    def _execute(self, x):
        if self.where == 'execute' and np.isnan(x).any():
            raise T.Custom('bad chunk')
        return x - self.mean


@mdp.extension_method('parallel', Fragile)
def _fork(self):
    return Fragile(self.where, input_dim=self.input_dim, dtype=self.dtype)


@mdp.extension_method('parallel', Fragile)
def _join(self, other):
    self.total = self.total + other.total
    self.n += other.n


@CHECK.each([(k, k) for k in ('base', 'thread', 'process')], quick=8, thorough=80, timeout=300)
def failing_flows(rng, rec, kind):
    """A chunk fails in parallel training or execution; afterwards the same
    scheduler gives exact results for another flow."""
    S.fast_polling()
    S.watch_processes()
    s = S.make(kind, int(rng.choice([1, 2, 3])))
    import checks.p14 as me          # importable name for the workers
    cls = me.Fragile
    try:
        d = int(rng.randint(1, 4))
        m = int(rng.randint(2, 6))
        chunks = [rng.rand(int(rng.randint(2, 9)), d) for _ in range(m)]
        mean = np.concatenate(chunks).mean(axis=0)
        for rnd in range(2):
            where = str(rng.choice(['train', 'execute', 'source-train', 'source-execute', 'exec-in-train']))
            bad = [c.copy() for c in chunks]
            i = int(rng.randint(m))

            def source(lst, at):
                for j, c in enumerate(lst):
                    if j == at:
                        raise T.Custom('source')
                    yield c.copy()
            flow = P.ParallelFlow([cls(where.split('-')[-1])])
            what = 'fault in %s, chunk %d of %d' % (where, i, m)

            def go():
                if where == 'train':
                    bad[i][0, 0] = np.nan
                    flow.train([bad], scheduler=s)
                elif where == 'source-train':
                    flow.train([source(bad, i)], scheduler=s)
                elif where == 'exec-in-train':
                    f2 = P.ParallelFlow([cls('execute'), cls('train')])
                    mark = [c.copy() for c in bad]
                    mark[i][0, 0] = np.nan
                    f2.train([bad, mark], scheduler=s)
                else:
                    flow.train([bad], scheduler=s)
                    if where == 'execute':
                        bad[i][0, 0] = np.nan
                        return flow.execute(bad, scheduler=s)
                    return flow.execute(source(bad, i), scheduler=s)
            rec.event('faults_injected')
            err = None
            try:
                r = S.deadline(go, 80, what)
            except Violation:
                raise
            except Exception as e:
                err = e
            rec.require(err is not None, kind + ':error-lost', lambda: '%s: no error, result %r' % (what, r))
            rec.require('bad chunk' in str(err) or 'source' in str(err), kind + ':error-type',
                        lambda: '%s surfaced as %s: %s' % (what, type(err).__name__, err))
            rec.event('surfaced')
            # same scheduler, new flow: nothing is carried over
            f2 = P.ParallelFlow([cls('train'), cls('train')])

            def go2():
                f2.train([[c.copy() for c in chunks], [c.copy() for c in chunks]], scheduler=s)
                return f2.execute([c.copy() for c in chunks], scheduler=s)
            y = S.deadline(go2, 80, 'training after ' + what)
            rec.require(f2[0].n == sum(map(len, chunks)) and f2[1].n == f2[0].n, kind + ':carried-over',
                        lambda: '%d of %d rows after %s' % (f2[0].n, sum(map(len, chunks)), what))
            want = np.concatenate(chunks) - mean
            rec.require(y.shape == want.shape and np.abs(y - want).max() < 1e-9, kind + ':carried-over',
                        lambda: 'result of the next flow is wrong after ' + what)
            # the failed flow is not stuck in parallel mode
            rec.require(not flow.is_parallel_training and not flow.is_parallel_executing and
                        not flow.task_available, kind + ':flow-stuck', what)
            healthy_container = s.result_container
            rec.event('recovered_rounds')
            rec.case(kind, where, i, m)
        s.result_container = P.OrderedResultContainer()
        healthy(rec, s, kind, 'failing flows')
        close(rec, s, kind)
    finally:
        S.reap()


@CHECK.scenario(quick=4, thorough=40)
def flow_scheduler_iterables(rng, rec):
    """Per-node schedulers are all shut down, also when a node fails, and
    wrongly used parallel flows raise documented errors."""
    S.fast_polling()

    class Counted(P.Scheduler):
        def __init__(self):
            super(Counted, self).__init__()
            self.stops = 0

        def _shutdown(self):
            self.stops += 1
    d = 3
    chunks = [rng.rand(6, d) for _ in range(3)]
    fail_at = int(rng.randint(-1, 3))
    nodes = [Fragile('train') for _ in range(3)]
    made = []

    def schedulers():
        for _ in range(len(nodes)):
            made.append(Counted())
            yield made[-1]
    data = [[c.copy() for c in chunks] for _ in nodes]
    if fail_at >= 0:
        data[fail_at][1][0, 0] = np.nan
    flow = P.ParallelFlow(nodes)
    try:
        S.deadline(lambda: flow.train(data, scheduler=schedulers()), 60, 'scheduler per node')
        rec.require(fail_at < 0, 'flow:error-lost', 'failing chunk unnoticed')
    except T.Custom:
        rec.require(fail_at >= 0, 'flow:spurious', 'no chunk fails')
        rec.event('faults_injected')
        rec.event('surfaced')
    rec.require(len(made) == (fail_at + 1 if fail_at >= 0 else 3), 'flow:schedulers-used', '%d' % len(made))
    rec.require(all(m.stops == 1 for m in made), 'flow:scheduler-left',
                lambda: 'shutdown calls per scheduler: %s' % [m.stops for m in made])
    rec.event('shutdowns', len(made))
    rec.case(fail_at)
    # documented refusals
    flow = P.ParallelFlow([Fragile('train'), mn.PolynomialExpansionNode(2)])
    for what, fn in [
            ('callable without scheduler', lambda: flow.train([chunks, None], train_callable_class=P.FlowTrainCallable)),
            ('execute callable without scheduler', lambda: flow.execute(chunks, execute_callable_class=P.FlowExecuteCallable)),
            ('get_task without setup', flow.get_task)]:
        try:
            fn()
            raise Violation('flow:refusal', what + ' was accepted')
        except P.ParallelFlowException:
            rec.event('refusals')
    with mdp.extension('parallel'):
        for bad in ([chunks], [chunks] * 3, 5, {0: chunks}, 'ab'):
            try:
                flow.setup_parallel_training(bad)
                raise Violation('flow:refusal', 'data %s accepted for 2 nodes' % type(bad))
            except mdp.FlowException:
                rec.event('refusals')
            rec.require(not flow.is_parallel_training, 'flow:refusal', 'training underway after refused data')
        flow.setup_parallel_training([chunks, chunks])
        for what, fn in [('setup twice', lambda: flow.setup_parallel_training([chunks, chunks])),
                         ('train while training', lambda: flow.train([chunks, chunks], scheduler=P.Scheduler())),
                         ('train while training', lambda: flow.train([chunks, chunks])),
                         ('execute while training', lambda: flow.execute(chunks)),
                         ('parallel execute while training', lambda: flow.execute(chunks, scheduler=P.Scheduler()))]:
            try:
                fn()
                raise Violation('flow:refusal', what + ' was accepted')
            except P.ParallelFlowException:
                rec.event('refusals')
        # the refusals changed nothing: the manual training can be finished
        s = P.Scheduler()
        while flow.is_parallel_training:
            while flow.task_available:
                s.add_task(*flow.get_task())
            flow.use_results(s.get_results())
    rec.require(np.abs(flow[0].mean - np.concatenate(chunks).mean(0)).max() < 1e-12, 'flow:refusal',
                'manual training was disturbed by refused calls')
    rec.event('recovered_rounds')
