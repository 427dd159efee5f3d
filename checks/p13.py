"""P13 schedulers run every task exactly once and return ordered, correct results."""
import collections
import importlib
import os
import sys
import threading
import time
import numpy as np
import mdp
from mdp import parallel as P
from harness.core import Check, Skip
from harness import sched as S
from harness import sched_tasks as T

CHECK = Check('P13', 'A case is one history of a scheduler: rounds of add_task / set_task_callable calls with tasks of '
              'random duration and payload, callables replaced between tasks, several result containers, worker '
              'counts and producers. Every task appends its start and end to an event log (across threads and '
              'processes); offline monitors over the log decide exactly-once, callable-at-submission, concurrency '
              'bounds, fork and environment discipline; results are compared with the submissions. Distinct by '
              'scheduler configuration, history and observed order of completion.')
CHECK.expect_events(tasks_executed=600, rounds=60, log_events=1200)


class Serial(P.OrderedResultContainer):
    """Ordered container that also watches how it is called."""
    def __init__(self):
        super(Serial, self).__init__()
        self.inside = 0
        self.overlap = 0
        self.indices = []

    def add_result(self, result, task_index):
        self.inside += 1
        if self.inside != 1:
            self.overlap += 1
        self.indices.append(task_index)
        time.sleep(0)
        super(Serial, self).add_result(result, task_index)
        if self.inside != 1:
            self.overlap += 1
        self.inside -= 1


PAYLOADS = [
    lambda r: int(r.randint(1000)), lambda r: None, lambda r: 'text%d' % r.randint(9),
    lambda r: (1, 2, int(r.randint(9))), lambda r: [], lambda r: {'a': float(r.rand())},
    lambda r: r.rand(int(r.randint(0, 4)), 3), lambda r: r.rand(2000, 3), lambda r: True,
    lambda r: np.arange(5).astype('f')]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    return type(a) is type(b) and a == b


def judge_log(rec, key, log, added, ran=None, n=None, kind=None, parent=None):
    """added: {uid: tag}."""
    rec.event('log_events', len(log))
    starts = collections.Counter(e['uid'] for e in log if e['ev'] == 'start')
    ends = collections.Counter(e['uid'] for e in log if e['ev'] == 'end')
    rec.event('tasks_executed', sum(starts.values()))
    for uid in added:
        rec.require(starts[uid] == 1 and ends[uid] == 1, key + ':exactly-once',
                    'task %s was started %d and finished %d times' % (uid, starts[uid], ends[uid]))
    extra = set(starts) - set(added)
    rec.require(not extra, key + ':exactly-once', 'executed tasks that were never added: %s' % sorted(extra))
    for e in log:
        if e['ev'] == 'start':
            rec.require(e['tag'] == added[e['uid']], key + ':callable',
                        lambda: 'task %s was processed by callable %r, but %r was current when it was added'
                        % (e['uid'], e['tag'], added[e['uid']]))
    # concurrency over the whole log
    cur, peak = 0, 0
    for e in log:
        if e['ev'] == 'start':
            cur += 1
            peak = max(peak, cur)
        elif e['ev'] == 'end':
            cur -= 1
    rec.event('peak_concurrency_%d' % peak)
    limit = n
    if limit is not None:
        rec.require(peak <= limit, key + ':worker-limit',
                    '%d tasks were processed at the same time by a scheduler with %s workers' % (peak, limit))
    if kind == 'process':
        pids = set(e['pid'] for e in log)
        rec.require(parent not in pids, key + ':in-parent', 'a task was processed in the parent process')
        if n is not None:
            rec.require(len(pids) <= n, key + ':worker-limit', '%d processes for %d' % (len(pids), n))
        ready = set()
        for e in log:
            if e['ev'] == 'setup':
                ready.add((e['pid'], e['tag']))
            elif e['ev'] == 'start':
                rec.require((e['pid'], e['tag']) in ready, key + ':setup_environment',
                            'callable called in a new process without setup_environment')
    elif kind in ('thread', 'base'):
        rec.require(not any(e['ev'] == 'setup' for e in log), key + ':setup_environment',
                    'setup_environment called in the same process')
    order = tuple(e['uid'] for e in log if e['ev'] == 'end')
    if list(order) != sorted(order):
        rec.event('out_of_order_completions')
    return order


def history(rng, rec, kind, n_rounds, n_tasks, delays):
    S.fast_polling()
    S.watch_processes()
    n = int(rng.choice([1, 1, 2, 3, 4])) if kind != 'base' else 1
    kw = {}
    if kind == 'thread' and rng.rand() < 0.3:
        kw['copy_callable'] = False
    if kind == 'process' and rng.rand() < 0.35:
        kw['cache_callable'] = False
    cname = str(rng.choice(['default', 'ordered', 'list', 'serial']))
    container = {'default': None, 'ordered': P.OrderedResultContainer(), 'list': P.ListResultContainer(),
                 'serial': Serial()}[cname]
    key = '%s' % kind
    with S.Scratch() as scr:
        s = S.make(kind, n, container, **kw)
        try:
            versions = [0]
            current = [None]
            objects = {}
            orders = []

            def new_callable():
                versions[0] += 1
                c = T.Logged('', 'c%d' % versions[0])
                objects[c.tag] = c
                return c
            total = 0
            for rnd in range(n_rounds):
                logp = scr.path('log%d' % rnd)
                added, want = {}, []
                if current[0] is not None:
                    # the log of this round; a changed object must be handed over again
                    current[0] = None

                def add(uid, payload, delay, fresh, how):
                    if fresh or current[0] is None:
                        if not fresh or not objects or rng.rand() < 0.6:
                            c = new_callable()
                        else:
                            # an old callable becomes current again
                            c = objects[str(rng.choice(sorted(objects)))]
                            if c.path != logp:
                                c = new_callable()
                        c.path = logp
                        current[0] = c
                        if how == 'set':
                            s.set_task_callable(c)
                            s.add_task((uid, delay, payload))
                        else:
                            s.add_task((uid, delay, payload), c)
                    else:
                        s.add_task((uid, delay, payload))
                    added[uid] = current[0].tag
                    want.append((uid, current[0].tag, payload))
                m = int(rng.randint(0 if rnd else 1, n_tasks + 1))
                plan = [(i, PAYLOADS[rng.randint(len(PAYLOADS))](rng),
                         float(rng.choice(delays)), rng.rand() < 0.3, str(rng.choice(['set', 'add'])))
                        for i in range(m)]

                def go():
                    for p in plan:
                        add(*p)
                    return s.get_results()
                res = S.deadline(go, 80, 'round %d of %d tasks' % (rnd, m))
                total += m
                rec.event('rounds')
                log = T.read(logp)
                order = judge_log(rec, key, log, added, n=n, kind=kind, parent=os.getpid())
                orders.append(order)
                rec.require(isinstance(res, list) and len(res) == m, key + ':results-count',
                            lambda: '%d tasks added, results %r' % (m, res))
                if cname == 'list':
                    pos = {}
                    bad = [r for r in res if not any(same(r[3], w[2]) and r[0] == w[1] for w in want)]
                    rec.require(not bad, key + ':results', lambda: 'unexpected result %r' % (bad,))
                    cnt = collections.Counter(r[0] for r in res)
                    rec.require(cnt == collections.Counter(w[1] for w in want), key + ':results',
                                'results of the wrong callables')
                else:
                    for r, w in zip(res, want):
                        rec.require(r[0] == w[1] and same(r[3], w[2]), key + ':order',
                                    lambda: 'result %r in the position of task %r' % (r, w))
                for r in res:
                    rec.require(r[1] == 1, key + ':fork', 'callable was forked %d times before the call' % r[1])
                    rec.require(r[2] == 1, key + ':shared-state',
                                'call no. %d on an object which is forked for every task' % r[2])
                rec.require(s.n_open_tasks == 0, key + ':n_open_tasks', 'n_open_tasks %r' % s.n_open_tasks)
                rec.require(s.task_counter == total, key + ':task_counter',
                            'task_counter %r after %d tasks' % (s.task_counter, total))
                if cname == 'serial':
                    rec.require(container.overlap == 0, key + ':container-race',
                                'add_result was entered by two threads at once')
                    rec.require(len(set(container.indices)) == total, key + ':task-index',
                                lambda: 'task indices %r' % container.indices)
                again = S.deadline(s.get_results, 30, 'empty round')
                rec.require(again == [], key + ':carried-over', lambda: 'results handed out twice: %r' % (again,))
            for c in objects.values():
                rec.require(c.calls == 0 and c.gen == 0, key + ':original-called',
                            'the original callable was called or replaced')
            rec.case(kind, n, cname, sorted(kw.items()), orders)
            S.deadline(s.shutdown, 30, 'shutdown')
        finally:
            S.reap()


@CHECK.scenario(quick=8, thorough=120)
def base(rng, rec):
    for _ in range(6):
        history(rng, rec, 'base', int(rng.randint(1, 5)), 8, [0])


@CHECK.scenario(quick=24, thorough=400)
def threads(rng, rec):
    history(rng, rec, 'thread', int(rng.randint(1, 5)), 14, [0, 0, 0.001, 0.01, 0.03])


@CHECK.scenario(quick=10, thorough=90, timeout=200)
def processes(rng, rec):
    history(rng, rec, 'process', int(rng.randint(1, 5)), 14, [0, 0, 0.001, 0.01, 0.03])


@CHECK.each([(k, k) for k in ('thread', 'process')], quick=3, thorough=20, timeout=200)
def workers_used(rng, rec, kind):
    """n tasks that wait for each other only end if n workers are in use."""
    S.fast_polling()
    S.watch_processes()
    n = int(rng.choice([2, 3, 4]))
    with S.Scratch() as scr:
        s = S.make(kind, n)
        try:
            for rnd in range(2):
                logp = scr.path('log%d' % rnd)
                c = T.Logged(logp, 'w')

                def go():
                    for i in range(n):
                        s.add_task((i, ('meet', n, 30.0), i), c if i == 0 else None)
                    return s.get_results()
                res = S.deadline(go, 90, 'meeting tasks')
                log = T.read(logp)
                judge_log(rec, kind, log, dict((i, 'w') for i in range(n)), n=n, kind=kind, parent=os.getpid())
                met = [e['met'] for e in log if e['ev'] == 'met']
                rec.require(len(met) == n and all(met), kind + ':workers-unused',
                            'only %d of %d workers were used at the same time' % (
                                sum(e['ev'] == 'start' for e in log[:n]), n))
                rec.require([r[3] for r in res] == list(range(n)), kind + ':order', 'wrong order')
                rec.event('rounds')
                rec.event('meetings')
            rec.case(kind, n)
            S.deadline(s.shutdown, 30, 'shutdown')
        finally:
            S.reap()


@CHECK.each([(k, k) for k in ('thread', 'process')], quick=4, thorough=30, timeout=200)
def reverse_completion(rng, rec, kind):
    """Tasks are made to finish in a chosen order (gates); results stay ordered."""
    S.fast_polling()
    S.watch_processes()
    n = int(rng.choice([2, 3, 4]))
    with S.Scratch() as scr:
        cont = [None, P.OrderedResultContainer(), Serial()][rng.randint(3)]
        s = S.make(kind, n, cont)
        try:
            for rnd in range(2):
                logp = scr.path('log%d' % rnd)
                perm = list(range(n))
                rng.shuffle(perm)
                c = T.Wait(logp, 'g')
                gates = [scr.path('gate%d_%d' % (rnd, i)) for i in range(n)]

                def opener():
                    done = 0
                    for i in perm:
                        open(gates[i], 'w').close()
                        end = time.monotonic() + 50
                        while time.monotonic() < end:
                            if any(e['ev'] == 'end' and e['uid'] == i for e in T.read(logp)):
                                break
                            time.sleep(0.003)
                        time.sleep(0.01)

                def go():
                    for i in range(n):
                        s.add_task((i, gates[i], i * 10), c if i == 0 else None)
                    t = threading.Thread(target=opener, daemon=True)
                    t.start()
                    r = s.get_results()
                    t.join()
                    return r
                res = S.deadline(go, 100, 'gated tasks')
                order = judge_log(rec, kind, T.read(logp), dict((i, 'g') for i in range(n)), n=n, kind=kind,
                                  parent=os.getpid())
                rec.require([r[3] for r in res] == [i * 10 for i in range(n)], kind + ':order',
                            lambda: 'completion order %s, results %s' % (perm, [r[3] for r in res]))
                if list(order) == perm:
                    rec.event('forced_orders_observed')
                rec.event('rounds')
                rec.case(kind, n, perm, type(cont).__name__)
            S.deadline(s.shutdown, 30, 'shutdown')
        finally:
            S.reap()


@CHECK.each([(k, k) for k in ('thread', 'process')], quick=4, thorough=40, timeout=200)
def callable_race(rng, rec, kind):
    """Callable replaced while workers are all busy with tasks of the old one."""
    S.fast_polling()
    S.watch_processes()
    n = int(rng.choice([1, 2, 3]))
    with S.Scratch() as scr:
        s = S.make(kind, n)
        try:
            logp = scr.path('log')
            added, want = {}, []
            m = int(rng.randint(10, 25))
            plan = [(i, str(rng.choice(['keep', 'add', 'set', 'setset'])), float(rng.choice([0, 0, 0.002, 0.01])))
                    for i in range(m)]

            def go():
                k, cur = 0, None
                for i, how, d in plan:
                    if cur is None or how != 'keep':
                        k += 1
                        cur = T.Logged(logp, 'k%d' % k)
                    if how == 'add' or (how == 'keep' and i == 0):
                        s.add_task((i, d, i), cur)
                    elif how == 'keep':
                        s.add_task((i, d, i))
                    else:
                        s.set_task_callable(cur)
                        if how == 'setset':
                            k += 1
                            cur = T.Logged(logp, 'k%d' % k)
                            s.set_task_callable(cur)
                        s.add_task((i, d, i))
                    added[i] = cur.tag
                    if rng.rand() < 0.3:
                        # replaced right after the task was handed over
                        k += 1
                        cur = T.Logged(logp, 'k%d' % k)
                        s.set_task_callable(cur)
                return s.get_results()
            res = S.deadline(go, 100, 'callable race')
            order = judge_log(rec, kind, T.read(logp), added, n=n, kind=kind, parent=os.getpid())
            rec.require([(r[0], r[3]) for r in res] == [(added[i], i) for i in range(m)], kind + ':callable',
                        lambda: 'results %s, callables %s' % ([(r[0], r[3]) for r in res], added))
            rec.event('rounds')
            rec.case(kind, n, order, [p[1] for p in plan])
            S.deadline(s.shutdown, 30, 'shutdown')
        finally:
            S.reap()


@CHECK.each([(k, k) for k in ('base', 'thread', 'process')], quick=2, thorough=20, timeout=200)
def producers(rng, rec, kind):
    """Several threads add tasks to one scheduler."""
    S.fast_polling()
    S.watch_processes()
    n = int(rng.choice([1, 2, 3]))
    k = int(rng.choice([2, 3]))
    with S.Scratch() as scr:
        cont = Serial()
        s = S.make(kind, n, cont)
        try:
            logp = scr.path('log')
            added = {}
            m = 8
            for j in range(k):
                for i in range(m):
                    added[j * 100 + i] = 'p%d' % j
            errs = []

            def produce(j):
                try:
                    c = T.Logged(logp, 'p%d' % j)
                    for i in range(m):
                        s.add_task((j * 100 + i, 0.001 * ((i * 7 + j) % 4), j * 100 + i), c)
                except BaseException as e:
                    errs.append(e)

            def go():
                ts = [threading.Thread(target=produce, args=(j,), daemon=True) for j in range(k)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                return s.get_results()
            res = S.deadline(go, 100, 'several producers')
            if errs:
                raise errs[0]
            order = judge_log(rec, kind, T.read(logp), added, n=k if kind == 'base' else n,
                              kind=kind, parent=os.getpid())
            rec.require(sorted(r[3] for r in res) == sorted(added), kind + ':results', 'lost or repeated results')
            rec.require(all(r[0] == 'p%d' % (r[3] // 100) for r in res), kind + ':callable', 'mixed callables')
            for j in range(k):
                mine = [r[3] for r in res if r[3] // 100 == j]
                rec.require(mine == sorted(mine), kind + ':order', 'order of one producer changed')
            rec.require(cont.overlap == 0, kind + ':container-race', 'overlapping add_result')
            rec.event('rounds')
            rec.case(kind, n, k, order)
            S.deadline(s.shutdown, 30, 'shutdown')
        finally:
            S.reap()


def _square(x):
    return x ** 2


class Counting(P.TaskCallable):
    """Changes itself when called; forks share nothing but the tag."""
    def __init__(self):
        self.seen = []

    def fork(self):
        f = Counting()
        f.seen = list(self.seen)
        return f

    def __call__(self, data):
        self.seen.append(data)
        time.sleep(0.002)
        return list(self.seen)


class SelfFork(P.TaskCallable):
    def __init__(self):
        self.seen = []

    def __call__(self, data):
        self.seen.append(data)
        time.sleep(0.002)
        return list(self.seen)


@CHECK.scenario(quick=10, thorough=120)
def state_sharing(rng, rec):
    """Mutable callables: forks (and, with copy_callable, even callables that
    return themselves from fork) never see each other's changes."""
    S.fast_polling()
    n = int(rng.choice([2, 3, 4]))
    s = P.ThreadScheduler(n_threads=n, copy_callable=True)
    for cls in (Counting, SelfFork):
        c = cls()

        def go():
            for i in range(12):
                s.add_task(i, c if i == 0 or rng.rand() < 0.2 else None)
            return s.get_results()
        res = S.deadline(go, 60, 'stateful callables')
        rec.require(res == [[i] for i in range(12)], 'thread:shared-state',
                    lambda: '%s: the threads see each other: %s' % (cls.__name__, res))
        rec.require(c.seen == [], 'thread:shared-state', 'the original callable was changed')
        rec.event('tasks_executed', 12)
        rec.event('rounds')
        rec.case(cls.__name__, n)
    for s in (P.Scheduler(), P.ThreadScheduler(n_threads=n, copy_callable=False)):
        c = Counting()
        for i in range(8):
            s.add_task(i, c)
        res = S.deadline(s.get_results, 60)
        rec.require(res == [[i] for i in range(8)] and c.seen == [], 'shared-state',
                    lambda: 'forked callables see each other: %s' % res)
        rec.event('rounds')
        # plain functions, lambdas and bound methods are callables too
        k = int(rng.randint(9))
        for f in (_square, lambda v: v ** 2, type('Q', (), {'m': lambda self, v: v ** 2})().m):
            for i in range(5):
                s.add_task(i + k, f if i == 0 else None)
            res = S.deadline(s.get_results, 60)
            rec.require(res == [(i + k) ** 2 for i in range(5)], 'plain-function', lambda: 'results %s' % res)
            rec.event('rounds')
        s.set_task_callable(_square)
        for i in range(5):
            s.add_task(i)
        res = S.deadline(s.get_results, 60)
        rec.require(res == [i ** 2 for i in range(5)], 'plain-function', lambda: 'results %s' % res)
        rec.case(type(s).__name__, k)


@CHECK.scenario(quick=2, thorough=10, timeout=200)
def process_defaults(rng, rec):
    """Documented constructor variants of the process scheduler."""
    S.fast_polling()
    S.watch_processes()
    with S.Scratch() as scr:
        before = len(S.WatchedPopen.started)
        # a module of the user that is found on the given paths only
        name = 'vuser%d' % rng.randint(1 << 30)
        with open(scr.path(name + '.py'), 'w') as f:
            f.write('def cube(x):\n    return x ** 3\n')
        variants = [dict(n_processes=2, source_paths=scr.dir), dict(n_processes=2, source_paths=[S.REPO, scr.dir]),
                    dict(n_processes=3)]
        kw = variants[rng.randint(len(variants))]
        sys.path.append(scr.dir)
        cube = importlib.import_module(name).cube
        if 'source_paths' in kw:
            sys.path.remove(scr.dir)
        with P.ProcessScheduler(**kw) as s:
            if scr.dir in sys.path:
                sys.path.remove(scr.dir)
            for i in range(4):
                s.add_task(i, cube if i == 0 else None)
            res = S.deadline(s.get_results, 80)
            rec.require(res == [i ** 3 for i in range(4)], 'process:source-paths', lambda: 'results %s' % (res,))
            started = len(S.WatchedPopen.started) - before
            if S.WatchedPopen.started:
                rec.require(started == kw['n_processes'], 'process:n_processes',
                            '%d processes started for %d' % (started, kw['n_processes']))
            for i in range(6):
                s.add_task(i, P.SqrTestCallable() if i == 0 else None)
            res = S.deadline(s.get_results, 80)
            rec.require(res == [i ** 2 for i in range(6)], 'process:results', lambda: 'results %s' % res)
            s.add_task((3, 0.01), P.SleepSqrTestCallable())
            s.add_task(None, P.MDPVersionCallable())
            res = S.deadline(s.get_results, 80)
            rec.require(res[0] == 9 and str(res[1]) == str(mdp.config.info()), 'process:results',
                        lambda: 'results %s' % (res,))
            rec.event('rounds', 2)
            rec.event('tasks_executed', 8)
            rec.case(sorted(kw.items(), key=str))
        S.reap()


@CHECK.scenario(quick=6, thorough=60)
def containers(rng, rec):
    """The result containers alone, under all kinds of arrival order."""
    m = int(rng.randint(0, 12))
    for cls in (P.ListResultContainer, P.OrderedResultContainer):
        c = cls()
        for rnd in range(3):
            perm = [int(i) for i in rng.permutation(m)]
            # incomparable and equal results must not influence the order
            vals = [[{'a': 1}, None, np.arange(3), 'x', 5, 5][rng.randint(6)] for _ in range(m)]
            base = int(rng.randint(0, 100))
            for i in perm:
                c.add_result(vals[i], base + i)
            r = c.get_results()
            want = vals if cls is P.OrderedResultContainer else [vals[i] for i in perm]
            rec.require(len(r) == m and all(a is b for a, b in zip(r, want)), cls.__name__ + ':order',
                        lambda: 'arrival %s' % perm)
            e = c.get_results()
            rec.require(list(e) == [], cls.__name__ + ':reset', lambda: 'not reset: %r' % (e,))
            rec.event('container_rounds')
            rec.case(cls.__name__, m, perm)
