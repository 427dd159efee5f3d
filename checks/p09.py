"""P09 a failing flow reports the culprit, recovers its state and stays usable."""
import glob
import os
import pickle
import re
import shutil
import tempfile
import numpy as np
import mdp
import mdp.nodes as mn
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P09', 'A case arms exactly one fault (in a node\'s train, stop_training, execute or inverse, at its '
              'k-th call, or in a data source) of a generated flow, with crash recovery off, on, or to a named '
              'file, and compares what surfaces, what the nodes saw, what the dump holds and the result after '
              'removing the cause with an identical flow that never failed. Distinct by flow class, nodes, '
              'fault point and seed.')
CHECK.expect_events(faults_fired=300, dumps_loaded=80, recoveries_compared=150)


class Boom(Exception):
    pass


class Idem(mdp.Node):
    """Training is idempotent per sample: seeing the same rows again changes
    nothing, so a repeated training must give the result of a single one."""
    def __init__(self, phases=1, **k):
        self.phases = phases
        super(Idem, self).__init__(**k)
        self.rows = [set() for _ in range(phases)]
        self.log = []
        self.arm = None         # (hook, countdown, exc)

    def _fire(self, hook):
        if self.arm and self.arm[0] == hook:
            n = self.arm[1] - 1
            self.arm = (hook, n, self.arm[2])
            if n < 0:
                exc, self.arm = self.arm[2], None
                raise exc

    def _get_train_seq(self):
        return [(self._mk_train(i), self._mk_stop(i)) for i in range(self.phases)]

    def _mk_train(self, i):
        return _Bound(self, '_tr', i)

    def _mk_stop(self, i):
        return _Bound(self, '_st', i)

    def _tr(self, i, x):
        self._fire('train')
        self.log.append(('train', i, x.copy()))
        for r in x:
            self.rows[i].add(tuple(np.round(r, 6)))

    def _st(self, i):
        self._fire('stop')
        self.log.append(('stop', i, None))
        self.m = np.array(sorted(self.rows[i])).mean(0)

    def _execute(self, x):
        self._fire('execute')
        self.log.append(('execute', None, None))
        return self._refcast(x - self.m)

    def _inverse(self, y):
        self._fire('inverse')
        return self._refcast(y + self.m)


class _Bound(object):
    """Picklable bound hook."""
    def __init__(self, node, name, i):
        self.node, self.name, self.i = node, name, i

    def __call__(self, *a):
        return getattr(self.node, self.name)(self.i, *a)


POOL = [lambda: mn.PCANode(), lambda: C.TwoPhase(), lambda: mn.IdentityNode(), lambda: mn.WhiteningNode(),
        lambda: mn.SFANode(), lambda: mdp.hinet.FlowNode(mdp.Flow([mn.PCANode(), C.TwoPhase()]))]


class Source(object):
    """Restartable data source that raises once, at chunk k of pass p."""
    def __init__(self, items, at=None, exc=None):
        self.items, self.at, self.exc = items, at, exc
        self.passes = 0

    def __iter__(self):
        p = self.passes
        self.passes += 1
        for i, x in enumerate(self.items):
            if self.at == (p, i):
                raise self.exc
            yield x


def close(a, b):
    return a.shape == b.shape and C.maxdiff(a, b) <= 1e-8 * C.scale(b)


def hand(nodes, X):
    for i, n in enumerate(nodes):
        while n.is_training():
            for x in X:
                for p in nodes[:i]:
                    x = p.execute(x)
                n.train(x)
            n.stop_training()
    return nodes


def dump_name(e):
    m = re.search(r'crash dump is available on: "([^"]*)"', str(e))
    return m.group(1) if m else None


def in_scratch(fn):
    def run(rng, rec):
        d = tempfile.mkdtemp(prefix='verifp09')
        old = tempfile.tempdir
        tempfile.tempdir = d
        cwd = os.getcwd()
        try:
            os.chdir(d)
            return fn(rng, rec, d)
        finally:
            os.chdir(cwd)
            tempfile.tempdir = old
            shutil.rmtree(d, ignore_errors=True)
    run.__name__ = fn.__name__
    return run


def make_flow(rng, cls, **kw):
    n = int(rng.randint(1, 5))
    pos = int(rng.randint(n))
    nodes = []
    for i in range(n):
        if i == pos or rng.rand() < 0.25:
            nodes.append(Idem(phases=int(rng.randint(1, 3))))
        else:
            nodes.append(POOL[rng.randint(len(POOL))]())
    return nodes, pos


@CHECK.scenario(quick=400, thorough=5000)
@in_scratch
def training(rng, rec, d):
    nodes, pos = make_flow(rng, mdp.Flow)
    n = len(nodes)
    X = [C.smooth_mix(rng, 30, 3) for _ in range(rng.randint(1, 4))]
    rest = X
    cls = [mdp.Flow, mdp.CheckpointFlow, mdp.parallel.ParallelFlow][rng.randint(3)]
    ref = hand([m.copy() for m in nodes], X)
    probe = C.smooth_mix(rng, 7, 3)
    yref = probe
    for m in ref:
        yref = m.execute(yref)
    kind = ['train', 'stop', 'execute', 'source'][rng.randint(4)]
    crash = [False, True, 'named.pic', os.path.join(d, 'sub.pic')][rng.randint(4)]
    if cls is mdp.parallel.ParallelFlow:
        crash = False       # documented as not supported by ParallelFlow
    exc = [Boom('boom-%d' % rng.randint(1000)), ValueError('boom-v'), ZeroDivisionError('boom-z'), KeyError('boom-k'),
           mdp.NodeException('boom-n'), TypeError('boom-t'), StopIteration('boom-s'),
           mdp.FlowException('boom-f'), mdp.TrainingException('boom-t2'), mdp.IsNotTrainableException('boom-nt'), MemoryError('boom-m')][rng.randint(11)]
    bad = nodes[pos]
    if kind == 'source' and isinstance(exc, StopIteration):
        exc = Boom('boom-x')
    if kind == 'train':
        bad.arm = ('train', int(rng.randint(len(X) * bad.phases)), exc)
        culprit, training_node = pos, pos
    elif kind == 'stop':
        bad.arm = ('stop', int(rng.randint(bad.phases)), exc)
        culprit = pos
        training_node = None
    elif kind == 'execute':
        if pos == n - 1:
            raise Skip()
        later = [j for j in range(pos + 1, n) if nodes[j].is_trainable()]
        if not later:
            raise Skip()
        bad.arm = ('execute', int(rng.randint(len(X))), exc)
        culprit, training_node = pos, later[0]
    else:
        tr = [j for j in range(n) if nodes[j].is_trainable()]
        culprit = training_node = tr[rng.randint(len(tr))]
    data = [list(X) for _ in range(n)]
    if kind == 'source':
        k = int(rng.randint(len(X)))
        data[culprit] = Source(list(X), at=(0, k), exc=exc)
        if rng.rand() < 0.3 and len(nodes[culprit]._train_seq) == 1:
            data[culprit] = iter(data[culprit])
    flow = cls(nodes, crash_recovery=crash)
    where = '%s %s, %s fault (%s) in node %d of %d, crash_recovery=%s' % (
        cls.__name__, [type(m).__name__ for m in nodes], kind, type(exc).__name__, culprit, n, crash)

    def run(f, dat):
        if cls is mdp.CheckpointFlow:
            f.train(dat, [None] * n)
        else:
            f.train(dat)
    got = None
    try:
        run(flow, data)
        if kind == 'stop':
            # the phase may stay open until the first use
            flow.execute(probe)
    except BaseException as e:
        got = e
    rec.require(got is not None, 'error-swallowed', where)
    rec.event('faults_fired')
    rec.require(isinstance(got, mdp.FlowException), 'wrong-error', '%s: surfaced as %s: %s' % (where, type(got), got))
    txt = str(got)
    rec.require('node #%d (' % culprit in txt, 'culprit-not-named', '%s: %s' % (where, txt[-800:]))
    rec.require(str(exc) in txt and type(exc).__name__ in txt, 'original-lost', '%s: original error not reported: %s' % (where, txt[-500:]))
    if isinstance(got, mdp.FlowExceptionCR):
        rec.require(got.parent_exception is exc, 'original-lost', '%s: parent_exception %r' % (where, got.parent_exception))
        rec.require(got.crashing_obj is flow, 'original-lost', where + ' crashing_obj')
    else:
        rec.require(kind in ('execute', 'stop'), 'wrong-error', '%s: plain %s' % (where, type(got)))
    # --- later nodes untouched, earlier ones finished
    if training_node is not None:
        for j in range(training_node + 1, n):
            if isinstance(nodes[j], Idem):
                rec.require(not nodes[j].log, 'later-node-touched', '%s: node %d' % (where, j))
            elif nodes[j].is_trainable():
                rec.require(nodes[j].is_training() and not nodes[j]._train_phase_started, 'later-node-touched',
                            '%s: node %d' % (where, j))
        if kind != 'stop':
            # everything before the failing node is finished (or ready to be
            # closed by its first use) and equals the reference
            x = probe
            xr = probe
            for j in range(min(culprit, training_node)):
                x = nodes[j].execute(x)
                xr = ref[j].execute(xr)
                rec.require(close(x, xr), 'finished-node-changed', '%s: node %d' % (where, j))
    # --- crash dump
    name = dump_name(got)
    if crash:
        rec.require(name is not None, 'no-dump', '%s: no dump announced' % where)
        if isinstance(crash, str):
            rec.require(name == crash, 'dump-misplaced', '%s: announced %s' % (where, name))
        else:
            rec.require(os.path.dirname(os.path.abspath(name)) == os.path.abspath(d), 'dump-misplaced', '%s: %s' % (where, name))
        rec.require(os.path.exists(name), 'no-dump', '%s: %s does not exist' % (where, name))
        with open(name, 'rb') as fl:
            dumped = pickle.load(fl)
        rec.event('dumps_loaded')
        if isinstance(got, mdp.FlowExceptionCR):
            rec.require(got.filename == name, 'dump-misplaced', where)
        rec.require(type(dumped) is cls and len(dumped) == n, 'dump-differs', where)
        for j, (m, q) in enumerate(zip(nodes, dumped)):
            rec.require(type(m) is type(q), 'dump-differs', '%s: node %d' % (where, j))
            if j >= (training_node if training_node is not None else culprit):
                rec.require(m.get_current_train_phase() == q.get_current_train_phase() and m.is_training() == q.is_training() and
                            m._train_phase_started == q._train_phase_started, 'dump-differs',
                            '%s: node %d stage in the dump %s/%s, in the flow %s/%s' % (
                                where, j, q.get_current_train_phase(), q.is_training(), m.get_current_train_phase(), m.is_training()))
            if isinstance(m, Idem):
                rec.require(m.rows == q.rows, 'dump-differs', '%s: node %d data in the dump' % (where, j))
        files = set(os.path.abspath(f) for f in glob.glob(os.path.join(d, '*')))
        rec.require(files == {os.path.abspath(name)} or kind in ('execute', 'stop', 'source'), 'dump-misplaced', '%s: files written: %s' % (where, files))
    else:
        dumped = None
        rec.require(not os.listdir(d), 'dump-misplaced', '%s: files written without crash recovery: %s' % (where, os.listdir(d)))
    # --- removal of the cause
    for f in [flow] + ([dumped] if dumped is not None else []):
        dat = []
        for j, m in enumerate(f):
            if isinstance(m, Idem):
                m.arm = None
                dat.append(list(X))
            elif kind == 'source' and j == culprit:
                dat.append(list(X)[k:] if m.get_current_train_phase() == 0 else list(X))
            else:
                dat.append(list(X))
        # a phase that was interrupted in a plain node goes on with what is missing
        if kind == 'source' and not isinstance(f[culprit], Idem) and k > 0 and len(nodes[culprit]._train_seq) > 1:
            # first phase gets the rest, the following all
            dat[culprit] = Passes([list(X)[k:]] + [list(X)] * 5)
        for j, m in enumerate(f):
            if kind == 'execute' and training_node == j and not isinstance(m, Idem):
                # the training node took the chunks before the failing execution
                done = sum(1 for e in (f[pos].log) if e[0] == 'execute') if False else None
                raise_if_partial(m, X, dat, j)
        # nodes before the culprit whose last phase is still open (closed by the
        # first use) have all their data
        for j, m in enumerate(f):
            if kind == 'source' and j < culprit and m.is_training():
                m.stop_training()
        run(f, dat)
        y = f.execute(probe)
        rec.event('recoveries_compared')
        rec.require(close(y, yref), 'recovery-differs', '%s: after removing the cause the %s gives another result (%g)' % (
            where, 'flow' if f is flow else 'dumped flow', C.maxdiff(y, yref)))
        rec.require(not any(m.is_training() for m in f), 'recovery-differs', where + ': still training')
    rec.case(cls.__name__, kind, type(exc).__name__, str(crash)[-9:], [type(m).__name__ for m in nodes], pos, len(X),
             rng.randint(1 << 30))


class Passes(object):
    def __init__(self, passes):
        self.passes = passes
        self.i = 0

    def __iter__(self):
        p = self.passes[self.i]
        self.i += 1
        return iter(p)


def raise_if_partial(m, X, dat, j):
    """The chunks a plain node already received are counted by its length
    counters; it goes on with the missing ones."""
    seen = getattr(m, '_verif_seen', None)
    if not m._train_phase_started:
        return
    raise Skip('partially trained plain node')


@CHECK.scenario(quick=200, thorough=2500)
@in_scratch
def execution(rng, rec, d):
    nodes = [Idem() if rng.rand() < 0.6 else [mn.PCANode, C.TwoPhase, mn.NormalizeNode][rng.randint(3)]()
             for _ in range(rng.randint(1, 5))]
    if not any(isinstance(m, Idem) for m in nodes):
        nodes[rng.randint(len(nodes))] = Idem()
    pos = [i for i, m in enumerate(nodes) if isinstance(m, Idem)]
    pos = pos[rng.randint(len(pos))]
    X = C.smooth_mix(rng, 60, 3)
    crash = [False, True, 'x.pic'][rng.randint(3)]
    flow = mdp.Flow(nodes, crash_recovery=crash)
    flow.train(X)
    probe = C.smooth_mix(rng, 8, 3)
    y0 = flow.execute(probe)
    inv = rng.rand() < 0.5
    exc = [Boom('boom'), ValueError('bv'), TypeError('bt'), mdp.TrainingException('btr'),
           mdp.IsNotInvertibleException('bi')][rng.randint(5)]
    parts = np.array_split(y0 if inv else probe, 4)
    k = int(rng.randint(4))
    nodes[pos].arm = ('inverse' if inv else 'execute', k, exc)
    where = '%s of %s, fault in node %d at chunk %d' % ('inverse' if inv else 'execute', [type(m).__name__ for m in nodes], pos, k)
    for m in nodes:
        if isinstance(m, Idem):
            m.log = []
    got = None
    try:
        (flow.inverse if inv else flow.execute)(parts if rng.rand() < 0.5 else (p for p in parts))
    except BaseException as e:
        got = e
    rec.event('faults_fired')
    rec.require(isinstance(got, mdp.FlowExceptionCR), 'wrong-error', '%s surfaced as %r' % (where, got))
    rec.require('node #%d (' % pos in str(got), 'culprit-not-named', '%s: %s' % (where, str(got)[-400:]))
    rec.require(got.parent_exception is exc, 'original-lost', where)
    if not inv:
        for j, m in enumerate(nodes):
            if isinstance(m, Idem):
                c = len(m.log)
                rec.require(c == (k + 1 if j < pos else k), 'later-node-touched', '%s: node %d executed %d times' % (where, j, c))
    if crash:
        rec.require(os.path.exists(got.filename), 'no-dump', where)
        with open(got.filename, 'rb') as fl:
            dumped = pickle.load(fl)
        rec.event('dumps_loaded')
        rec.require(close(dumped.execute(probe), y0), 'dump-differs', where)
        if crash == 'x.pic':
            rec.require(got.filename == 'x.pic', 'dump-misplaced', where)
    else:
        rec.require(not os.listdir(d), 'dump-misplaced', where)
    rec.require(close(flow.execute(probe), y0), 'recovery-differs', where)
    rec.require(close(flow.inverse(y0), mdp.Flow(nodes).inverse(y0)), 'recovery-differs', where)
    rec.event('recoveries_compared')
    # failing data source of an execution: never swallowed
    src = Source(parts, at=(0, int(rng.randint(4))), exc=Boom('src'))
    try:
        (flow.inverse if inv else flow.execute)(src)
        rec.require(False, 'error-swallowed', where + ' (data source)')
    except (Boom, mdp.FlowException) as e:
        rec.require('src' in str(e), 'original-lost', where + ' (data source)')
    rec.event('faults_fired')
    # interruptions are passed on as they are
    nodes[pos].arm = ('execute', 0, KeyboardInterrupt('stop'))
    try:
        flow.execute(probe)
        rec.require(False, 'error-swallowed', where + ' (KeyboardInterrupt)')
    except KeyboardInterrupt:
        pass
    rec.require(close(flow.execute(probe), y0), 'recovery-differs', where)
    rec.case(inv, type(exc).__name__, pos, k, str(crash), [type(m).__name__ for m in nodes], rng.randint(1 << 30))


@CHECK.scenario(quick=120, thorough=1200)
@in_scratch
def online(rng, rec, d):
    """Online flows: same guarantees."""
    class On(mdp.OnlineNode):
        arm = None

        def __init__(self, **k):
            super(On, self).__init__(**k)
            self.n = 0
            self.log = []

        def _fire(self, hook):
            if self.arm and self.arm[0] == hook:
                k = self.arm[1]
                self.arm = (hook, k - 1, self.arm[2]) if k else None
                if k == 0:
                    raise self._exc

        def _train(self, x):
            self._fire('train')
            self.log.append('train')
            self.n += 1

        def _execute(self, x):
            self._fire('execute')
            self.log.append('execute')
            return x + 1
    cls = [mdp.OnlineFlow, mdp.CircularOnlineFlow][rng.randint(2)]
    nodes = [On() for _ in range(rng.randint(1, 5))]
    pos = int(rng.randint(len(nodes)))
    X = rng.randn(6, 3)
    crash = [False, True, 'y.pic'][rng.randint(3)] if False else False
    flow = cls(nodes, crash_recovery=crash)
    hook = ['train', 'execute'][rng.randint(2)]
    k = int(rng.randint(5))
    exc = Boom('online-boom')
    nodes[pos]._exc = exc
    nodes[pos].arm = (hook, k, exc)
    where = '%s, %s fault in node %d at call %d' % (cls.__name__, hook, pos, k)
    try:
        flow.train(X)
        rec.require(False, 'error-swallowed', where)
    except mdp.FlowException as e:
        got = e
    rec.event('faults_fired')
    rec.require('node #%d (' % pos in str(got) and 'online-boom' in str(got), 'culprit-not-named', where)
    rec.require(getattr(got, 'parent_exception', None) is exc, 'original-lost', where)
    for j, m in enumerate(nodes):
        exp = ['train', 'execute'] * k
        if j < pos:
            exp = exp + ['train', 'execute']
        elif j == pos and hook == 'execute':
            exp = exp + ['train']
        rec.require(m.log == exp, 'later-node-touched', '%s: node %d log %s' % (where, j, m.log))
    flow.train(X[k + 1:]) if k < 5 else None
    y = flow.execute(X)
    rec.require(np.allclose(y, X + len(nodes)), 'recovery-differs', where)
    rec.event('recoveries_compared')
    rec.case(cls.__name__, hook, pos, k, len(nodes), rng.randint(1 << 30))
