"""P15 parallel training and execution give the serial result."""
import collections
import os
import pickle
import random
import shutil
import tempfile
import numpy as np
import mdp
import mdp.nodes as mn
import mdp.hinet as mh
import bimdp
from bimdp.parallel import ParallelBiFlow
from mdp import parallel as P
from harness.core import Check, Skip, Violation
from harness import catalog as C
from harness import sched as S
from harness import sched_tasks as T

CHECK = Check('P15', 'A case trains or executes one generated flow (catalogue nodes, layers, clone layers, nested '
              'flows, classifiers with labels, bi-nodes) twice: serially, and through a scheduler (immediate, shuffling '
              'with pickled tasks, threads, processes) with the same chunks; outputs and learned quantities must agree. '
              'Recording nodes carry row identities, so that lost, repeated or mixed rows are counted exactly. '
              'Distinct by node, scheduler, chunking and completion order.')
CHECK.expect_events(flows_compared=150, rows_accounted=3000, forked_nodes=40, local_nodes=20)


class Shuffler(P.Scheduler):
    """Collects the tasks of a round and runs them in random order, each in a
    pickled copy as another process would; results arrive in another order."""
    def __init__(self, rng, **k):
        super(Shuffler, self).__init__(**k)
        self.rng = rng
        self.pending = []
        self.orders = []

    def _process_task(self, data, task_callable, task_index):
        self.pending.append((pickle.dumps(data, -1), task_callable.fork(), task_index))
        self._lock.release()

    def get_results(self):
        if self.pending:
            todo, self.pending = self.pending, []
            order = [int(i) for i in self.rng.permutation(len(todo))]
            self.orders.append(tuple(order))
            done = []
            for i in order:
                data, c, idx = todo[i]
                try:
                    c = pickle.loads(pickle.dumps(c, -1))
                    done.append((pickle.loads(pickle.dumps(c(pickle.loads(data)), -1)), idx))
                except BaseException:
                    # the remaining tasks are lost, nobody may wait for them
                    self._n_open_tasks = 0
                    raise
            for i in self.rng.permutation(len(done)):
                self._store_result(*done[i])
        return super(Shuffler, self).get_results()


class Immediate(P.Scheduler):
    orders = ()


def scheduler(rng, kind):
    S.fast_polling()
    S.watch_processes()
    if kind == 'base':
        return Immediate()
    if kind == 'shuffle':
        return Shuffler(rng)
    if kind == 'thread':
        return P.ThreadScheduler(n_threads=int(rng.choice([2, 3, 4])),
                                 copy_callable=bool(rng.rand() < 0.7))
    return S.make('process', int(rng.choice([1, 2, 3])), cache_callable=bool(rng.rand() < 0.7))


KINDS = ['base', 'shuffle', 'shuffle', 'thread']


def random_cuts(rng, spec, n):
    if spec.chunk is None and spec.minchunk > 1:
        m = int(rng.randint(0, 3))
        step = n // (m + 1)
        return [step * (i + 1) for i in range(m)]
    m = int(rng.randint(0, 6))
    lo = max(spec.minchunk, 2)
    cuts = sorted(set(int(c) for c in rng.randint(lo, n - lo + 1, size=m)))
    out, last = [], 0
    for c in cuts:
        if c - last >= lo and n - c >= lo:
            out.append(c)
            last = c
    return out


def _reseed(seed):
    np.random.seed(seed)
    random.seed(seed)


def forks(node):
    with mdp.extension('parallel'):
        try:
            node.fork()
            return True
        except P.NotForkableParallelException:
            return False


def joint(chunks):
    return [x if e is None else (x, e) for x, e in chunks]


SKIP = {'LibSVM'}       # not picklable: cannot be sent anywhere (see P06)


@CHECK.each([(s.name, s) for s in C.SPECS if s.trainable and not s.slow and s.name not in SKIP],
            quick=2, thorough=16, timeout=300)
def nodes(rng, rec, spec):
    """Every trainable node of the catalogue, alone in a flow."""
    X = spec.data(rng)
    E = spec.train_args(rng, X)
    kind = str(rng.choice(KINDS))
    cuts = random_cuts(rng, spec, len(X))
    seed = int(rng.randint(2 ** 31))

    def iterables():
        c = joint(spec.split(X, E, cuts))
        return [c] if rng.rand() < 0.7 or isinstance(c[0], tuple) else [_Repeat(c)]
    node = spec.make()
    forkable = forks(node)
    rec.event('forked_nodes' if forkable else 'local_nodes')
    ser = mdp.Flow([spec.make()])
    _reseed(seed)
    ser.train(iterables())
    par = P.ParallelFlow([node])
    s = scheduler(rng, kind)
    before = [(x.copy(), x) for x, _ in spec.split(X, E, cuts, copy=False)]
    _reseed(seed)
    try:
        par.train(iterables(), scheduler=s)
    except mdp.NodeException as e:
        # a node whose input_dim does not count the columns of x
        if spec.name == 'RBMLabels' and 'x has dimension 7, should be 4' in str(e):
            raise Violation('labels-dim', str(e))
        raise
    _same_nodes(rec, spec.name, spec, ser[0], par[0], rng, seed)
    rec.event('flows_compared')
    rec.require(not par[0].is_training(), 'not-closed', 'training is not finished')
    # executed in parallel too
    xs = [spec.xin(rng, int(rng.randint(spec.minexec, spec.minexec + 12))) for _ in range(int(rng.randint(1, 5)))]
    if not spec.rexec and not spec.stateful_exec and not spec.exec_extra:
        y1 = np.concatenate([par[0].copy().execute(x.copy()) for x in xs]) if spec.online else \
            np.concatenate([par[0].execute(x.copy()) for x in xs])
        if not spec.online:
            y2 = par.execute([x.copy() for x in xs], scheduler=s)
            rec.require(C.close(y1, y2, 1e-9), spec.name + ':execute', 'parallel execution differs')
    rec.case(spec.name, kind, cuts, getattr(s, 'orders', ()))


class _Repeat(object):
    """An iterable which is not a sequence."""
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        for i in self.items:
            yield i.copy() if hasattr(i, 'copy') else i


def _same_nodes(rec, key, spec, a, b, rng, seed):
    if spec.getters is not None:
        for u, v in zip(spec.getters(a), spec.getters(b)):
            rec.require(C.close(u, v, spec.tol * 10), key + ':learned', lambda: 'differ by %g' % C.maxdiff(u, v))
    x = spec.xin(rng)
    np.random.seed(seed)
    ya = spec.run(a, x.copy())
    np.random.seed(seed)
    yb = spec.run(b, x.copy())
    tol = spec.tol * 10
    ya, yb = (ya if isinstance(ya, tuple) else (ya,)), (yb if isinstance(yb, tuple) else (yb,))
    for u, v in zip(ya, yb):
        rec.require(C.close(u, v, tol, sign=spec.sign), key + ':output',
                    lambda: 'serial and parallel training differ by %g' % C.maxdiff(u, v))
    if spec.classifier and hasattr(a, 'label') and not spec.rexec:
        la, lb = a.label(x.copy()), b.label(x.copy())
        # ties may be resolved differently
        bad = [i for i, (p, q) in enumerate(zip(la, lb)) if p != q]
        if bad and spec.name == 'KNN':
            # neighbours at equal distance are chosen by their position in the
            # training data, and equal votes by their order
            bad = [i for i in bad if not _knn_tie(a, x[i])]
        if bad and spec.name in ('Gaussian', 'NearestMean'):
            rec.require(len(bad) <= len(la) // 10, key + ':labels', 'labels differ for %d of %d' % (len(bad), len(la)))
        else:
            rec.require(not bad, key + ':labels', 'labels differ for %d of %d' % (len(bad), len(la)))
    rec.require(a.input_dim == b.input_dim and a.output_dim == b.output_dim and a.dtype == b.dtype,
                key + ':dims', lambda: '%s/%s/%s vs %s/%s/%s' % (a.input_dim, a.output_dim, a.dtype,
                                                                  b.input_dim, b.output_dim, b.dtype))


def _knn_tie(node, row):
    d2 = ((node.samples - row) ** 2).sum(1)
    order = np.argsort(d2, kind='stable')
    votes = sorted(collections.Counter(np.asarray(node.sample_label_indices)[order[:node.k]].tolist()).values())
    if len(votes) > 1 and votes[-1] == votes[-2]:
        return True
    return len(d2) > node.k and d2[order[node.k]] - d2[order[node.k - 1]] < 1e-9 * (1 + d2[order[node.k]])


# -- recording nodes: exact row accounting --------------------------------------
class Rows(mdp.Node):
    """Counts the identities (first column) of the rows of each phase."""
    def __init__(self, phases=1, tag=None, input_dim=None, output_dim=None, dtype=None):
        self.phases = phases
        super(Rows, self).__init__(input_dim, output_dim, dtype)
        self.tag = tag
        self.rows = [[] for _ in range(phases)]
        self.base = None

    def _get_train_seq(self):
        return [(_M(self, '_tr', i), _M(self, '_st', i)) for i in range(self.phases)]

    def _tr(self, i, x):
        self.rows[i].extend(np.round(x[:, 0], 6).tolist())

    def _st(self, i):
        pass

    def _execute(self, x):
        return x


class _M(object):
    def __init__(self, obj, name, i):
        self.obj, self.name, self.i = obj, name, i

    def __call__(self, *a):
        return getattr(self.obj, self.name)(self.i, *a)


class LocalRows(Rows):
    pass


class SomePhases(Rows):
    """Only the even phases can be forked."""


@mdp.extension_method('parallel', Rows)
def _fork(self):
    n = self.__class__(self.phases, self.tag, self.input_dim, self.output_dim, self.dtype)
    n._train_phase = self._train_phase
    return n


@mdp.extension_method('parallel', Rows)
def _join(self, other):
    for a, b in zip(self.rows, other.rows):
        a.extend(b)


@mdp.extension_method('parallel', LocalRows, '_fork')
def _lfork(self):
    raise P.NotForkableParallelException('local')


@mdp.extension_method('parallel', SomePhases, '_fork')
def _sfork(self):
    if self.get_current_train_phase() % 2:
        raise P.NotForkableParallelException('local phase')
    n = self.__class__(self.phases, self.tag, self.input_dim, self.output_dim, self.dtype)
    n._train_phase = self._train_phase
    return n


def rows_of(node):
    return [collections.Counter(r) for r in node.rows]


@CHECK.each([(k, k) for k in ('base', 'shuffle', 'thread', 'process')], quick=7, thorough=70, timeout=300)
def conservation(rng, rec, kind):
    """No row is lost, repeated or mixed between nodes, phases or rounds."""
    import checks.p15 as me
    s = scheduler(rng, kind)
    try:
        for rnd in range(2 if kind == 'process' else 3):
            n_nodes = int(rng.randint(1, 5))
            d = 2 * int(rng.randint(1, 3))
            counter = [0]

            def chunk():
                k = int(rng.randint(1, 7))
                x = rng.rand(k, d)
                x[:, 0] = counter[0] + np.arange(k)
                x[:, d // 2] = x[:, 0] if d > 2 else x[:, d // 2]
                counter[0] += k
                return x
            nodes, recs, data, want = [], [], [], []
            for i in range(n_nodes):
                ph = int(rng.randint(1, 4))
                cls = [me.Rows, me.Rows, me.LocalRows, me.SomePhases][rng.randint(4)]
                shape = str(rng.choice(['plain', 'plain', 'layer', 'clone', 'flownode', 'untrainable', 'pretrained']))
                chunks = [chunk() for _ in range(int(rng.randint(1, 6)))]
                pre = []
                if shape == 'untrainable':
                    nodes.append(mn.IdentityNode())
                    data.append(None if rng.rand() < 0.5 else chunks)
                    continue
                inner = cls(ph, i)
                mult = 1
                if shape == 'layer':
                    half = d // 2
                    inner = cls(ph, i, input_dim=half)
                    other = me.Rows(ph, -1, input_dim=d - half)
                    node = mh.Layer([inner, other])
                elif shape == 'clone':
                    half = d // 2
                    inner = cls(ph, i, input_dim=half)
                    node = mh.CloneLayer(inner, n_nodes=2)
                elif shape == 'flownode':
                    node = mh.FlowNode(mdp.Flow([mn.IdentityNode(), inner]))
                elif shape == 'pretrained':
                    # rows already fed to the node before the parallel training
                    pre = [chunk()]
                    for c in pre:
                        inner.train(c)
                    node = inner
                else:
                    node = inner
                exp = []
                for p in range(ph):
                    cnt = collections.Counter()
                    for c in (pre if p == 0 else []) + chunks:
                        ids = c[:, 0].tolist()
                        cnt.update(ids)
                        if shape == 'clone':
                            cnt.update(np.round(c[:, d // 2], 6).tolist())
                    exp.append(cnt)
                nodes.append(node)
                recs.append((inner, exp, shape, cls.__name__))
                data.append(chunks)
            flow = P.ParallelFlow(nodes)
            if not recs:
                continue
            before = [None if c is None else [x.copy() for x in c] for c in data]
            over = rng.rand() < 0.7
            if not over:
                s.result_container = [P.ListResultContainer(), P.OrderedResultContainer()][rng.randint(2)]
            flow.train(data, scheduler=s, overwrite_result_container=bool(over))
            for j, (inner, exp, shape, cname) in enumerate(recs):
                # the objects the user knows are the trained ones
                got = rows_of(inner)
                for p, (g, e) in enumerate(zip(got, exp)):
                    rec.event('rows_accounted', sum(e.values()))
                    rec.require(g == e, '%s:rows:%s' % (kind, shape),
                                lambda: 'node %d (%s in %s), phase %d: %d rows missing, %d too many (%s)' % (
                                    j, cname, shape, p, sum((e - g).values()), sum((g - e).values()),
                                    'first: %s' % list((g - e) or (e - g))[:3]))
                rec.require(not inner.is_training(), kind + ':closed', 'phase left open')
            for b, c in zip(before, data):
                if b is not None:
                    rec.require(all((u == v).all() for u, v in zip(b, c)), kind + ':data-changed',
                                'training data was modified')
            rec.event('flows_compared')
            rec.case(kind, [r[2:] for r in recs], counter[0], getattr(s, 'orders', ())[-3:])
        S.deadline(s.shutdown, 40)
    finally:
        S.reap()


# -- forks for execution --------------------------------------------------------
class ExecRows(mdp.Node):
    """Collects the rows it executes (documented use of use_execute_fork)."""
    def __init__(self, tag=None, input_dim=None, output_dim=None, dtype=None):
        super(ExecRows, self).__init__(input_dim, output_dim, dtype)
        self.tag = tag
        self.seen = []

    def is_trainable(self):
        return False

    def _execute(self, x):
        self.seen.extend(np.round(x[:, 0], 6).tolist())
        return x * 2 if self.tag == 'double' else x


@mdp.extension_method('parallel', ExecRows, '_fork')
def _efork(self):
    return self.__class__(self.tag, self.input_dim, self.output_dim, self.dtype)


@mdp.extension_method('parallel', ExecRows, '_join')
def _ejoin(self, other):
    self.seen.extend(other.seen)


@mdp.extension_method('parallel', ExecRows, 'use_execute_fork')
def _euse(self):
    return True


@CHECK.each([(k, k) for k in ('base', 'shuffle', 'thread', 'process')], quick=6, thorough=60, timeout=300)
def execution(rng, rec, kind):
    """Chunks of output in input order; execution state is joined exactly once."""
    import checks.p15 as me
    s = scheduler(rng, kind)
    try:
        for rnd in range(3):
            d = 2 * int(rng.randint(1, 3))
            with_fork = rng.rand() < 0.7
            inners = []
            pool = []
            for i in range(int(rng.randint(1, 4))):
                shape = str(rng.choice(['exec', 'layer', 'clone', 'flownode', 'poly', 'identity', 'double']))
                if not with_fork and shape in ('exec', 'layer', 'clone', 'flownode', 'double'):
                    shape = 'identity'
                if shape == 'exec':
                    n = me.ExecRows()
                    inners.append((n, 1))
                elif shape == 'double':
                    n = me.ExecRows(input_dim=d)
                    inners.append((n, 1))
                elif shape == 'layer':
                    a, b = me.ExecRows(input_dim=d // 2), me.ExecRows(input_dim=d // 2)
                    inners.append((a, 1))
                    n = mh.Layer([a, b])
                elif shape == 'clone':
                    a = me.ExecRows(input_dim=d // 2)
                    inners.append((a, 2))
                    n = mh.CloneLayer(a, n_nodes=2)
                elif shape == 'flownode':
                    a = me.ExecRows(input_dim=d)
                    inners.append((a, 1))
                    n = mh.FlowNode(mdp.Flow([a, mn.IdentityNode(input_dim=d)]))
                else:
                    n = mn.IdentityNode()
                pool.append(n)
            last = rng.rand() < 0.5
            if last:
                pool.append(mn.PolynomialExpansionNode(2))
            flow = P.ParallelFlow(pool)
            m = int(rng.randint(1, 7))
            xs = []
            at = 0
            for _ in range(m):
                k = int(rng.randint(1, 6))
                x = rng.rand(k, d)
                x[:, 0] = at + np.arange(k)
                x[:, d // 2] = x[:, 0]
                at += k
                xs.append(x)
            ids = collections.Counter(float(i) for i in range(at))
            form = str(rng.choice(['list', 'generator', 'iterable', 'array']))
            arg = {'list': lambda: [x.copy() for x in xs], 'generator': lambda: (x.copy() for x in xs),
                   'iterable': lambda: _Repeat(xs), 'array': lambda: np.concatenate(xs)}[form]()
            nodenr = None
            if rng.rand() < 0.4:
                nodenr = int(rng.randint(0, len(pool)))
            y = flow.execute(arg, nodenr=nodenr, scheduler=s) if nodenr is not None else \
                flow.execute(arg, scheduler=s)
            for n, mult in inners:
                top = [i for i, p in enumerate(pool) if p is n or n in getattr(p, 'nodes', ()) or
                       (isinstance(p, mh.FlowNode) and n in list(p._flow))][0]
                e = collections.Counter()
                if nodenr is None or top <= nodenr:
                    for _ in range(mult):
                        e.update(ids)
                got = collections.Counter(n.seen)
                rec.event('rows_accounted', at)
                rec.require(got == e, kind + ':executed-rows', lambda: 'rows executed %s, expected %s (%s)' % (
                    sum(got.values()), sum(e.values()), form))
            seen = [list(n.seen) for n, _ in inners]
            ser = mdp.Flow([mn.IdentityNode()] + [p for i, p in enumerate(pool) if i <= (len(pool) if nodenr is None else nodenr)])
            want = ser.execute([x.copy() for x in xs])
            rec.require(y.shape == want.shape and np.abs(y - want).max() < 1e-12, kind + ':execute-order',
                        lambda: 'parallel execution (%s, nodenr=%s) differs: shapes %s %s' % (form, nodenr, y.shape, want.shape))
            rec.event('flows_compared')
            rec.case(kind, form, nodenr, [len(x) for x in xs], [type(p).__name__ for p in pool])
        S.deadline(s.shutdown, 40)
    finally:
        S.reap()


# -- whole flows ------------------------------------------------------------------
def build(rng):
    """A flow of real nodes as (constructor, per-node extra)."""
    d = 6
    parts = []
    choice = int(rng.randint(7))
    if choice == 0:
        parts = [(lambda: mn.PCANode(output_dim=4), None), (lambda: mn.QuadraticExpansionNode(), None),
                 (lambda: mn.SFANode(output_dim=3), None)]
    elif choice == 1:
        parts = [(lambda: mn.WhiteningNode(output_dim=4), None), (lambda: mn.FDANode(output_dim=3), C.lab6),
                 (lambda: mn.GaussianClassifier(), C.lab3)]
    elif choice == 2:
        parts = [(lambda: mh.Layer([mn.PCANode(input_dim=3, output_dim=2), mn.SFANode(input_dim=3, output_dim=2)]), None),
                 (lambda: mh.CloneLayer(mn.SFANode(input_dim=2, output_dim=2), n_nodes=2), None),
                 (lambda: mn.KNNClassifier(k=1), C.lab3)]
    elif choice == 3:
        sw = lambda: mh.Rectangular2dSwitchboard(in_channels_xy=(3, 2), field_channels_xy=(2, 1), field_spacing_xy=(1, 1))
        parts = [(sw, None), (lambda: mh.CloneLayer(mn.SFA2Node(input_dim=2, output_dim=2), n_nodes=4), None),
                 (lambda: mn.NormalizeNode(), None), (lambda: mn.NearestMeanClassifier(), C.lab3)]
    elif choice == 4:
        parts = [(lambda: mh.FlowNode(mdp.Flow([mn.PCANode(output_dim=5), mn.SFANode(output_dim=4)])), None),
                 (lambda: mn.LinearRegressionNode(), C.ydata)]
    elif choice == 5:
        parts = [(lambda: mn.HistogramNode(), None), (lambda: mn.CuBICANode(), None),
                 (lambda: mn.AdaptiveCutoffNode(0.05, 0.05), None)]
    else:
        parts = [(lambda: mn.EtaComputerNode(), None), (lambda: mn.PCANode(output_dim=0.95, reduce=True), None),
                 (lambda: mn.WhiteningNode(svd=True), None)]
    if rng.rand() < 0.3:
        parts.insert(0, (lambda: mn.IdentityNode(), None))
    return d, parts, choice


@CHECK.each([(k, k) for k in ('base', 'shuffle', 'thread', 'process')], quick=9, thorough=80, timeout=300)
def flows(rng, rec, kind):
    d, parts, choice = build(rng)
    n = 240
    X = C.smooth_mix(rng, n, d)
    if rng.rand() < 0.3:
        X = X.astype('f')
    cuts = [0] + sorted(set(int(c) for c in rng.randint(40, n - 40, size=int(rng.randint(0, 4))))) + [n]
    cuts = [c for i, c in enumerate(cuts) if i == 0 or c - cuts[i - 1] >= 20 or c == n]
    data = []
    Xs = []
    for mk, extra in parts:
        Xn = X.copy()
        E = None if extra is None else extra(rng, Xn)
        chunks = []
        for a, b in zip(cuts[:-1], cuts[1:]):
            chunks.append(Xn[a:b].copy() if E is None else (Xn[a:b].copy(), E[a:b].copy()))
        data.append(chunks)
    probe = X[:50].copy()
    ser = mdp.Flow([mk() for mk, _ in parts])
    ser.train([list(c) for c in data])
    s = scheduler(rng, kind)
    try:
        cls = P.ParallelFlow
        extra_kw = {}
        marks = []
        if rng.rand() < 0.25:
            cls = P.ParallelCheckpointFlow
            extra_kw['checkpoints'] = [(lambda node, i=i: marks.append((i, node.is_training())) or {})
                                       for i in range(len(parts))]
        par = cls([mk() for mk, _ in parts])
        per_node = kind != 'process' and rng.rand() < 0.25
        par.train([list(c) for c in data],
                  scheduler=iter([scheduler(rng, kind) for _ in parts]) if per_node else s, **extra_kw)
        if cls is P.ParallelCheckpointFlow:
            trainable = [i for i, p in enumerate(parts) if ser[i].is_trainable()]
            rec.require([m for m, _ in marks] == trainable and not any(t for _, t in marks), kind + ':checkpoints',
                        lambda: 'checkpoints %s for trainable nodes %s' % (marks, trainable))
        # compare node by node along the parallel flow, up to column sign
        tol = 2e-3 if X.dtype == np.dtype('f') else 1e-6
        xa, xb = probe.copy(), probe.copy()
        stable = True
        for i in range(len(parts)):
            ya, yb = ser[i].execute(xa.copy()), par[i].execute(xb.copy())
            if isinstance(ya, np.ndarray) and ya.dtype.kind == 'f':
                if not C.close(ya, yb, tol, sign=False):
                    ok = C.close(ya, yb, tol, sign=True)
                    rec.require(ok or _degenerate(ya, yb, choice, i), '%s:flow%d:node%d' % (kind, choice, i),
                                lambda: 'serial and parallel flows differ by %g' % C.maxdiff(ya, yb))
                    stable = False
                    rec.event('sign_freedom_seen')
                    break
            xa, xb = ya, yb
        if stable:
            last_a, last_b = ser[-1], par[-1]
            if hasattr(last_a, 'label') and parts[-1][1] is C.lab3:
                la, lb = last_a.label(xa.copy() if len(parts) < 2 else _upto(ser, probe)), \
                    last_b.label(_upto(par, probe))
                diff = np.mean(np.array(la) != np.array(lb))
                rec.require(diff <= 0.1, '%s:flow%d:labels' % (kind, choice), 'labels differ: %g' % diff)
            # parallel execution of the trained flow
            xs = [probe[:13].copy(), probe[13:14].copy(), probe[14:].copy()]
            if not hasattr(last_a, 'label') or last_a.output_dim:
                y1 = par.execute([x.copy() for x in xs])
                y2 = par.execute([x.copy() for x in xs], scheduler=s)
                rec.require(C.close(y1, y2, 1e-6 if X.dtype.char == 'f' else 1e-9), kind + ':flow-execute',
                            'parallel execution differs')
            rec.event('fully_compared')
        rec.event('flows_compared')
        rec.case(kind, choice, cls.__name__, cuts, per_node, X.dtype.char, getattr(s, 'orders', ()))
        S.deadline(s.shutdown, 40)
    finally:
        S.reap()


def _upto(flow, x):
    for node in flow[:-1]:
        x = node.execute(x.copy())
    return x


def _degenerate(ya, yb, choice, i):
    """Rotations inside (nearly) degenerate eigenspaces: data whitened by the
    preceding nodes leaves the directions free."""
    return choice in (2, 3, 6) and i >= 1 and ya.shape == yb.shape


# -- fork/join trees ----------------------------------------------------------------
FORKABLE = [s.name for s in C.SPECS if s.trainable and s.name in (
    'PCA', 'PCA2', 'PCA_frac', 'Whitening', 'FDA', 'SFA', 'SFA_default', 'SFA2', 'AdaptiveCutoff', 'Histogram',
    'Gaussian', 'NearestMean', 'KNN', 'Layer', 'CloneLayer', 'FlowNode', 'FlowNode_fda')]


@CHECK.each([(n, n) for n in FORKABLE], quick=2, thorough=20)
def trees(rng, rec, name):
    """Recursive forks, trained in any order, joined in any order."""
    spec = C.BY_NAME[name]
    X = spec.data(rng)
    E = spec.train_args(rng, X)
    cuts = random_cuts(rng, spec, len(X))
    chunks = spec.split(X, E, cuts)
    ser = spec.make()
    par = spec.make()
    with mdp.extension('parallel'):
        while ser.is_training():
            spec.feed(ser, [(x.copy(), e) for x, e in chunks])
            ser.stop_training()
            left = [(x.copy(), e) for x, e in chunks]
            order = [int(i) for i in rng.permutation(len(left))]
            # the parent itself may train a part
            own = int(rng.randint(0, 2)) if len(left) > 1 else 0
            spec.feed(par, [left[i] for i in order[:own]])
            groups = []
            rest = order[own:]
            while rest:
                k = int(rng.randint(1, len(rest) + 1))
                groups.append(rest[:k])
                rest = rest[k:]
            forks_ = []
            for g in groups:
                f = par.fork()
                rec.require(f is not par, name + ':fork', 'fork returned the node itself')
                if len(g) > 1 and rng.rand() < 0.6:
                    # recursive forking and joining
                    sub = [f.fork() for _ in g]
                    for q, i in zip(sub, g):
                        spec.feed(q, [left[i]])
                    for j in rng.permutation(len(sub)):
                        f.join(sub[j])
                    rec.event('recursive_forks')
                else:
                    spec.feed(f, [left[i] for i in g])
                if rng.rand() < 0.5:
                    f = pickle.loads(pickle.dumps(f, -1))
                forks_.append(f)
            for j in rng.permutation(len(forks_)):
                par.join(forks_[j])
            rec.event('joins', len(forks_))
            par.stop_training()
    rec.require(not par.is_training(), name + ':phases', 'phases differ')
    _same_nodes(rec, name, spec, ser, par, rng, 0)
    rec.event('flows_compared')
    rec.case(name, cuts, own)


# -- manual use and custom callables ----------------------------------------------
class Rescale(P.FlowTrainCallable):
    def __call__(self, data):
        return super(Rescale, self).__call__(data.astype('d') / 255.)


class RescaleExec(P.FlowExecuteCallable):
    def __call__(self, x):
        return super(RescaleExec, self).__call__(x.astype('d') / 255.)


@CHECK.scenario(quick=8, thorough=80)
def manual(rng, rec):
    """get_task / use_results by hand, tasks run in any order as pickled copies."""
    d = 4
    raw = [rng.randint(0, 256, size=(30, d)).astype('uint8') for _ in range(int(rng.randint(1, 5)))]
    mk = lambda: [mn.PCANode(output_dim=3), mn.TimeDelayNode(1, 1) if False else mn.IdentityNode(),
                  C.TwoPhase(), mn.SFANode(output_dim=2)]
    ser = mdp.Flow(mk())
    dat = [x.astype('d') / 255. for x in raw]
    ser.train([dat] * 4)
    par = P.ParallelFlow(mk())
    with mdp.extension('parallel'):
        par.setup_parallel_training([raw] * 4, train_callable_class=Rescale)
        rounds = 0
        while par.is_parallel_training:
            tasks, last = [], None
            while par.task_available:
                x, c = par.get_task()
                last = c or last
                tasks.append((x, last))
            results = []
            for i in rng.permutation(len(tasks)):
                x, c = tasks[i]
                results.append(pickle.loads(pickle.dumps(c, -1)).fork()(x))
            par.use_results([pickle.loads(pickle.dumps(r, -1)) for r in results])
            rounds += 1
        par.setup_parallel_execution(raw, execute_callable_class=RescaleExec)
        rec.require(par.is_parallel_executing, 'manual:state', 'not executing')
        tasks, last = [], None
        while par.task_available:
            x, c = par.get_task()
            last = c or last
            tasks.append((x, last))
        if not tasks:
            raise Skip()
        results = [None] * len(tasks)
        for i in rng.permutation(len(tasks)):
            results[i] = tasks[i][1].fork()(tasks[i][0])
        y = par.use_results(results)
        rec.require(not par.is_parallel_executing, 'manual:state', 'still executing')
    want = ser.execute(dat)
    rec.require(C.close(want, y, 1e-7, sign=True), 'manual:result', 'manual parallel use differs by %g' %
                C.maxdiff(np.abs(want), np.abs(y)))
    rec.event('flows_compared')
    rec.case(len(raw), rounds)


# -- bi-flows -----------------------------------------------------------------------
class MsgRows(bimdp.BiNode):
    """Counts rows and the message values that came with them."""
    def __init__(self, tag=None, node_id=None, input_dim=None, output_dim=None, dtype=None):
        super(MsgRows, self).__init__(node_id=node_id, input_dim=input_dim, output_dim=output_dim, dtype=dtype)
        self.tag = tag
        self.rows = []

    def _train(self, x, mark=None):
        for r in np.round(x[:, 0], 6).tolist():
            self.rows.append((r, mark))

    def _stop_training(self, mark=None):
        self.stopped = mark

    def _execute(self, x, mark=None):
        return x, {'mark%s' % self.tag: [mark], 'arr': x[:, :1] * 1.}


@mdp.extension_method('parallel', MsgRows, '_fork')
def _mfork(self):
    return self.__class__(self.tag, self._node_id, self.input_dim, self.output_dim, self.dtype)


@mdp.extension_method('parallel', MsgRows, '_join')
def _mjoin(self, other):
    self.rows.extend(other.rows)


@CHECK.each([(k, k) for k in ('base', 'shuffle', 'thread', 'process')], quick=5, thorough=50, timeout=300)
def biflows(rng, rec, kind):
    import checks.p15 as me
    s = scheduler(rng, kind)
    try:
        # messages stay with their rows
        n_nodes = int(rng.randint(1, 4))
        d = 3
        at = 0
        data, msgs, want = [], [], []
        for i in range(n_nodes):
            xs, ms, w = [], [], []
            for c in range(int(rng.randint(1, 6))):
                k = int(rng.randint(1, 5))
                x = rng.rand(k, d)
                x[:, 0] = at + np.arange(k)
                at += k
                m = None if rng.rand() < 0.3 else {'mark': 'm%d_%d' % (i, c)}
                xs.append(x)
                ms.append(m)
                w += [(float(r), m and m['mark']) for r in x[:, 0]]
            data.append(xs)
            msgs.append(ms)
            want.append(collections.Counter(w))
        keep = [[None if m is None else dict(m) for m in ms] for ms in msgs]
        flow = ParallelBiFlow([me.MsgRows(i, node_id='n%d' % i) for i in range(n_nodes)])
        stop = [None if rng.rand() < 0.4 else {'n%d->mark' % i: 's%d' % i} for i in range(n_nodes)]
        flow.train([[x.copy() for x in xs] for xs in data], msg_iterables=msgs, stop_messages=stop, scheduler=s)
        for i in range(n_nodes):
            got = collections.Counter(flow[i].rows)
            rec.event('rows_accounted', sum(want[i].values()))
            rec.require(got == want[i], kind + ':bi-rows', lambda: 'node %d: rows with messages differ: %s' % (
                i, list((got - want[i]) or (want[i] - got))[:3]))
            rec.require(flow[i].stopped == (stop[i] and 's%d' % i), kind + ':stop-message',
                        lambda: 'stop message of node %d: %r' % (i, flow[i].stopped))
        rec.require(msgs == keep, kind + ':messages-changed', 'messages of the user were changed')
        xs = [rng.rand(int(rng.randint(1, 5)), d) for _ in range(int(rng.randint(1, 5)))]
        ms = [None if rng.rand() < 0.3 else {'mark': 'e%d' % i} for i in range(len(xs))]
        ser = bimdp.BiFlow(list(flow.flow))
        y1, m1 = ser.execute([x.copy() for x in xs], [m and dict(m) for m in ms])
        y2, m2 = flow.execute([x.copy() for x in xs], [m and dict(m) for m in ms], scheduler=s)
        rec.require(C.close(y1, y2, 1e-12), kind + ':bi-execute', 'outputs differ')
        rec.require(sorted(m1) == sorted(m2) and all(
            np.array_equal(m1[k], m2[k]) if isinstance(m1[k], np.ndarray) else m1[k] == m2[k] for k in m1),
            kind + ':bi-message', lambda: 'messages differ: %r %r' % (m1, m2))
        rec.event('flows_compared')
        # real bi-nodes
        n = 180
        X = C.smooth_mix(rng, n, 4)
        lab = C.lab6(rng, X)
        cuts = [0] + sorted(int(c) for c in rng.choice(np.arange(30, n - 30, 15), size=int(rng.randint(0, 4)), replace=False)) + [n]
        ch = [X[a:b].copy() for a, b in zip(cuts[:-1], cuts[1:])]
        lm = [{'labels': lab[a:b].copy()} for a, b in zip(cuts[:-1], cuts[1:])]
        which = int(rng.randint(3))

        def mkf(cls):
            if which == 0:
                return cls([bimdp.nodes.PCABiNode(output_dim=4), bimdp.nodes.FDABiNode(output_dim=2)]), \
                    [None, [dict(m) for m in lm]]
            if which == 1:
                return cls([bimdp.hinet.CloneBiLayer(bimdp.nodes.PCABiNode(input_dim=2), n_nodes=2),
                            bimdp.nodes.SFABiNode(output_dim=2)]), [None, None]
            return cls([bimdp.nodes.NormalizeBiNode(), bimdp.nodes.NearestMeanBiClassifier()]), [None, [dict(m) for m in lm]]
        f1, m1 = mkf(bimdp.BiFlow)
        f2, m2 = mkf(ParallelBiFlow)
        f1.train([[c.copy() for c in ch]] * 2, msg_iterables=m1)
        f2.train([[c.copy() for c in ch]] * 2, msg_iterables=m2, scheduler=s)
        probe = X[:40]
        if which == 2:
            a, ma = f1.execute(probe.copy(), {'return_labels': True})
            b, mb = f2.execute(probe.copy(), {'return_labels': True})
            rec.require(list(ma['labels']) == list(mb['labels']), kind + ':bi-labels', 'labels differ')
        else:
            a, _ = f1.execute(probe.copy())
            b, _ = f2.execute(probe.copy())
            rec.require(C.close(a, b, 1e-5, sign=True), kind + ':bi-flow%d' % which,
                        lambda: 'serial and parallel differ by %g' % C.maxdiff(np.abs(a), np.abs(b)))
        rec.event('flows_compared')
        rec.case(kind, n_nodes, which, cuts, getattr(s, 'orders', ()))
        S.deadline(s.shutdown, 40)
    finally:
        S.reap()
