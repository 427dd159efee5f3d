"""P07 a flow behaves exactly like its nodes applied one after the other."""
import numpy as np
import mdp
import mdp.nodes as mn
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P07', 'A case trains a generated flow (2-5 nodes: linear, slow-feature, supervised, '
              'multi-phase, expansion, routing, nested, already trained ones) through one accepted form of '
              'data for each node, records every call its nodes receive, and trains an identical set of '
              'nodes by hand; then executes, partially executes and inverts both. Distinct by node '
              'sequence, data form per node and seed.')
CHECK.expect_events(node_calls_recorded=2000, flows_trained=150, executions_compared=300)


class SupPhase(mdp.Node):
    """Two phases; the target is needed in each."""
    def __init__(self, input_dim=None, output_dim=None, dtype=None):
        super(SupPhase, self).__init__(input_dim, output_dim, dtype)
        self.acc = [0., 0.]
        self.cnt = [0, 0]

    def _get_train_seq(self):
        return [(self._train_a, self._stop_a), (self._train_b, self._stop_b)]

    def _train_a(self, x, t, w):
        self.acc[0] = self.acc[0] + (x * np.asarray(t)[:, None] * np.asarray(w)[:, None]).sum(0)
        self.cnt[0] += len(x)

    def _train_b(self, x, t, w):
        self.acc[1] = self.acc[1] + ((x - self.a) * np.asarray(w)[:, None]).sum(0)
        self.cnt[1] += len(x)

    def _train(self, x, t, w):
        # for the flow: arguments required
        raise AssertionError('not reached: the node has its own sequence')

    def _stop_a(self):
        self.a = self.acc[0] / self.cnt[0]

    def _stop_b(self):
        self.b = self.acc[1] / self.cnt[1]

    def _execute(self, x):
        return self._refcast(x - self.a * 0.5 + 0.1 * self.b)

    def _inverse(self, y):
        return self._refcast(y + self.a * 0.5 - 0.1 * self.b)


class OneCum(mdp.Node):
    """Keeps everything it was trained with."""
    def __init__(self, **k):
        super(OneCum, self).__init__(**k)
        self.seen = []
        self.stopped = 0

    def _train(self, x):
        self.seen.append(x.copy())

    def _stop_training(self):
        self.stopped += 1
        self.m = np.concatenate(self.seen).mean(0)

    def _execute(self, x):
        return self._refcast(x - self.m)

    def _inverse(self, y):
        return self._refcast(y + self.m)


# name, factory(d), supervision, min rows, invertible, out-dim growth ok
POOL = [
    ('pca', lambda d: mn.PCANode(), None, True),
    ('pcad', lambda d: mn.PCANode(output_dim=max(1, d - 1)), None, True),
    ('white', lambda d: mn.WhiteningNode(), None, True),
    ('sfa', lambda d: mn.SFANode(), None, True),
    ('norm', lambda d: mn.NormalizeNode(), None, True),
    ('twophase', lambda d: C.TwoPhase(), None, True),
    ('onecum', lambda d: OneCum(), None, True),
    ('hist', lambda d: mn.HistogramNode(), None, True),
    ('fda', lambda d: mn.FDANode(output_dim=min(2, d)), 'label', True),
    ('supphase', lambda d: SupPhase(), 'two', True),
    ('linreg', lambda d: mn.LinearRegressionNode(), 'target', False),
    ('gauss', lambda d: mn.GaussianClassifier(), 'label', False),
    ('nmean', lambda d: mn.NearestMeanClassifier(), 'label', True),
    ('quad', lambda d: mn.QuadraticExpansionNode(), None, False),
    ('ident', lambda d: mn.IdentityNode(), None, True),
    ('cutoff', lambda d: mn.CutoffNode(-2., 2.), None, False),
    ('switch', lambda d: mdp.hinet.Switchboard(d, list(range(d))[::-1]), None, True),
    ('flownode', lambda d: mdp.hinet.FlowNode(mdp.Flow([C.TwoPhase(), mn.PCANode()])), None, True),
    ('layer', lambda d: mdp.hinet.SameInputLayer([mn.PCANode(input_dim=d, output_dim=1),
                                                  OneCum(input_dim=d, output_dim=d)]), None, False),
    ('clone', lambda d: mdp.hinet.CloneLayer(C.TwoPhase(input_dim=1, output_dim=1), d), None, True),
]


LOG = []


def spy(node, ident, rec):
    """Record every public call to one node instance (class swap, so that no
    instance attribute shadows a method)."""
    cls = type(node)

    class Spied(cls):
        def train(self, x, *a, **k):
            LOG.append((ident, 'train', self.get_current_train_phase(), x.copy(), tuple(np.array(i) for i in a)))
            rec.event('node_calls_recorded')
            return cls.train(self, x, *a, **k)

        def stop_training(self, *a, **k):
            LOG.append((ident, 'stop', self.get_current_train_phase() if self.is_training() else None, None, ()))
            rec.event('node_calls_recorded')
            return cls.stop_training(self, *a, **k)

        def execute(self, x, *a, **k):
            LOG.append((ident, 'execute', None, x.copy(), a))
            rec.event('node_calls_recorded')
            return cls.execute(self, x, *a, **k)
    Spied.__name__ = cls.__name__
    node.__class__ = Spied
    return node


class Iterable(object):
    """Restartable, not a list."""
    def __init__(self, items):
        self.items = items
        self.starts = 0

    def __iter__(self):
        self.starts += 1
        return iter(list(self.items))


def build(rng, n_nodes, d, dt):
    X = C.smooth_mix(rng, 150, d).astype(dt)
    picks = [POOL[rng.randint(len(POOL))] for _ in range(n_nodes)]
    seed = rng.randint(1 << 30)

    def make():
        return None
    return X, picks


def sup_args(rng, kind, n):
    if kind == 'label':
        lab = np.arange(n) % 3
        rng.shuffle(lab)
        return (lab,)
    if kind == 'target':
        return (rng.randn(n, 2),)
    if kind == 'two':
        return (rng.randn(n), rng.rand(n))
    return ()


def gen_chunks(rng, kind, d, dt, n=None, single=False):
    n = n or int(rng.randint(90, 150))
    X = C.smooth_mix(rng, n, d).astype(dt)
    A = sup_args(rng, kind, n)
    if kind == 'target':
        A = (A[0].astype(dt),)
    k = 1 if single else int(rng.randint(1, 5))
    edges = [i * n // k for i in range(k + 1)]
    return [(X[a:b].copy(),) + tuple(z[a:b].copy() for z in A) for a, b in zip(edges[:-1], edges[1:])]


FORMS = ['list', 'tuples', 'lists', 'gen', 'iterable', 'none', 'single-array']


def wrap(rng, chunks, form, phases):
    items = [c[0] if len(c) == 1 and form in ('list', 'gen', 'iterable') else
             (list(c) if form == 'lists' else tuple(c)) for c in chunks]
    if form == 'gen':
        return (i for i in items)
    if form == 'iterable':
        return Iterable(items)
    return items


def train_by_hand(nodes, data):
    for i, node in enumerate(nodes):
        if not node.is_trainable() or not node.is_training():
            continue
        while node.is_training():
            for c in data[i]:
                x = c[0]
                for p in nodes[:i]:
                    x = p.execute(x)
                node.train(x, *c[1:])
            node.stop_training()


def try_hand(nodes, data, x):
    """Skip data that the nodes themselves cannot digest."""
    try:
        train_by_hand(nodes, data)
        for n in nodes:
            x = n.execute(x)
        if not np.all(np.isfinite(x)):
            raise Skip('degenerate')
        return x
    except Skip:
        raise
    except Exception as e:
        if isinstance(e, mdp.MDPException) or isinstance(e, (np.linalg.LinAlgError,)):
            raise Skip('data not digestible: %s' % e)
        raise


def close(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and C.maxdiff(a, b) <= 1e-9 * C.scale(b)


def phases_of(node):
    return node.get_remaining_train_phase()


@CHECK.scenario(quick=800, thorough=8000)
def train_execute(rng, rec):
    n_nodes = int(rng.randint(1, 6))
    d = int(rng.randint(2, 5))
    dt = np.dtype('d') if rng.rand() < 0.8 else np.dtype('f')
    names, flow_nodes, data, forms = [], [], [], []
    cur = d
    cls = [mdp.Flow, mdp.parallel.ParallelFlow, mdp.Flow][rng.randint(3)]
    shared_form = rng.rand() < 0.15
    for i in range(n_nodes):
        for _ in range(50):
            name, fac, sup, inv = POOL[rng.randint(len(POOL))]
            if shared_form and sup:
                continue
            if name == 'quad' and cur > 4:
                continue
            if name in ('fda', 'pcad') and cur < 3:
                continue
            if name == 'linreg' and i != n_nodes - 1 and rng.rand() < 0.5:
                continue
            break
        else:
            raise Skip('pool')
        node = fac(cur)
        names.append(name)
        flow_nodes.append(node)
        if name == 'pcad':
            cur = cur - 1
        elif name == 'fda':
            cur = 2
        elif name == 'linreg':
            cur = 2
        elif name == 'quad':
            cur = cur + cur * (cur + 1) // 2
        elif name == 'layer':
            cur = cur + 1
    single = C.smooth_mix(rng, 140, d).astype(dt)
    pre = []
    for i, (name, node) in enumerate(zip(names, flow_nodes)):
        sup = [p for p in POOL if p[0] == name][0][2]
        if shared_form:
            data.append([(single,)])
            forms.append('single-array')
            continue
        data.append(gen_chunks(rng, sup, d, dt))
        ph = phases_of(node)
        if not node.is_trainable():
            forms.append(['none', 'list', 'gen'][rng.randint(3)])
        else:
            cand = ['tuples', 'lists'] if sup else ['list', 'tuples', 'lists']
            cand.append('iterable')
            if ph == 1:
                cand += ['gen', 'gen']
            forms.append(cand[rng.randint(len(cand))])
    # some leading nodes already trained
    hand_nodes = [n.copy() for n in flow_nodes]
    npre = 0
    if not shared_form and rng.rand() < 0.3 and n_nodes > 1:
        npre = int(rng.randint(1, n_nodes))
        try:
            train_by_hand(flow_nodes[:npre], data[:npre])
        except mdp.MDPException:
            raise Skip('degenerate')
        hand_nodes = [n.copy() for n in flow_nodes]
        for i in range(npre):
            forms[i] = ['none', 'list', 'none'][rng.randint(3)]
    # a node that already got some data by hand
    probe = C.smooth_mix(rng, 11, d).astype(dt)
    ref = try_hand(hand_nodes, data, probe)
    snap = [[tuple(a.copy() for a in c) for c in ch] for ch in data]
    del LOG[:]
    for i, n in enumerate(flow_nodes):
        spy(n, i, rec)
    if shared_form:
        iterables = single if rng.rand() < 0.5 else [[single]] * n_nodes
    else:
        iterables = []
        for i in range(n_nodes):
            if forms[i] == 'none':
                iterables.append(None)
            else:
                iterables.append(wrap(rng, data[i], forms[i], 1))
    flow = cls(flow_nodes)
    where = '%s %s forms %s pretrained %d %s' % (cls.__name__, names, forms, npre, dt)
    flow.train(iterables)
    rec.event('flows_trained')
    # --- trace: each node sees exactly its own data, filtered, in order
    log = list(LOG)
    pos_last = {}
    for i, node in enumerate(flow_nodes):
        mine = [(k, e) for k, e in enumerate(log) if e[0] == i and e[1] in ('train', 'stop')]
        if not hand_nodes[i].is_trainable() or i < npre:
            rec.require(not [e for k, e in mine if e[1] == 'train'] or
                        (i < npre and forms[i] != 'none'), 'trained-twice',
                        '%s: finished or untrainable node %d was trained' % (where, i))
            continue
        trains = [e for k, e in mine if e[1] == 'train']
        nph = len(hand_nodes[i]._train_seq)
        rec.require(len(trains) == nph * len(data[i]), 'training-calls',
                    '%s: node %d received %d training calls, expected %d' % (where, i, len(trains), nph * len(data[i])))
        for j, e in enumerate(trains):
            c = snap[i][j % len(data[i])]
            rec.require(e[2] == j // len(data[i]), 'training-order',
                        '%s: node %d chunk %d arrived in phase %s' % (where, i, j, e[2]))
            x = c[0]
            for p in hand_nodes[:i]:
                x = p.execute(x)
            rec.require(close(e[3], x), 'wrong-data', '%s: node %d chunk %d is not the output of the preceding trained nodes (%s)'
                        % (where, i, j, C.maxdiff(e[3], x)))
            rec.require(len(e[4]) == len(c) - 1 and all(np.array_equal(u, v) for u, v in zip(e[4], c[1:])),
                        'wrong-args', '%s: node %d chunk %d got the wrong training arguments' % (where, i, j))
        first = min(k for k, e in mine if e[1] == 'train')
        last = max(k for k, e in mine if e[1] == 'train')
        pos_last[i] = last
        for j in range(i):
            if j in pos_last:
                rec.require(pos_last[j] < first, 'training-order',
                            '%s: node %d was trained before node %d was finished' % (where, i, j))
    # --- inputs untouched
    for ch, ch0 in zip(data, snap):
        for c, c0 in zip(ch, ch0):
            rec.require(all(np.array_equal(u, v) for u, v in zip(c, c0)), 'input-modified', where)
    y = flow.execute(probe)
    rec.require(close(y, ref), 'result-differs',
                '%s: trained flow differs from training by hand by %g' % (where, C.maxdiff(y, ref)))
    # --- state (a last phase may stay open until the first execution)
    for i, (n, h) in enumerate(zip(flow_nodes, hand_nodes)):
        rec.require(n.is_training() == h.is_training() and
                    n.get_remaining_train_phase() == h.get_remaining_train_phase(), 'not-finished',
                    '%s: node %d' % (where, i))
    for n in flow_nodes:
        n.__class__ = n.__class__.__mro__[1]
    # --- execution forms
    parts = np.array_split(probe, rng.randint(1, 4))
    ys = []
    for p in parts:
        for n in hand_nodes:
            p = n.execute(p)
        ys.append(p)
    ys = np.concatenate(ys)
    for form in ('list', 'gen', 'call', 'iterable', 'tuple'):
        arg = {'list': list(parts), 'gen': (p for p in parts), 'call': list(parts),
               'iterable': Iterable(parts), 'tuple': tuple(parts)}[form]
        yy = flow(arg) if form == 'call' else flow.execute(arg)
        rec.require(close(yy, ys), 'execution-form', '%s: execute(%s)' % (where, form))
        rec.event('executions_compared')
    for k in range(n_nodes):
        x = probe
        for n in hand_nodes[:k + 1]:
            x = n.execute(x)
        rec.require(close(flow.execute(probe, nodenr=k), x), 'partial-execution', '%s: nodenr=%d' % (where, k))
        rec.require(close(flow(list([probe]), k), x), 'partial-execution', '%s: list, nodenr=%d' % (where, k))
        rec.require(close(flow[:k + 1].execute(probe), x), 'partial-execution', '%s: slice' % where)
        rec.event('executions_compared')
    if all([p for p in POOL if p[0] == nm][0][3] for nm in names) and all(n.is_invertible() for n in hand_nodes):
        z = y
        for n in reversed(hand_nodes):
            z = n.inverse(z)
        rec.require(close(flow.inverse(y), z), 'inverse', where)
        cut = np.array_split(y, 3)
        zz = []
        for p in cut:
            for n in reversed(hand_nodes):
                p = n.inverse(p)
            zz.append(p)
        zz = np.concatenate(zz)
        rec.require(close(flow.inverse(cut), zz), 'inverse', where + ' (list)')
        rec.require(close(flow.inverse(p for p in cut), zz), 'inverse', where + ' (generator)')
        rec.event('executions_compared', 3)
        rec.event('inversions_compared')
    rec.case(names, forms, npre, str(dt), rng.randint(1 << 30))


@CHECK.scenario(quick=80, thorough=800)
def retrain_and_resume(rng, rec):
    """Training again / resuming never trains a finished node twice."""
    d = 3
    X = C.smooth_mix(rng, 120, d)
    Z = C.smooth_mix(rng, 120, d) * 3 + 1
    names = [['pca', 'onecum', 'twophase', 'sfa', 'norm', 'white'][rng.randint(6)] for _ in range(rng.randint(2, 5))]
    facs = dict((p[0], p[1]) for p in POOL)
    nodes = [facs[n](d) for n in names]
    hand = [n.copy() for n in nodes]
    k = rng.randint(1, len(nodes))
    # the first k nodes are trained by hand first (on Z), the last phase left open
    open_last = rng.rand() < 0.5
    for grp in (nodes, hand):
        for i in range(k):
            while grp[i].is_training():
                x = Z
                for p in grp[:i]:
                    x = p.execute(x)
                grp[i].train(x)
                if grp[i].get_remaining_train_phase() == 1 and open_last and i == k - 1:
                    break
                grp[i].stop_training()
    if open_last:
        # node k-1 continues with the flow's data in its last phase
        x = X
        for p in hand[:k - 1]:
            x = p.execute(x)
        hand[k - 1].train(x)
        hand[k - 1].stop_training()
    for i in range(k, len(nodes)):
        while hand[i].is_training():
            x = X
            for p in hand[:i]:
                x = p.execute(x)
            hand[i].train(x)
            hand[i].stop_training()
    flow = mdp.Flow(nodes)
    flow.train(X)
    rec.event('flows_trained')
    probe = C.smooth_mix(rng, 9, d)
    r = probe
    for h in hand:
        r = h.execute(r)
    y = flow.execute(probe)
    where = 'names %s, %d pre-trained%s' % (names, k, ', last phase open' if open_last else '')
    rec.require(close(y, r), 'result-differs', where)
    # train once more, with other data: nothing may change
    before = y
    flow.train(Z)
    rec.require(close(flow.execute(probe), before), 'trained-twice', where + ': training a finished flow again changed it')
    flow.train([None] * len(nodes))
    rec.require(close(flow.execute(probe), before), 'trained-twice', where)
    rec.event('executions_compared', 3)
    rec.case(names, k, open_last, rng.randint(1 << 30))


class OptArg(mdp.Node):
    def __init__(self, **k):
        super(OptArg, self).__init__(**k)
        self.got = []

    def _train(self, x, w=None):
        self.got.append((x.copy(), None if w is None else np.array(w)))

    def _stop_training(self):
        pass


class KwOnly(mdp.Node):
    def __init__(self, **k):
        super(KwOnly, self).__init__(**k)
        self.got = []

    def _train(self, x, a, b, c=3):
        self.got.append((x.copy(), a, b, c))

    def _stop_training(self):
        pass


@CHECK.scenario(quick=60, thorough=600)
def arguments(rng, rec):
    """Optional and required training arguments reach their node only; a wrong
    number is refused naming the node."""
    X = [rng.randn(int(rng.randint(2, 9)), 3) for _ in range(rng.randint(1, 5))]
    kind = rng.randint(4)
    if kind == 0:
        # default arguments: absent or present
        n1, n2 = OptArg(), OptArg()
        W = [rng.randn(len(x)) for x in X]
        f = mdp.Flow([n1, n2])
        f.train([list(X), [(x, w) for x, w in zip(X, W)]])
        rec.require(all(g[1] is None for g in n1.got) and len(n1.got) == len(X), 'wrong-args', 'default argument of node 0')
        rec.require(len(n2.got) == len(X) and all(np.array_equal(g[1], w) and np.array_equal(g[0], x)
                                                  for g, w, x in zip(n2.got, W, X)), 'wrong-args', 'optional argument of node 1')
    elif kind == 1:
        n1, n2 = KwOnly(), OptArg()
        f = mdp.Flow([n1, n2])
        items = [(x, 'a%d' % i, i) + ((i * 2,) if rng.rand() < 0 else ()) for i, x in enumerate(X)]
        f.train([items, X])
        rec.require([g[1:] for g in n1.got] == [('a%d' % i, i, 3) for i in range(len(X))], 'wrong-args',
                    'required arguments of node 0: %s' % ([g[1:] for g in n1.got],))
        rec.require(len(n2.got) == len(X) and all(g[1] is None for g in n2.got), 'wrong-args', 'arguments leaked to node 1')
    else:
        # wrong number of arguments
        pos = rng.randint(3)
        nodes = [OptArg(), OptArg(), OptArg()]
        nodes[pos] = KwOnly()
        f = mdp.Flow(nodes)
        data = [list(X) for _ in range(3)]
        good = rng.randint(len(X))
        bad = [(x, 1, 2) for x in X]
        bad[good] = [(X[good], 1), X[good], (X[good],)][rng.randint(3)] if kind == 2 else (X[good], 1)
        data[pos] = bad
        try:
            f.train(data)
        except mdp.FlowException as e:
            rec.require('#%d' % pos in str(e), 'wrong-args', 'error does not name node %d: %s' % (pos, str(e)[-300:]))
        else:
            rec.require(False, 'wrong-args', 'missing training argument accepted for node %d' % pos)
        for j in range(pos + 1, 3):
            rec.require(not nodes[j].got, 'training-order', 'a later node was trained after the failure')
        rec.require(len(nodes[pos].got) == good, 'wrong-args', 'node %d got %d chunks before the bad one, expected %d'
                    % (pos, len(nodes[pos].got), good))
    rec.event('flows_trained')
    rec.case(kind, len(X), rng.randint(1 << 30))


@CHECK.scenario(quick=60, thorough=600)
def refused_data(rng, rec):
    """Data that cannot be what the flow needs is refused, nothing is trained."""
    X = rng.randn(40, 3)
    nodes = [OneCum(), OneCum()]
    f = mdp.Flow(nodes)
    kind = ['count', 'notlist', 'notiter', 'none-for-training', 'empty', 'exhausted', 'empty-exec', 'empty-inv'][rng.randint(8)]
    if kind == 'exhausted':
        nodes = [C.TwoPhase(), OneCum()]
        f = mdp.Flow(nodes)
        arg = [(x for x in [X, X]), [X]]
    else:
        arg = {'count': [[X]] * [1, 3, 5][rng.randint(3)], 'notlist': ([X], [X]), 'notiter': [[X], 7],
               'none-for-training': [[[X], None], [None, [X]]][rng.randint(2)],
               'empty': [[[X], []], [[], [X]], [iter(()), [X]]][rng.randint(3)],
               'empty-exec': None, 'empty-inv': None}[kind]
    where = 'data form %s' % kind
    try:
        if kind.startswith('empty-'):
            f.train(X)
            if kind == 'empty-exec':
                f.execute([[], (i for i in ())][rng.randint(2)])
            else:
                f.inverse([[], (i for i in ())][rng.randint(2)])
        else:
            f.train(arg)
    except mdp.FlowException:
        pass
    else:
        rec.require(False, 'bad-data-accepted', where)
    if kind in ('count', 'notlist', 'notiter'):
        rec.require(not nodes[0].seen and not nodes[1].seen, 'bad-data-accepted', where + ': a node was trained')
    if kind == 'exhausted':
        rec.require(not nodes[1].seen, 'bad-data-accepted', where)
    rec.event('flows_trained')
    rec.case(kind, rng.randint(1 << 30))
