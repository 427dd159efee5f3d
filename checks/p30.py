"""P30 bi-directional flows follow the requested route and train the right nodes."""
import numpy as np
import mdp
import bimdp
import mdp.nodes as mn
from bimdp import BiNode, BiFlow
from bimdp.hinet import BiFlowNode
from bimdp.parallel import ParallelBiFlow
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P30', 'A case is a generated flow of scripted routing nodes (relative, id, exit and unreachable targets), '
              'ordinary nodes and nested flow nodes with generated messages; every node logs what it received, and '
              'log, output, messages and errors are compared with an independent simulation of the route. '
              'Distinct by script, flow layout and seed.')
CHECK.expect_events(routes_simulated=2000, hops=8000, trainings_compared=300, unreachable=100, resets_checked=2000)


class Router(BiNode):
    """Affine map that logs its calls and answers with scripted targets."""
    def __init__(self, mul, script, tscript=(), sscript=None, log=None, **kw):
        self.mul, self.script, self.tscript, self.sscript = mul, list(script), list(tscript), sscript
        self.log = log
        self.i = self.ti = 0
        self.seen = []
        super(Router, self).__init__(**kw)

    def is_trainable(self):
        return self.sscript is not None

    def _mark(self, what, x):
        if self.log is not None:
            self.log.append((what, self.node_id, None if x is None else x.copy()))

    def _execute(self, x, add=0):
        self._mark('execute', x)
        t = self.script[self.i] if self.i < len(self.script) else None
        self.i += 1
        y = x * self.mul + 1 + add
        out = {'n_' + str(self.node_id): 1, 'path': [self.node_id]}
        return (y, out) if t is None else (y, out, t)

    def _inverse(self, x):
        self._mark('inverse', x)
        return (x - 1) / self.mul

    def _train(self, x):
        self._mark('train', x)
        t = self.tscript[self.ti] if self.ti < len(self.tscript) else None
        self.ti += 1
        if t is None:
            self.seen.append(x.sum())
            return None
        return x + 0.5, {'tr': 1}, t

    def _stop_training(self):
        self._mark('stop', None)
        if self.sscript:
            return np.full((2, 2), float(len(self.seen))), {'st': 1}, self.sscript
        return None

    def _bi_reset(self):
        self.i = self.ti = 0


class Plain(mdp.Node):
    def __init__(self, log=None, **k):
        super(Plain, self).__init__(**k)
        self.log = log

    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x):
        if self.log is not None:
            self.log.append(('execute', 'plain', x.copy()))
        return x + 1000

    def _inverse(self, y):
        return y - 1000


class Unreachable(Exception):
    pass


class Model(object):
    """Independent simulation."""
    def __init__(self, descr):
        self.d = descr          # list of dicts or None for Plain
        self.log = []

    def reset(self):
        self.cnt = [0] * len(self.d)
        self.tcnt = [0] * len(self.d)

    def index(self, t, cur):
        if isinstance(t, str):
            for i, d in enumerate(self.d):
                if d and d['id'] == t:
                    return i
            raise Unreachable(t)
        return cur + t

    def run(self, x, msg, i, stop=None, method=None):
        """msg: dict that is carried on"""
        n = len(self.d)
        while i != stop:
            d = self.d[i]
            t = 1
            if d is None:
                self.log.append(('execute', 'plain', x.copy()))
                x = x + 1000
            else:
                if method == 'inverse':
                    self.log.append(('inverse', d['id'], x.copy()))
                    x = (x - 1) / d['mul']
                    t = -1
                else:
                    self.log.append(('execute', d['id'], x.copy()))
                    k = self.cnt[i]
                    self.cnt[i] += 1
                    x = x * d['mul'] + 1 + msg.get('add', 0)
                    msg = dict(msg)
                    msg['n_' + str(d['id'])] = 1
                    msg['path'] = [d['id']]
                    if k < len(d['script']) and d['script'][k] is not None:
                        t = d['script'][k]
            if t == 'exit':
                return x, msg, 'exit'
            j = self.index(t, i)
            if j == n or j == -1:
                if stop is not None:
                    raise Unreachable(j)
                return x, msg, None
            if not 0 <= j < n:
                raise Unreachable(t)
            i = j
        return x, msg, True


def gen_descr(rng, n, trainable=False, wild=0.1):
    ids = ['r%d' % i for i in range(n)]
    out = []
    for i in range(n):
        if rng.rand() < 0.15:
            out.append(None)
            continue
        script = []
        for _ in range(rng.randint(0, 3)):
            k = rng.rand()
            if k < 0.3:
                script.append(None)
            elif k < 0.55:
                script.append(ids[rng.randint(n)])
            elif k < 0.6:
                script.append('exit')
            elif k < 1 - wild:
                j = int(rng.randint(-1, n + 1))
                script.append(j - i)
            else:
                script.append(['nowhere', n + 3, -n - 2][rng.randint(3)])
        out.append(dict(id=ids[i], mul=float(rng.choice([1, 2, -1, 3])), script=script, tscript=[], sscript=None))
    return out


def build(descr, log):
    return [Plain(log) if d is None else Router(d['mul'], d['script'], d['tscript'], d['sscript'], log,
                                               node_id=d['id'], input_dim=2, output_dim=2) for d in descr]


def logs_equal(a, b):
    return len(a) == len(b) and all(p[0] == q[0] and p[1] == q[1] and
                                    (p[2] is None) == (q[2] is None) and (p[2] is None or np.allclose(p[2], q[2])) for p, q in zip(a, b))


def short(log):
    return ['%s:%s' % (p[0][:2], p[1]) for p in log][:40]


def merge(msgs):
    out = {}
    for m in msgs:
        for k, v in m.items():
            if isinstance(v, np.ndarray):
                out[k] = v if k not in out else np.concatenate([out[k], v])
            else:
                out[k] = v if k not in out else out[k] + v
    return out


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b)
    return a == b


def samedict(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


@CHECK.scenario(quick=2000, thorough=25000)
def routes(rng, rec):
    n = int(rng.randint(1, 6))
    descr = gen_descr(rng, n)
    log = []
    cls = [BiFlow, ParallelBiFlow][rng.randint(2)]
    flow = cls(build(descr, log))
    model = Model(descr)
    nch = int(rng.randint(1, 4))
    xs = [rng.randn(3, 2) for _ in range(nch)]
    msgs = []
    for i in range(nch):
        m = {}
        if rng.rand() < 0.5:
            m['add'] = 10.0
        if rng.rand() < 0.5:
            m['arr'] = rng.randn(2, 3)
        if rng.rand() < 0.5:
            m['lst'] = [i]
        if rng.rand() < 0.4:
            m['r%d->add' % rng.randint(n)] = 0.0 if False else 20.0
        msgs.append(m)
    inverse = rng.rand() < 0.2 and all(d is not None for d in descr)
    targets = [None] * nch
    if rng.rand() < 0.4:
        targets = [[None, 'r%d' % rng.randint(n), int(rng.randint(n)), 'nowhere'][rng.choice(4, p=[.3, .35, .3, .05])] for _ in range(nch)]
    if inverse:
        msgs = [{'method': 'inverse', 'lst': m.get('lst', [9])} for m in msgs]
        targets = [n - 1] * nch
    keep = [{k: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for k, v in m.items()} for m in msgs]
    where = 'scripts %s, targets %s, inverse %s' % ([d and (d['id'], d['script']) for d in descr], targets, inverse)
    # simulate
    exp_y, exp_m, bad = [], [], None
    for x, m, t in zip(xs, msgs, targets):
        model.reset()
        try:
            i = 0 if not t else n if t == 'exit' else model.index(t, 0)
            m2 = {k: v for k, v in m.items() if '->' not in k}
            special = [k for k in m if '->' in k]
            y, mo, _ = run_special(model, x, m2, m, i, inverse)
            exp_y.append(y)
            exp_m.append(mo)
        except Unreachable as e:
            bad = e
            break
    got = None
    try:
        if nch == 1 and rng.rand() < 0.5:
            got = flow.execute(xs[0], msgs[0], targets[0])
        else:
            got = flow.execute(xs if rng.rand() < 0.5 else (x for x in xs), msgs if rng.rand() < 0.5 else (m for m in msgs), targets)
    except (bimdp.BiFlowException, KeyError) as e:
        err = e
    rec.event('routes_simulated')
    rec.event('hops', len(model.log))
    rec.require(logs_equal(log, model.log), 'wrong-route', lambda: '%s: route %s, expected %s' % (where, short(log), short(model.log)))
    if bad is not None:
        rec.event('unreachable')
        rec.require(got is None, 'unreachable-accepted', where)
    else:
        rec.require(got is not None, 'refused', lambda: '%s: %r' % (where, err))
        y, m = got
        ye = np.concatenate(exp_y)
        rec.require(same(y, ye), 'wrong-output', where)
        me = merge(exp_m)
        rec.require(samedict(m, me), 'wrong-messages', lambda: '%s: %s, expected %s' % (where, m, me))
    for m, k in zip(msgs, keep):
        rec.require(samedict(m, k), 'message-altered', lambda: '%s: %s became %s' % (where, k, m))
    rec.case(cls.__name__, n, where, rng.randint(1 << 30))


def run_special(model, x, plain, full, i, inverse):
    """As Model.run; a node qualified 'add' is used up by its node's first call."""
    left = {k.split('->')[0]: v for k, v in full.items() if '->' in k}
    n = len(model.d)
    msg = dict(plain)
    while True:
        if not 0 <= i < n:
            raise Unreachable(i)
        d = model.d[i]
        t = 1
        if d is None:
            model.log.append(('execute', 'plain', x.copy()))
            x = x + 1000
        elif inverse:
            model.log.append(('inverse', d['id'], x.copy()))
            x = (x - 1) / d['mul']
            t = -1
        else:
            model.log.append(('execute', d['id'], x.copy()))
            k = model.cnt[i]
            model.cnt[i] += 1
            add = left.pop(d['id']) if d['id'] in left else msg.get('add', 0)
            x = x * d['mul'] + 1 + add
            msg['n_' + str(d['id'])] = 1
            msg['path'] = [d['id']]
            if k < len(d['script']) and d['script'][k] is not None:
                t = d['script'][k]
        if t == 'exit':
            break
        j = model.index(t, i)
        if j == n or j == -1:
            break
        i = j
    for k, v in left.items():
        msg[k + '->add'] = v
    return x, msg, None


@CHECK.scenario(quick=800, thorough=8000)
def training_routes(rng, rec):
    """Training data take the scripted route to the node being trained, go on
    from there when the node asks for it, and stop_training may start an
    execution."""
    n = int(rng.randint(1, 5))
    descr = gen_descr(rng, n, wild=0)
    tr = [i for i in range(n) if descr[i] and rng.rand() < 0.6]
    if not tr:
        raise Skip()
    for i in range(n):
        if descr[i]:
            # routes must lead to every later node: only scripts that
            # eventually move on
            descr[i]['script'] = [s for s in descr[i]['script'] if s is None or (isinstance(s, str) and s != 'exit' and int(s[1:]) <= i and descr[int(s[1:])])
                                  or (isinstance(s, int) and i + s >= 0 and s <= 0)]
    for i in tr:
        d = descr[i]
        # an execution started by a node must not run into later untrained nodes
        d['sscript'] = ('' if rng.rand() < 0.5 else 'exit' if i != tr[-1] else
                        ['exit', d['id'], [t for t in range(n) if descr[t]][0] - i or d['id'], 1 if i < n - 1 else 'exit'][rng.randint(4)])
        d['tscript'] = [int(rng.randint(i + 1)) - i for _ in range(rng.randint(0, 3))]
    log = []
    flow = BiFlow(build(descr, log))
    nch = int(rng.randint(1, 4))
    X = [rng.randn(3, 2) for _ in range(nch)]
    where = 'training scripts %s' % [d and (d['id'], d['script'], d['tscript'], d['sscript']) for d in descr]
    # simulation
    m = Model(descr)
    seen = {i: [] for i in tr}
    ok = True
    for i in tr:
        d = descr[i]
        for x in X:
            m.reset()
            pos = 0
            while True:
                x, msg, t = m.run(x, {}, pos, stop=i)
                m.log.append(('train', d['id'], x.copy()))
                k = m.tcnt[i]
                m.tcnt[i] += 1
                if k >= len(d['tscript']):
                    seen[i].append(x.sum())
                    break
                x = x + 0.5
                pos = i + d['tscript'][k]
        m.reset()
        m.log.append(('stop', d['id'], None))
        if d['sscript'] and d['sscript'] != 'exit':
            # counters are as left by the last chunk: the flow resets after each
            y, msg, t = m.run(np.full((2, 2), float(len(seen[i]))), {}, m.index(d['sscript'], i))
    data = [list(X) if i in tr else (None if rng.rand() < 0.5 else list(X)) for i in range(n)]
    if rng.rand() < 0.2 and nch == 1:
        data = X[0]
    flow.train(data)
    rec.event('routes_simulated')
    rec.event('hops', len(m.log))
    rec.require(logs_equal(log, m.log), 'wrong-route', lambda: '%s: route %s, expected %s' % (where, short(log), short(m.log)))
    for i in tr:
        rec.require(np.allclose(flow[i].seen, seen[i]) and not flow[i].is_training(), 'wrong-training', where)
    rec.event('trainings_compared')
    rec.case(n, where, rng.randint(1 << 30))


BIPOOL = [('PCA', {}), ('SFA', {}), ('Whitening', {}), ('SFA2', {}), ('Identity', {}), ('QuadraticExpansion', {}),
          ('NormalizeBi', {})]


def mk(name, bi):
    if bi:
        return getattr(bimdp.nodes, name + 'BiNode')()
    return getattr(mn, name + 'Node')()


def close(a, b):
    if a.shape != b.shape:
        return False
    s = np.sign((a * b).sum(0))
    return C.maxdiff(a * np.where(s == 0, 1, s), b) <= 1e-6 * C.scale(b)


@CHECK.scenario(quick=500, thorough=4000)
def plain_equivalence(rng, rec):
    """Without messages a bi-flow is an ordinary flow, with any scheduler."""
    n = int(rng.randint(1, 4))
    names = ['PCA' if i == 0 and rng.rand() < 0.7 else ['SFA', 'Identity', 'Cutoff', 'Whitening'][rng.randint(3 + (i == 0))] for i in range(n)]
    bis = [bool(rng.rand() < 0.7) and nm != 'Cutoff' for nm in names]

    def nodes(allow_bi=True):
        out = []
        for nm, b in zip(names, bis):
            if nm == 'Cutoff':
                out.append(mn.CutoffNode(-1e3, 1e3))
            else:
                out.append(mk(nm, b and allow_bi))
        return out
    X = [C.smooth_mix(rng, 60, 4) for _ in range(rng.randint(1, 4))]
    probe = C.smooth_mix(rng, 9, 4)
    ref = mdp.Flow(nodes(False))
    data = X[0] if len(X) == 1 and rng.rand() < 0.5 else [None if not m.is_trainable() and rng.rand() < 0.5 else list(X) for m in ref]
    ref.train(data)
    yr = ref.execute(probe)
    kind = rng.randint(5)
    nd = nodes()
    where = 'nodes %s (bi %s), %d chunks, kind %d' % (names, bis, len(X), kind)
    if kind == 4:
        # nested in a flow node
        k = int(rng.randint(n + 1))
        if k > 0:
            inner = BiFlowNode(BiFlow(nd[:k]))
            flow = BiFlow([inner] + nd[k:])
            d = data if isinstance(data, np.ndarray) else [list(X)] + data[k:]
            flow.train(d)
        else:
            flow = BiFlow(nd)
            flow.train(data)
    elif kind == 0:
        flow = BiFlow(nd)
        flow.train(data)
    else:
        flow = ParallelBiFlow(nd)
        sch = [None, mdp.parallel.Scheduler(), mdp.parallel.ThreadScheduler(n_threads=2)][kind - 1]
        try:
            flow.train(data, scheduler=sch)
            rec.event('parallel_trainings')
            if sch is not None:
                parts = np.array_split(probe, 3)
                y, m = flow.execute(parts, scheduler=sch)
                rec.require(close(y, yr) and m == {}, 'parallel-execution', where)
        finally:
            if sch is not None:
                sch.shutdown()
    rec.event('trainings_compared')
    rec.require(not any(m.is_training() for m in flow), 'still-training', where)
    y, m = flow.execute(probe)
    rec.require(m == {}, 'wrong-messages', '%s: %s' % (where, m))
    rec.require(close(y, yr), 'differs-from-flow', '%s: %g' % (where, C.maxdiff(y, yr)))
    y2, m2 = flow.execute([p for p in np.array_split(probe, 3)])
    rec.require(np.allclose(y2, y), 'differs-from-flow', where + ' chunked')
    # inversion: by the flow method and by message
    if 'Cutoff' not in names:
        xi = flow.inverse(y)
        xr = ref.inverse(yr)
        rec.require(close(xi, xr) or np.allclose(xi, xr), 'inverse-differs', where)
    if all(bis) and kind != 4:
        a, b = flow.execute(y, {'method': 'inverse'}, n - 1)
        rec.require(np.allclose(a, xi), 'inverse-differs', where + ' by message')
        rec.event('routes_simulated')
    rec.case(where, rng.randint(1 << 30))


@CHECK.scenario(quick=300, thorough=3000)
def message_training(rng, rec):
    """Supervised nodes get their labels by message in every phase; parallel
    training gives the serial result; user messages are not touched."""
    X, L = [], []
    for _ in range(rng.randint(1, 4)):
        x = np.vstack([rng.randn(8, 3) * 0.3 + m for m in ((0, 0, 0), (3, 1, 0), (0, 3, 2))])
        l = np.repeat([0, 1, 2], 8)
        p = rng.permutation(24)
        X.append(x[p])
        L.append(l[p])
    ids = rng.rand() < 0.7
    key = 'fda->labels' if ids and rng.rand() < 0.7 else 'labels'

    def nodes():
        return [bimdp.nodes.PCABiNode(), bimdp.nodes.FDABiNode(node_id='fda' if ids else None, output_dim=2),
                bimdp.nodes.IdentityBiNode()][:int(2 + extra)]
    extra = rng.rand() < 0.5
    ref = [mn.PCANode(), mn.FDANode(output_dim=2)]
    for x in X:
        ref[0].train(x)
    ref[0].stop_training()
    for _ in range(2):
        for x, l in zip(X, L):
            ref[1].train(ref[0].execute(x), l)
        ref[1].stop_training()
    msgs = [{key: l, 'note': 'n'} for l in L]
    keep = [{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in m.items()} for m in msgs]
    kind = int(rng.randint(4))
    flow = BiFlow(nodes()) if kind == 0 else ParallelBiFlow(nodes())
    sch = [None, None, mdp.parallel.Scheduler(), mdp.parallel.ThreadScheduler(n_threads=2)][kind]
    where = 'labels as %r, kind %d, %d chunks' % (key, kind, len(X))
    kw = {} if sch is None else dict(scheduler=sch)
    try:
        flow.train([list(X)] * len(flow), [None, msgs] + [None] * (len(flow) - 2), **kw)
    finally:
        if sch is not None:
            sch.shutdown()
    rec.event('trainings_compared')
    y, m = flow.execute(X[0])
    yr = ref[1].execute(ref[0].execute(X[0]))
    rec.require(close(y, yr), 'differs-from-flow', '%s: %g' % (where, C.maxdiff(y, yr)))
    for a, b in zip(msgs, keep):
        rec.require(samedict(a, b), 'message-altered', lambda: '%s: %s became %s' % (where, list(b), list(a)))
    rec.case(where, extra, rng.randint(1 << 30))


class Src(BiNode):
    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x, drop=False, k=0):
        out = {'count': 1, 'names': ['q'], 'a': np.arange(3.)[:, None] + k, 's': 'x'}
        return (None if drop else x + k), out


@CHECK.scenario(quick=400, thorough=4000)
def merging(rng, rec):
    """Results of several chunks: arrays concatenated in order, everything
    else added; mixed data and no-data results are refused; same in parallel."""
    n = int(rng.randint(1, 6))
    X = [rng.randn(2, 2) for _ in range(n)]
    mode = rng.randint(3)
    drops = [True] * n if mode == 0 else [False] * n if mode == 1 else [bool(rng.randint(2)) for _ in range(n)]
    msgs = [{'drop': d, 'k': 10.0 * i, 'mine': [i]} for i, d in enumerate(drops)]
    par = rng.randint(4)
    flow = ParallelBiFlow([Src(node_id='s')]) if par else BiFlow([Src(node_id='s')])
    sch = [None, None, mdp.parallel.Scheduler(), mdp.parallel.ThreadScheduler(n_threads=2)][par]
    where = '%d chunks, drop %s, scheduler %s' % (n, drops, type(sch).__name__)
    kw = {} if sch is None else dict(scheduler=sch)
    try:
        y, m = flow.execute(X, msgs, **kw)
        ok = True
    except bimdp.BiFlowException:
        ok = False
    finally:
        if sch is not None:
            sch.shutdown()
    rec.event('routes_simulated')
    if len(set(drops)) > 1:
        rec.require(not ok, 'mixed-accepted', where)
        rec.event('unreachable')
    else:
        rec.require(ok, 'refused', where)
        if drops[0]:
            rec.require(y is None, 'wrong-output', '%s: %r' % (where, y))
        else:
            rec.require(same(y, np.concatenate([x + 10.0 * i for i, x in enumerate(X)])), 'wrong-output', where)
        e = dict(count=n, names=['q'] * n, a=np.concatenate([np.arange(3.)[:, None] + 10. * i for i in range(n)]), s='x' * n,
                 drop=sum(drops) if n > 1 else drops[0], k=sum(10. * i for i in range(n)), mine=list(range(n)))
        rec.require(samedict(m, e), 'wrong-messages', lambda: '%s: %s' % (where, m))
    rec.require(all(q['mine'] == [i] for i, q in enumerate(msgs)), 'message-altered', where)
    rec.case(n, drops, par, rng.randint(1 << 30))


class ById(BiNode):
    def __init__(self, script=(), log=None, **k):
        self.script, self.log, self.i = list(script), log, 0
        super(ById, self).__init__(input_dim=2, output_dim=2, **k)

    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x):
        self.log.append(self.node_id)
        t = self.script[self.i] if self.i < len(self.script) else None
        self.i += 1
        y = x + 1
        return y if t is None else (y, None, t)

    def _bi_reset(self):
        self.i = 0


@CHECK.scenario(quick=600, thorough=6000)
def nesting(rng, rec):
    """Grouping nodes into (nested) flow nodes does not change routes by id."""
    n = int(rng.randint(2, 7))
    ids = ['q%d' % i for i in range(n)]
    scripts = [[[None, ids[rng.randint(n)], 'exit' if rng.rand() < 0.2 else None][rng.randint(3)] for _ in range(rng.randint(0, 3))]
               for _ in range(n)]
    # simulate
    cnt, log, i = [0] * n, [], 0
    while 0 <= i < n:
        log.append(ids[i])
        k = cnt[i]
        cnt[i] += 1
        t = scripts[i][k] if k < len(scripts[i]) else None
        if t == 'exit':
            break
        i = i + 1 if t is None else ids.index(t)

    def group(nodes, depth):
        out = []
        while nodes:
            k = int(rng.randint(1, len(nodes) + 1))
            part, nodes = nodes[:k], nodes[k:]
            if depth > 0 and rng.rand() < 0.7:
                out.append(BiFlowNode(BiFlow(group(part, depth - 1))))
            else:
                out.extend(part)
        return out
    got = []
    flow = BiFlow(group([ById(s, got, node_id=i) for s, i in zip(scripts, ids)], int(rng.randint(0, 3))))
    x = rng.randn(2, 2)
    for rep in range(2):
        del got[:]
        y, m = flow.execute(x)
        where = 'scripts %s in %s' % (scripts, flow)
        rec.require(got == log, 'wrong-route', '%s: route %s, expected %s' % (where, got, log))
        rec.require(np.allclose(y, x + len(log)), 'wrong-output', where)
    rec.event('routes_simulated')
    rec.event('hops', len(log))
    # access by id
    for i in ids:
        rec.require(i in flow and flow[i].node_id == i, 'lookup', where)
    rec.require('nosuch' not in flow, 'lookup', where)
    rec.case(n, str(scripts), rng.randint(1 << 30))


# ------------------------------------------------------- training, any result
LOGS = {}


def give(out, y, c):
    """Result of a scripted outcome (form, target)."""
    form, t = out
    m = {'c': c + 1} if 'm' in form else {} if 'e' in form else None
    if t is not None:
        return y, m, t
    if 'x' in form and m is None:
        return y
    return y, ({} if m is None else m)


class TNode(BiNode):
    """Logs every call with data and counter; all outcomes are scripted, the training ones for each phase."""
    def __init__(self, token, script, phases, mul, stop_result=None, **kw):
        self.token, self.script, self.phases, self.mul = token, script, phases, mul
        self.k = self.tk = 0
        self.total = 0.
        super(TNode, self).__init__(input_dim=2, output_dim=2, stop_result=stop_result, **kw)

    def is_trainable(self):
        return len(self.phases) > 0

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * len(self.phases)

    def _note(self, what, x, c):
        LOGS[self.token].append((what, self.node_id, None if x is None else x.copy(), c))

    def _execute(self, x, c=0):
        self._note('execute', x, c)
        out = self.script[self.k] if self.k < len(self.script) else ('x', None)
        self.k += 1
        return give(out, x * self.mul + c, c)

    def _train(self, x, c=0):
        p = self.get_current_train_phase()
        self._note('train%d' % p, x, c)
        outs = self.phases[p]['train']
        out = outs[self.tk] if self.tk < len(outs) else None
        self.tk += 1
        self.total += x.sum() * (p + 1) + c
        return None if out is None else give(out, x + 0.5, c)

    def _stop_training(self, c=0):
        p = self.get_current_train_phase()
        self._note('stop%d' % p, None, c)
        out = self.phases[p]['stop']
        return None if out is None else give(out, np.full((2, 2), self.total), c)

    def _bi_reset(self):
        self.k = self.tk = 0


class Sim(object):
    """Independent simulation of the training of a flat sequence of TNode descriptions."""
    def __init__(self, d, top):
        self.d, self.top, self.log = d, top, []
        self.done = [0] * len(d)
        self.total = [0.] * len(d)

    def reset(self):
        self.k = [0] * len(self.d)
        self.tk = [0] * len(self.d)

    def arg(self, i, msg):
        key = self.d[i]['id'] + '->c'
        c = msg.get('c', 0)
        if key in msg:
            msg = dict(msg)
            c = msg.pop(key)
        return c, msg

    def after(self, out, msg, c, i):
        """message and next position (or 'exit')"""
        if 'm' in out[0]:
            msg = dict(msg, c=c + 1)
        t = out[1]
        if t is None:
            return msg, i + 1
        if t == 'exit':
            return msg, 'exit'
        ids = [d['id'] for d in self.d]
        if t not in ids:
            raise Unreachable(t)
        return msg, ids.index(t)

    def finished(self, i):
        return self.done[i] >= len(self.d[i]['phases'])

    def walk(self, x, msg, i, goal, group=None):
        hops = 0
        while i != goal:
            if i == 'exit' or not 0 <= i < len(self.d):
                return x, msg, i
            if not self.finished(i) or not all(self.finished(j) or self.top[j] == group
                                               for j in range(len(self.d)) if self.top[j] == self.top[i]):
                raise Skip('an untrained node would be executed')
            c, msg = self.arg(i, msg)
            self.log.append(('execute', self.d[i]['id'], x.copy(), c))
            out = self.d[i]['script'][self.k[i]] if self.k[i] < len(self.d[i]['script']) else ('x', None)
            self.k[i] += 1
            x = x * self.d[i]['mul'] + c
            msg, i = self.after(out, msg, c, i)
            hops += 1
            if hops > 60:
                raise Skip('endless')
        return x, msg, i

    def train(self, i, data, msgs, stop_msg):
        d = self.d[i]
        for p, ph in enumerate(d['phases']):
            for x, msg in zip(data, msgs):
                self.reset()
                msg = dict(msg or {})
                pos = 0
                while True:
                    x, msg, pos = self.walk(x, msg, pos, i, self.top[i])
                    if pos != i:
                        raise Unreachable(pos)
                    c, msg = self.arg(i, msg)
                    self.log.append(('train%d' % p, d['id'], x.copy(), c))
                    out = ph['train'][self.tk[i]] if self.tk[i] < len(ph['train']) else None
                    self.tk[i] += 1
                    self.total[i] += x.sum() * (p + 1) + c
                    if out is None:
                        break
                    x = x + 0.5
                    msg, pos = self.after(out, msg, c, i)
                    if pos == i + 1 and pos == len(self.d):
                        raise Unreachable(pos)
            self.reset()
            msg = dict(stop_msg or {})
            c, msg = self.arg(i, msg)
            self.log.append(('stop%d' % p, d['id'], None, c))
            self.done[i] += 1
            out = ph['stop']
            if out is not None:
                msg, pos = self.after(out, msg, c, i)
                self.walk(np.full((2, 2), self.total[i]), msg, pos, None)


def gen_training(rng, n):
    ids = ['t%d' % i for i in range(n)]

    def out(i, back, far=0.03):
        form = ['x', 'xm', 'xe'][rng.choice(3, p=[.45, .4, .15])]
        u = rng.rand()
        if u < far:
            t = ['nowhere', 'exit'][rng.randint(2)]
        elif u < back:
            t = ids[rng.randint(i + 1)]
        else:
            t = None
        return form, t
    d = []
    for i in range(n):
        phases = []
        for p in range(rng.choice(4, p=[.35, .35, .2, .1])):
            tr = [(out(i, 1.0)) for _ in range(rng.choice(4, p=[.45, .3, .15, .1]))]
            stop = None if rng.rand() < 0.5 else (['x', 'xm', 'xe'][rng.randint(3)], ['exit', None, ids[rng.randint(i + 1)], 'nowhere'][rng.choice(4, p=[.4, .25, .32, .03])])
            phases.append(dict(train=tr, stop=stop))
        d.append(dict(id=ids[i], mul=float(rng.choice([1, 2, -1])), script=[out(i, 0.45) for _ in range(rng.randint(0, 3))], phases=phases))
    return d


@CHECK.scenario(quick=900, thorough=9000)
def training_results(rng, rec):
    """Nodes may answer train and stop_training with data, messages and targets, in any phase, nested or not,
    serial or parallel."""
    n = int(rng.randint(1, 6))
    d = gen_training(rng, n)
    if not any(x['phases'] for x in d):
        raise Skip()
    # grouping: list of (start, stop) or single
    token = rng.randint(1 << 60)
    LOGS.clear()
    LOGS[token] = []

    def tn(x):
        return TNode(token, x['script'], x['phases'], x['mul'], node_id=x['id'])
    nested = rng.rand() < 0.6
    top, items, i = [0] * n, [], 0
    while i < n:
        k = int(rng.randint(1, n - i + 1)) if nested and rng.rand() < 0.7 else 1
        part = list(range(i, i + k))
        for j in part:
            top[j] = len(items)
        nodes = [tn(d[j]) for j in part]
        if nested and (k > 1 or rng.rand() < 0.3):
            if k > 2 and rng.rand() < 0.5:
                h = int(rng.randint(1, k))
                nodes = [BiFlowNode(BiFlow(nodes[:h]))] + nodes[h:]
            items.append(BiFlowNode(BiFlow(nodes)))
        else:
            items.append(nodes[0])
        i += k
    m = len(items)
    kind = rng.choice(3, p=[.6, .15, .25])
    flow = (BiFlow if kind == 0 else ParallelBiFlow)(items)
    nch = int(rng.randint(1, 4))
    data, msgs, stops = [], [], []
    for g in range(m):
        mem = [j for j in range(n) if top[j] == g]
        trainable = [j for j in mem if d[j]['phases']]
        if not trainable:
            data.append(None)
            msgs.append(None)
            stops.append(None)
            continue
        data.append([rng.randn(2, 2) for _ in range(nch)])
        u = rng.rand()
        if u < 0.4:
            msgs.append(None)
        else:
            # a value for everybody, a value for one node that is certainly visited before the end
            ms = []
            for _ in range(nch):
                q = {}
                if rng.rand() < 0.6:
                    q['c'] = int(rng.randint(1, 5))
                if rng.rand() < 0.6:
                    q['t%d->c' % rng.randint(n)] = int(rng.randint(10, 50))
                ms.append(q)
            msgs.append(ms)
        j = trainable[0]
        if len(trainable) == 1 and rng.rand() < 0.4:
            stops.append({d[j]['id'] + '->c': int(rng.randint(100, 200))})
        else:
            stops.append(None)
    where = 'flow %s (%s) of %s, messages %s, stop messages %s' % (
        top, type(flow).__name__, [(x['id'], x['script'], x['phases']) for x in d], msgs, stops)
    sim = Sim(d, top)
    bad = None
    try:
        for i in range(n):
            if d[i]['phases']:
                sim.train(i, data[top[i]], msgs[top[i]] or [None] * nch, stops[top[i]])
    except Unreachable as e:
        bad = e
    if bad is not None and kind == 2:
        raise Skip('what a scheduler does with data that miss the trained node is not documented')
    keepm = [None if q is None else [dict(z) for z in q] for q in msgs]
    keeps = [None if q is None else dict(q) for q in stops]
    args = [data]
    if any(q is not None for q in msgs) or any(q is not None for q in stops):
        args.append(msgs if any(q is not None for q in msgs) else None)
        if any(q is not None for q in stops):
            args.append(stops)
    err = None
    try:
        if kind == 2:
            with mdp.parallel.Scheduler() as s:
                flow.train(*args, scheduler=s)
        else:
            flow.train(*args)
    except (bimdp.BiFlowException, mdp.FlowException, mdp.parallel.TaskFailedException if hasattr(mdp.parallel, 'TaskFailedException') else bimdp.BiFlowException) as e:
        err = e
    log = LOGS[token]
    rec.event('routes_simulated')
    rec.event('hops', len(sim.log))

    def eq(a, b):
        return len(a) == len(b) and all(p[:2] == q[:2] and p[3] == q[3] and (p[2] is None) == (q[2] is None)
                                        and (p[2] is None or np.allclose(p[2], q[2])) for p, q in zip(a, b))

    def sh(l):
        k = next((i for i in range(len(l)) if not (eq(log[i:i + 1], sim.log[i:i + 1]))), len(l))
        return ['from %d' % k] + ['%s:%s(%s)' % (p[0], p[1], p[3]) for p in l][max(0, k - 6):k + 12]
    rec.require(eq(log, sim.log), 'training-route', lambda: '%s: calls %s, expected %s (error %r)' % (where, sh(log), sh(sim.log), err))
    rec.require((err is None) == (bad is None), 'training-error', lambda: '%s: error %r, expected %r' % (where, err, bad))
    rec.require(msgs == keepm and stops == keeps, 'message-altered', where)
    if bad is not None:
        rec.event('unreachable')
    else:
        for x, t in zip(d, sim.total):
            node = flow[x['id']]
            rec.require(np.allclose(node.total, t) and not node.is_training(), 'training-state', where)
        rec.event('trainings_compared')
        del log[:]
        del sim.log[:]
        sim.reset()
        x = rng.randn(2, 2)
        try:
            y, mo, _ = sim.walk(x, {'c': 1}, 0, None)
        except (Unreachable, Skip):
            y = None
        if y is not None:
            gy, gm = flow.execute(x, {'c': 1})
            rec.require(eq(log, sim.log) and np.allclose(gy, y) and gm == mo, 'execute-after', where)
    rec.case(n, str(d), str(top), int(kind))


class Odd(BiNode):
    """Behaves like x+1 unless the message asks for something odd."""
    def __init__(self, phases=0, **kw):
        self.phases = phases
        self.temp = 0
        self.seen = []
        super(Odd, self).__init__(input_dim=2, output_dim=2, **kw)

    def is_trainable(self):
        return self.phases > 0

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases

    def _odd(self, odd, y):
        return {'four': (y, {}, 1, 2), 'far': (y, {}, 17), 'back': (y, {}, -17), 'unknown': (y, {}, 'nobody'),
                'drop': (None, {'z': 1}), 'exit': (y, {}, 'exit'), 'late': (y, {}, 'exit')}[odd]

    def _execute(self, x, odd=None, give=None):
        self.temp += 1
        y = None if x is None else x + self.temp
        if give is not None:
            return y, {'given': give}
        return y if odd is None else self._odd(odd, y)

    def _train(self, x, todd=None):
        self.seen.append(x.copy())
        return None if todd is None else self._odd(todd, x)

    def _stop_training(self, sodd=None):
        return None if sodd is None else self._odd(sodd, np.zeros((1, 2)))

    def _bi_reset(self):
        self.temp = 0


@CHECK.scenario(quick=400, thorough=5000)
def misuse(rng, rec):
    """What cannot be done is reported by an error, and the flow works on as before."""
    cls = ParallelBiFlow if rng.rand() < .3 else bimdp.BiCheckpointFlow if rng.rand() < .2 else BiFlow
    n = int(rng.randint(1, 5))
    tr = int(rng.randint(n))
    phases = int(rng.randint(1, 4))
    nodes = [Odd(phases if i == tr else 0, node_id='o%d' % i) for i in range(n)]
    plainlast = rng.rand() < .3
    if plainlast:
        nodes.append(mdp.nodes.IdentityNode(input_dim=2))
    flow = cls(list(nodes))
    total = len(nodes)
    where = '%s of %d nodes, node %d with %d phases' % (cls.__name__, total, tr, phases)
    E = bimdp.BiFlowException

    def refuse(f, exc, what):
        try:
            r = f()
        except exc:
            rec.event('unreachable')
            return
        rec.require(False, 'misuse-accepted', lambda: '%s: %s accepted: %r' % (where, what, r))

    def train(data, msgs=None, stops=None, f=flow):
        if cls is bimdp.BiCheckpointFlow:
            return f.train(data, [None] * len(f), msgs, stops)
        return f.train(data, msgs, stop_messages=stops)

    def at(v, i=tr):
        out = [None] * total
        out[i] = v
        return out
    X = [rng.randn(3, 2) for _ in range(int(rng.randint(1, 4)))]
    # training
    refuse(lambda: train(None), E, 'training without data and messages')
    if cls is not ParallelBiFlow:
        refuse(lambda: train(at([])), E, 'an empty training iterable')
        refuse(lambda: train(at(iter([]))), E, 'an empty training iterator')
    if rng.rand() < .5:
        refuse(lambda: train(at(X), at([{'o%d->todd' % tr: ['four', 'far', 'back', 'unknown'][rng.randint(4)]}] * len(X))), E, 'a bad result of train')
    if tr > 0 and rng.rand() < .5:
        k = int(rng.randint(tr))
        refuse(lambda: train(at(X), at([{'o%d->odd' % k: ['four', 'far', 'back', 'unknown', 'exit'][rng.randint(5)]}] * len(X))), E,
               'a trained node that is not reached')
    rec.require(flow[tr].is_training() and flow[tr].get_current_train_phase() == 0, 'misuse-state', where)
    del flow[tr].seen[:]
    if phases > 1 and rng.rand() < .4:
        refuse(lambda: train(at(iter(X))), E, 'an iterator for several phases')
        rec.require(flow[tr].get_current_train_phase() == 1, 'misuse-state', where)
        rec.require(len(flow[tr].seen) == len(X), 'misuse-state', where)
        left = phases - 1
        done = len(X)
    else:
        left, done = phases, 0
    train(at(X))
    rec.require(not flow[tr].is_training() and len(flow[tr].seen) == done + left * len(X), 'misuse-state', lambda: '%s: trained with %d chunks in %d phases' % (
        where, len(flow[tr].seen), left))
    want = [x + tr for x in X]
    rec.require(all(same(flow[tr].seen[i], want[i % len(X)]) for i in range(len(flow[tr].seen))), 'misuse-state', where + ': training data')
    # execution
    def good():
        y, m = flow.execute(X if rng.rand() < .5 else X[0]) if rng.rand() < .5 else flow(X[0])
        e = X[0] + n
        rec.require(same(y[:3], e) and m == {}, 'misuse-aftermath', lambda: '%s: %r, expected %r' % (where, y[:3], e))
        rec.event('routes_simulated')
    good()
    k = int(rng.randint(n))
    refuse(lambda: flow.execute(None), E, 'neither data nor messages')
    refuse(lambda: flow.execute([]), E, 'empty data')
    good()
    for odd in ('four', 'far', 'back', 'unknown'):
        if rng.rand() < .5:
            refuse(lambda: flow.execute(X[0], {'o%d->odd' % k: odd}), E, 'result %s of node %d' % (odd, k))
            good()
    if len(X) > 1:
        refuse(lambda: flow.execute(X, [{'o%d->give' % (n - 1): 3}] * (len(X) - 1) + [{'o%d->give' % (n - 1): np.ones((2, 2))}]), E, 'messages of different types')
        refuse(lambda: flow.execute(X, [{'o%d->give' % (n - 1): 3}] * (len(X) - 1) + [{'o%d->give' % (n - 1): 'str'}]), E, 'messages that cannot be added')
        good()
        if not plainlast:
            refuse(lambda: flow.execute(X, [{}] * (len(X) - 1) + [{'o%d->odd' % (n - 1): 'drop'}]), E, 'some results without data')
            good()
    t = [total, -1 - int(rng.randint(3)), 'nobody'][rng.randint(3)]
    refuse(lambda: flow.execute(X[0], {'q': 1}, t), E, 'target %r' % t)
    good()
    # access by id
    rec.require(flow['o%d' % k] is flow[k] and ('o%d' % k) in flow and 'nobody' not in flow, 'by-id', where)
    refuse(lambda: flow['nobody'], KeyError, 'unknown id')
    before = list(flow.flow)
    refuse(lambda: flow.__setitem__('o%d' % k, Odd(node_id='x')), E, 'assignment by id')
    refuse(lambda: flow.__delitem__('o%d' % k), E, 'deletion by id')
    rec.require(len(flow) == total and all(a is b for a, b in zip(before, flow.flow)), 'by-id', where)
    refuse(lambda: BiFlowNode(mdp.Flow([mdp.nodes.IdentityNode(input_dim=2)])), bimdp.BiNodeException, 'a flow node of a plain flow')
    # nodes that need more than data
    other = BiFlow([Odd(node_id='a'), mdp.nodes.FDANode()])
    refuse(lambda: other.train([None, X], None), E, 'a plain node that needs labels')
    # messages only
    pos = int(rng.randint(n))
    y, m = flow.execute(None, {'o%d->give' % (n - 1): 'x', 'w': 2}) if not plainlast else (None, {'given': 'x', 'w': 2})
    rec.require(y is None and m == {'given': 'x', 'w': 2}, 'message-only', lambda: '%s: %r' % (where, (y, m)))
    good()
    rec.case(cls.__name__, n, tr, phases, plainlast, pos, rng.randint(1 << 30))


@CHECK.scenario(quick=200, thorough=2000)
def sums(rng, rec):
    """Adding bi-nodes, nodes and flows gives a bi-flow of these parts."""
    def chain():
        k = rng.randint(3)
        ns = [Odd(node_id='o') if rng.rand() < .5 else mdp.nodes.IdentityNode(input_dim=2) for _ in range(int(rng.randint(1, 4)))]
        if k == 0:
            return ns[0], ns[:1]
        return (mdp.Flow if k == 1 else BiFlow)(ns), ns
    first = Odd(node_id='first')
    other, ns = chain()
    f = first + other
    where = 'BiNode + %s of %s' % (type(other).__name__, [type(q).__name__ for q in ns])
    rec.require(isinstance(f, BiFlow) and [type(q) for q in f.flow] == [Odd] + [type(q) for q in ns], 'sum', where)
    if not isinstance(other, mdp.Node):
        rec.require(not any(a is b for a in f.flow for b in [first] + ns), 'sum', where + ': parts are shared with the flow')
    else:
        rec.require(f.flow[0] is first and f.flow[1] is other, 'sum', where)
    x = rng.randn(3, 2)
    y, m = f(x)
    want = x + 1 + sum(isinstance(q, Odd) for q in ns)
    rec.require(same(y, want), 'sum', lambda: '%s: %r, expected %r' % (where, y, want))
    rec.event('routes_simulated')
    rec.require(f['first'].node_id == 'first', 'sum', where)
    for bad in (3, 'x', [first], None):
        try:
            first + bad
            rec.require(False, 'misuse-accepted', 'BiNode + %r' % (bad,))
        except TypeError:
            rec.event('unreachable')
    bad = Odd(node_id='b')
    bad2 = mdp.nodes.IdentityNode(input_dim=3)
    try:
        bad + bad2
        rec.require(False, 'misuse-accepted', 'nodes of different dimensions added')
    except (ValueError, mdp.MDPException):
        rec.event('unreachable')
    rec.case(where, rng.randint(1 << 30))


class Count(BiNode):
    """Adds the number of its executions since the last reset; leaves the flow on demand."""
    def __init__(self, token, phases=0, **kw):
        self.token, self.phases = token, phases
        self.temp = 0
        super(Count, self).__init__(input_dim=2, output_dim=2, **kw)

    def is_trainable(self):
        return self.phases > 0

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases

    def _execute(self, x, leave=None):
        self.temp += 1
        y = x + self.temp
        LOGS[self.token].append(('execute', self.node_id, self.temp))
        return (y, {}, 'exit') if leave == self.node_id else (y, {} if leave is None else {'leave': leave})

    def _train(self, x):
        self.temp += 1
        LOGS[self.token].append(('train', self.node_id, self.temp, x.copy()))

    def _stop_training(self, plan=()):
        p = self.get_current_train_phase()
        if p >= len(plan) or plan[p] is None:
            return None
        start, leave = plan[p]
        return np.zeros((1, 2)), {'leave': leave}, start

    def _bi_reset(self):
        self.temp = 0


@CHECK.scenario(quick=200, thorough=2000)
def resets(rng, rec):
    """Each chunk and each execution meets freshly reset nodes, also after an execution started by stop_training."""
    n = int(rng.randint(2, 6))
    token = rng.randint(1 << 60)
    LOGS.clear()
    LOGS[token] = []
    phases = [0] + [int(rng.choice([0, 0, 1, 2, 3])) for _ in range(n - 1)]
    if not any(phases):
        phases[-1] = 2
    nodes = [Count(token, p, node_id='c%d' % i) for i, p in enumerate(phases)]
    h = int(rng.randint(2, n + 1)) if rng.rand() < .3 else 0
    nested = h and not any(phases[:h])
    items = [BiFlowNode(BiFlow(nodes[:h]))] + nodes[h:] if nested else nodes
    kind = int(rng.randint(3))
    flow = (BiFlow if kind == 0 else ParallelBiFlow if kind == 1 else bimdp.parallel.ParallelCheckpointBiFlow)(items)
    nch = int(rng.randint(1, 4))
    data, stops, plans = [], [], []
    for i, p in enumerate(phases):
        if nested and 0 < i < h:
            continue
        if not p:
            data.append(None)
            stops.append(None)
            continue
        data.append([rng.randn(2, 2) for _ in range(nch)])
        plan = []
        for k in range(p):
            a = int(rng.randint(i))
            b = int(rng.randint(a, i))
            plan.append(None if rng.rand() < .3 else ('c%d' % a, 'c%d' % b))
        stops.append({'c%d->plan' % i: plan})
        plans.append((i, plan))
    par = kind > 0 and rng.rand() < .5
    args = [data]
    kw = dict(stop_messages=stops)
    if kind == 2:
        kw['checkpoints'] = [None] * len(items)
    if par:
        with mdp.parallel.Scheduler() as s:
            flow.train(*args, scheduler=s, **kw)
    else:
        flow.train(*args, **kw)
    log = LOGS[token]
    where = 'phases %s, plans %s, %s%s' % (phases, plans, type(flow).__name__, ', inner flow of %d nodes' % h if nested else '')
    want = []
    for i, p in enumerate(phases):
        for k in range(p):
            d = data[i - (h - 1 if nested and i >= h else 0)]
            for x in d:
                for j in range(i):
                    want.append(('execute', 'c%d' % j, 1))
                want.append(('train', 'c%d' % i, 1, x + i))
            plan = dict(plans)[i][k]
            if plan is not None:
                a, b = int(plan[0][1:]), int(plan[1][1:])
                for j in range(a, b + 1):
                    want.append(('execute', 'c%d' % j, 1))
    ok = len(log) == len(want) and all(u[:3] == v[:3] and (len(u) < 4 or np.allclose(u[3], v[3])) for u, v in zip(log, want))
    rec.require(ok, 'reset', lambda: '%s: calls (with the number of calls since the last reset) %s, expected %s' % (
        where, [u[:3] for u in log], [u[:3] for u in want]))
    rec.event('resets_checked', len(want))
    del log[:]
    x = rng.randn(3, 2)
    for _ in range(2):
        y, _m = flow.execute(x)
        rec.require(np.allclose(y, x + n), 'reset-execution', lambda: '%s: executions add %s instead of %d' % (where, (y - x)[0], n))
    rec.case(n, str(phases), str(plans), kind, nch, bool(par), bool(nested))


@CHECK.scenario(quick=40, thorough=400)
def inner_inverse(rng, rec):
    """The inverse message enters a nested flow at its end, with or without an explicit target, also at any depth."""
    d = int(rng.randint(2, 5))
    x = rng.randn(60, d)
    n = int(rng.randint(2, 6))
    nodes = []
    for i in range(n):
        cls = [bimdp.nodes.PCABiNode, bimdp.nodes.WhiteningBiNode, bimdp.nodes.IdentityBiNode][rng.choice(3, p=[.4, .4, .2])]
        nodes.append(cls(input_dim=d, node_id='i%d' % i))
    shape = []
    while len(nodes) > 1:
        k = int(rng.randint(2, len(nodes) + 1))
        a = int(rng.randint(0, len(nodes) - k + 1))
        nodes[a:a + k] = [BiFlowNode(BiFlow(nodes[a:a + k]))]
        shape.append((a, k))
    node = nodes[0]
    while node.is_training():
        node.train(x)
        node.stop_training()
    y = node.execute(x)
    for msg in ({'method': 'inverse'}, {'method': 'inverse', 'target': -1}, {'method': 'inverse', 'target': None}):
        got = node.execute(y.copy(), dict(msg))
        rec.require(isinstance(got, tuple) and len(got) == 3 and got[2] == -1, 'inner-inverse-target', lambda: '%s %s: result %s' % (shape, msg, type(got)))
        err = np.abs(got[0] - x).max()
        rec.require(err < 1e-7, 'inner-inverse', lambda: 'nested %s, message %s: inverse differs by %g' % (shape, msg, err))
        rec.event('inner_inverses')
    back = node.execute(x)
    rec.require(np.allclose(back, y), 'inner-inverse-state', lambda: 'execution after an inversion differs (%s)' % shape)
    rec.case(n, str(shape), d)
