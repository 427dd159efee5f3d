"""P06 copying, pickling, saving."""
import copy
import os
import pickle
import random
import tempfile
import numpy as np
import mdp
import mdp.nodes as mn
import bimdp
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P06', 'A case duplicates one node / flow / layer at one point of its life-cycle through one form '
              '(copy, deepcopy, pickle protocols 0-5, save to string, save to file) and then drives the '
              'duplicate, the original and a never-duplicated twin through the rest of the life-cycle, with the '
              'original fed other data in isolation cases. Distinct by configuration, stage, form, mode.')
CHECK.expect_events(duplicates=1500, twins_compared=1500)


def seedall(s):
    np.random.seed(s)
    random.seed(s)


def dup(rng, rec, obj):
    forms = ['copy', 'deepcopy'] + ['pickle%d' % p for p in range(0, 6)] + ['save_str', 'save_str0', 'save_file',
                                                                      'save_file2', 'save_file0']
    f = forms[rng.randint(len(forms))]
    rec.event('duplicates')
    if f == 'copy':
        return f, obj.copy()
    if f == 'deepcopy':
        return f, copy.deepcopy(obj)
    if f.startswith('pickle'):
        return f, pickle.loads(pickle.dumps(obj, int(f[6:])))
    if f == 'save_str':
        return f, pickle.loads(obj.save(None))
    if f == 'save_str0':
        return f, pickle.loads(obj.save(None, protocol=0))
    fd, path = tempfile.mkstemp()
    os.close(fd)
    try:
        if f == 'save_file':
            obj.save(path)
        else:
            obj.save(path, protocol=int(f[9:]))
        with open(path, 'rb') as fl:
            return f, pickle.load(fl)
    finally:
        os.remove(path)


def stage_of(node):
    return (node.is_trainable(), node.is_training(), node.get_current_train_phase(), node.get_remaining_train_phase(),
            node.input_dim, node.output_dim, str(node.dtype))


def advance(spec, node, chunks, plan, pos, rec=None):
    """Run ops plan[pos:]; an op is ('train', chunk index) or 'stop'."""
    for op in plan[pos:]:
        if op == 'stop':
            node.stop_training()
        else:
            x, e = chunks[op]
            seedall(1000 + op)
            if e is None:
                node.train(x.copy())
            else:
                node.train(x.copy(), e.copy() if hasattr(e, 'copy') else e)


def result(spec, node, x):
    seedall(77)
    out = [np.asarray(spec.run(node, x))]
    if spec.classifier:
        seedall(78)
        out.append(np.asarray(node.label(x)))
    if node.is_invertible() and spec.inv and spec.out == 'node':
        out.append(node.inverse(out[0]))
    if spec.getters:
        out += [np.asarray(g) for g in spec.getters(node)]
    return out


def same(a, b):
    for u, v in zip(a, b):
        if u.dtype.kind in 'fc':
            if not C.close(u, v, 1e-9 if u.dtype != np.dtype('f') else 1e-4):
                return False
        elif not np.array_equal(u, v):
            return False
    return True


@CHECK.each([(s.name, s) for s in C.SPECS], quick=25, thorough=350)
def stages(rng, rec, spec):
    dt = np.dtype(spec.dtypes[rng.randint(len(spec.dtypes))])
    X = spec.data(rng, dtype=dt)
    E = spec.train_args(rng, X)
    n = len(X)
    cuts = [] if spec.name in ('iGSFA', 'XSFA') else [n // 2]
    chunks = spec.split(X, E, cuts)
    X2 = spec.data(rng, dtype=dt)
    E2 = spec.train_args(rng, X2)
    other = spec.split(X2, E2, cuts)
    seedall(5)
    node, twin = spec.make(), None
    seedall(5)
    twin = spec.make()
    if spec.online:
        plan = list(range(len(chunks))) * 2
    elif spec.trainable:
        probe = spec.make()
        # number of phases (may be fixed by the first data)
        nph = 0
        plan = []
        seedall(6)
        while probe.is_training():
            spec.feed(probe, chunks)
            probe.stop_training()
            nph += 1
            plan += list(range(len(chunks))) + ['stop']
    else:
        plan = []
    pos = rng.randint(len(plan) + 1)
    used = rng.rand() < 0.5
    seedall(6)
    advance(spec, node, chunks, plan[:pos], 0)
    seedall(6)
    advance(spec, twin, chunks, plan[:pos], 0)
    x = spec.xin(rng, 12, dt)
    if used and not node.is_training() or (spec.online and pos):
        if not spec.stateful_exec:
            result(spec, node, x)       # memoized state is duplicated too
    node.user_attribute = {'a': [1, 2]}
    where = '%s at op %d of %s' % (spec.name, pos, plan)
    st = stage_of(node)
    try:
        form, d = dup(rng, rec, node)
    except Exception as e:
        rec.fail('not-copyable%s' % ('-trained' if pos == len(plan) else ''), '%s: %r' % (where, e))
        rec.case(spec.name, 'failed', pos)
        return
    where += ' via ' + form
    rec.require(type(d) is type(node), 'type', where)
    rec.require(stage_of(d) == st == stage_of(node), 'stage', '%s: %s %s %s' % (where, stage_of(d), st, stage_of(node)))
    rec.require(d.user_attribute == {'a': [1, 2]} and d.user_attribute is not node.user_attribute, 'attribute', where)
    mode = ['dup_first', 'orig_first', 'orig_other', 'dup_other', 'corrupt'][rng.randint(5)]
    rest = plan[pos:]

    def finish(nd, ch):
        seedall(9)
        advance(spec, nd, ch, rest, 0)
        return result(spec, nd, x) if (not spec.online or pos or rest) else None

    want = finish(twin, chunks)
    if mode == 'dup_first':
        a = finish(d, chunks)
        b = finish(node, chunks)
    elif mode == 'orig_first':
        b = finish(node, chunks)
        a = finish(d, chunks)
    elif mode == 'orig_other':
        finish(node, other)
        a, b = finish(d, chunks), None
    elif mode == 'dup_other':
        finish(d, other)
        a, b = None, finish(node, chunks)
    else:
        # overwrite every array of the original in place
        for k, v in list(vars(node).items()):
            corrupt(v, 0)
        a, b = finish(d, chunks), None
    rec.event('twins_compared', (a is not None) + (b is not None))
    if want is None:
        raise Skip()
    if a is not None:
        rec.require(same(a, want), 'duplicate-differs', '%s (%s): the duplicate behaves differently' % (where, mode))
    if b is not None:
        rec.require(same(b, want), 'original-affected', '%s (%s): the original behaves differently after being '
                    'duplicated' % (where, mode))
    rec.case(spec.name, str(dt), pos, form, mode)


def corrupt(v, depth):
    if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.flags.writeable:
        v[...] = -3.
    elif isinstance(v, np.ndarray) and v.dtype.kind == 'i' and v.flags.writeable:
        v[...] = 0
    elif isinstance(v, list) and depth < 3:
        for w in v:
            corrupt(w, depth + 1)
        if v and not isinstance(v[0], mdp.Node):
            del v[:]
    elif isinstance(v, dict) and depth < 3:
        for w in list(v.values()):
            corrupt(w, depth + 1)
    elif isinstance(v, (mdp.Node, mdp.utils.CovarianceMatrix, mdp.utils.DelayCovarianceMatrix)) and depth < 3:
        for w in list(vars(v).values()):
            corrupt(w, depth + 1)


def rand_flow(rng, cls):
    pool = ['PCA', 'SFA', 'Quadratic', 'Normalize', 'Cutoff', 'UserTwoPhase', 'Histogram', 'CuBICA', 'TimeDelay']
    nodes = [C.BY_NAME[pool[rng.randint(len(pool))]].make() for _ in range(rng.randint(1, 4))]
    if sum(isinstance(n, mn.QuadraticExpansionNode) for n in nodes) > 1 or \
            sum(isinstance(n, mn.TimeDelayNode) for n in nodes) > 1:
        raise Skip()
    return cls(nodes)


@CHECK.scenario(quick=250, thorough=3000)
def flows(rng, rec):
    cls = [mdp.Flow, mdp.CheckpointFlow, bimdp.BiFlow][rng.randint(3)]
    seed = rng.randint(1 << 30)
    f = rand_flow(np.random.RandomState(seed), cls)
    t = rand_flow(np.random.RandomState(seed), cls)
    X = C.smooth_mix(rng, 200, 3)
    x = C.smooth_mix(rng, 20, 3)
    names = [type(n).__name__ for n in f]
    trained = rng.rand() < 0.5
    args = (None,) if cls is mdp.CheckpointFlow else ()

    def train(fl, data):
        if cls is mdp.CheckpointFlow:
            fl.train(data, [None] * len(fl))
        else:
            fl.train(data)

    def finish(fl, data=X):
        if any(n.is_training() for n in fl):
            train(fl, data)
        y = fl.execute(x)
        y = y[0] if isinstance(y, tuple) else y
        return y
    if trained:
        finish(f)
        finish(t)
    elif rng.rand() < 0.5:
        # first nodes trained by hand
        k = rng.randint(len(f) + 1)
        for fl in (f, t):
            z = X
            for n in fl.flow[:k]:
                while n.is_training():
                    n.train(z)
                    n.stop_training()
                z = n.execute(z)
    form, d = dup(rng, rec, f)
    where = '%s(%s) via %s' % (cls.__name__, names, form)
    rec.require(type(d) is type(f) and [type(n).__name__ for n in d] == names, 'type', where)
    rec.require(all(a is not b for a, b in zip(d.flow, f.flow)), 'shared-node', where)
    for g in (f, d):
        rec.require(type(g.flow) is list, 'container', '%s: node container is a %s' % (where, type(g.flow)))
    want = finish(t)
    mode = rng.randint(4)
    if mode == 0:
        a, b = finish(d), finish(f)
    elif mode == 1:
        finish(f, C.smooth_mix(rng, 200, 3))
        a, b = finish(d), None
    elif mode == 2:
        finish(d, C.smooth_mix(rng, 200, 3))
        a, b = None, finish(f)
    else:
        # container edits stay local
        d.append(mn.IdentityNode())
        rec.require(len(f) == len(names), 'container', where)
        del d[-1]
        del f[:-1]
        rec.require(len(d) == len(names), 'container', where)
        a, b = finish(d), None
    rec.event('twins_compared', (a is not None) + (b is not None))
    for y, k in ((a, 'duplicate-differs'), (b, 'original-affected')):
        if y is not None:
            rec.require(C.close(y, want, 1e-8, False) or C.scale(want) > 1e6, k, '%s mode %d' % (where, mode))
    rec.case(cls.__name__, names, form, mode, trained, seed)


def nested(rng):
    k = rng.randint(5)
    h = mdp.hinet
    if k == 0:
        return h.FlowNode(mdp.Flow([mn.PCANode(output_dim=3), mn.SFANode(include_last_sample=False)])), 4
    if k == 1:
        return h.Layer([h.FlowNode(mdp.Flow([mn.PCANode(input_dim=2, output_dim=2), mn.WhiteningNode()])),
                        mn.SFANode(input_dim=2)]), 4
    if k == 2:
        return h.CloneLayer(h.FlowNode(mdp.Flow([mn.PCANode(input_dim=2, output_dim=2),
                                                 mn.QuadraticExpansionNode(), mn.PCANode(output_dim=2)])), 2), 4
    if k == 3:
        return h.SameInputLayer([mn.PCANode(input_dim=4, output_dim=2), C.TwoPhase(input_dim=4)]), 4
    return h.FlowNode(mdp.Flow([h.Switchboard(4, [1, 0, 3, 2]), h.Layer([mn.PCANode(input_dim=2), C.TwoPhase(input_dim=2)]),
                                h.FlowNode(mdp.Flow([mn.PCANode(), mn.IdentityNode()]))])), 4


@CHECK.scenario(quick=250, thorough=3000)
def networks(rng, rec):
    """Nested networks duplicated at any phase; the original's inner structure stays intact."""
    seed = rng.randint(1 << 30)
    a, dim = nested(np.random.RandomState(seed))
    t, _ = nested(np.random.RandomState(seed))
    X, X2 = C.smooth_mix(rng, 150, dim), C.smooth_mix(rng, 150, dim)
    x = C.smooth_mix(rng, 10, dim)
    k = rng.randint(7)

    def step(node, data, m):
        for _ in range(m):
            if not node.is_training():
                return
            node.train(data)
            node.stop_training()
    step(a, X, k)
    step(t, X, k)
    half = a.is_training() and rng.rand() < 0.5
    if half:
        a.train(X)
        t.train(X)
    form, d = dup(rng, rec, a)
    where = 'network %d, %d phases closed%s, via %s' % (seed, k, ', one open' if half else '', form)
    rec.require(stage_of(d) == stage_of(a) == stage_of(t), 'stage', '%s %s %s' % (where, stage_of(d), stage_of(a)))
    if isinstance(a, mdp.hinet.FlowNode):
        for nd in (a, d):
            rec.require(type(nd.flow.flow) is list, 'container',
                        '%s: node container of the internal flow is a %s' % (where, type(nd.flow.flow).__name__))
            rec.require(isinstance(nd.flow + mdp.Flow([mn.IdentityNode()]), mdp.Flow), 'container', where)
    mode = rng.randint(3)

    def fin(nd, data):
        if half and nd.is_training():
            nd.stop_training()
        step(nd, data, 10)
        return nd.execute(x)
    want = fin(t, X)
    if mode == 0:
        u, v = fin(d, X), fin(a, X)
    elif mode == 1:
        fin(a, X2)
        u, v = fin(d, X), None
    else:
        fin(d, X2)
        u, v = None, fin(a, X)
    rec.event('twins_compared', 2 - (u is None) - (v is None))
    rec.require(u is None or C.close(u, want, 1e-8), 'duplicate-differs', where)
    rec.require(v is None or C.close(v, want, 1e-8), 'original-affected', where)
    rec.case(seed, k, half, form, mode)


@CHECK.scenario(quick=60, thorough=600)
def failing_copy(rng, rec):
    """A copy that fails half-way leaves the original as it was."""
    class NoCopy(mdp.nodes.IdentityNode):
        def __deepcopy__(self, memo):
            raise RuntimeError('cannot be copied')

    class Attr(object):
        def __deepcopy__(self, memo):
            raise RuntimeError('cannot be copied')
    kind = rng.randint(3)
    X = C.smooth_mix(rng, 100, 3)
    if kind == 0:
        fn = mdp.hinet.FlowNode(mdp.Flow([mn.PCANode(), NoCopy()]))
    elif kind == 1:
        fn = mdp.hinet.FlowNode(mdp.Flow([mn.PCANode(), mn.IdentityNode()]))
        fn.attr = Attr()
    else:
        fn = mdp.hinet.Layer([mdp.hinet.FlowNode(mdp.Flow([mn.PCANode(input_dim=2), mn.IdentityNode()])), NoCopy(input_dim=1)])
    fn.train(X)
    fn.stop_training()
    y = fn.execute(X)
    try:
        fn.copy()
        rec.event('copied')
    except RuntimeError:
        rec.event('failed_copies')
    rec.event('duplicates')
    try:
        y2 = fn.execute(X)
    except Exception as e:
        rec.fail('original-affected', 'kind %d: unusable after a failed copy: %r' % (kind, e))
        y2 = y
    rec.require(np.array_equal(y, y2), 'original-affected', 'kind %d' % kind)
    rec.case(kind, rng.randint(1 << 30))


@CHECK.scenario(quick=80, thorough=800)
def online_flows(rng, rec):
    seed = rng.randint(1 << 30)

    def make():
        r = np.random.RandomState(3)
        return mdp.OnlineFlow([mn.OnlineCenteringNode(numx_rng=np.random.RandomState(1)),
                               mn.CCIPCANode(output_dim=2, numx_rng=np.random.RandomState(2)),
                               mn.OnlineTimeDiffNode(numx_rng=np.random.RandomState(4))])
    f, t = make(), make()
    X = C.smooth_mix(rng, 90, 3)
    X2 = C.smooth_mix(rng, 90, 3)
    k = rng.randint(1, 60)
    f.train(X[:k])
    t.train(X[:k])
    form, d = dup(rng, rec, f)
    t.train(X[k:])
    if rng.rand() < 0.5:
        f.train(X2)
        d.train(X[k:])
        got = d
    else:
        d.train(X2)
        f.train(X[k:])
        got = f
    rec.event('twins_compared')
    rec.require(C.close(got.execute(X[-1:]), t.execute(X[-1:]), 1e-9), 'duplicate-differs' if got is d else 'original-affected',
                'OnlineFlow via %s' % form)
    rec.case(form, k, seed)


class Log(object):
    """Mutable user data that knows a node of its flow."""

    def __init__(self, node):
        self.lines = []
        self.node = node


@CHECK.scenario(quick=120, thorough=1500)
def structure(rng, rec):
    """The duplicate has the same sharing inside as the original, and shares
    nothing mutable with it: attributes of the flow, nodes that occur twice,
    attributes that point to nodes, clones."""
    h = mdp.hinet
    X = C.smooth_mix(rng, 120, 4)
    x = C.smooth_mix(rng, 10, 4)
    kind = rng.randint(6)
    shared = [mn.IdentityNode(), mn.CutoffNode(-1, 1)][rng.randint(2)]
    cls = [mdp.Flow, mdp.CheckpointFlow, bimdp.BiFlow, mdp.parallel.ParallelFlow, mdp.OnlineFlow][rng.randint(5)]
    if kind == 0 or kind == 1:
        # a node object that occurs twice
        if cls is mdp.OnlineFlow:
            nodes = [mn.OnlineCenteringNode(), shared, mn.CCIPCANode(output_dim=4, numx_rng=np.random.RandomState(1)), shared]
        else:
            nodes = [mn.PCANode(), shared, mn.SFANode(), shared]
        obj = cls(nodes)
        inner = lambda o: o.flow
    elif kind == 2:
        cls = h.CloneLayer
        obj = h.CloneLayer(mn.PCANode(input_dim=2, output_dim=1), 2)
        inner = lambda o: o.nodes
    elif kind == 3:
        cls = h.Layer
        n = mn.IdentityNode(input_dim=1)
        obj = h.Layer([n, C.TwoPhase(input_dim=1), n, mn.IdentityNode(input_dim=1)])
        inner = lambda o: o.nodes
    elif kind == 4:
        cls = h.FlowNode
        obj = h.FlowNode(mdp.Flow([mn.PCANode(), shared, mn.SFANode(), shared]))
        inner = lambda o: o.flow.flow
    else:
        # classifiers and data-holding nodes nested in a flow
        obj = mdp.Flow([mn.PCANode(), h.CloneLayer(mn.IdentityNode(input_dim=1), 4), shared])
        cls = mdp.Flow
        inner = lambda o: o.flow

    def train(o, data):
        if isinstance(o, (mdp.CheckpointFlow,)):
            o.train(data, [None] * len(o))
        elif isinstance(o, mdp.Flow):
            o.train(data)
        else:
            while o.is_training():
                o.train(data)
                o.stop_training()

    def run(o):
        y = o.execute(x)
        return y[0] if isinstance(y, tuple) else y
    done = rng.rand() < 0.6
    if done:
        train(obj, X)
    obj.log = ['first', {'x': [1]}]
    obj.best = inner(obj)[-1]
    obj.info = Log(inner(obj)[0])
    obj.table = np.arange(6.).reshape(2, 3)
    obj.itself = obj
    ident = [[a is b for a in inner(obj)] for b in inner(obj)]
    form, d = dup(rng, rec, obj)
    where = '%s kind %d via %s' % (cls.__name__, kind, form)
    rec.require(type(d) is type(obj), 'type', where)
    rec.require([[a is b for a in inner(d)] for b in inner(d)] == ident, 'sharing', '%s: nodes that are one object in '
                'the original are different objects in the duplicate (or the other way round)' % where)
    rec.require(not any(a is b for a in inner(d) for b in inner(obj)), 'shared-node', where)
    for nm in ('log', 'best', 'info', 'table', 'itself'):
        if not hasattr(d, nm):
            rec.fail('attribute', '%s: attribute %s missing in the duplicate' % (where, nm))
            rec.case(kind, form)
            return
    rec.require(d.best is inner(d)[-1] and d.info.node is inner(d)[0] and d.itself is d, 'sharing',
                '%s: attributes that point into the flow point elsewhere in the duplicate' % where)
    rec.require(d.log == obj.log and np.array_equal(d.table, obj.table), 'attribute', where)
    a, b = (obj, d) if rng.rand() < 0.5 else (d, obj)
    a.log.append('more')
    a.log[1]['x'].append(2)
    a.table[...] = -1
    a.info.lines.append('line')
    inner(a)[0].tag = [1]
    rec.require(b.log == ['first', {'x': [1]}] and b.table[1, 2] == 5 and b.info.lines == [] and
                not hasattr(inner(b)[0], 'tag'), 'shared-state', '%s: a change of one is visible in the other' % where)
    if not done:
        train(a, C.smooth_mix(rng, 120, 4))
        rec.require(any(n.is_training() for n in inner(b)) or not any(n.is_trainable() and not isinstance(n, mdp.OnlineNode)
                    for n in inner(b)), 'shared-state', '%s: training one trained the other' % where)
        train(b, X)
    else:
        rec.require(C.close(run(a), run(b), 1e-9), 'duplicate-differs', where)
    rec.event('twins_compared')
    rec.case(kind, cls.__name__, form, done, type(shared).__name__, rng.randint(1 << 20))
