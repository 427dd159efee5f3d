"""P01 node life-cycle protocol: online checking of random call histories
against a reference automaton, on user-defined and on all library nodes."""
import numpy as np
import mdp
from harness.core import Check, Skip, is_numeric
from harness import catalog as C

CHECK = Check('P01', 'A case is one call history (random sequence of train / stop_training / '
              'execute / inverse / invalid calls, with injected hook failures) on one node class; '
              'non-trivial when it contains at least one accepted and one rejected call.',
              assumptions=['online nodes have their own life-cycle (P28)'])
CHECK.expect_events(history_steps=500, rejected_calls=50, hook_calls=200)


class Boom(Exception):
    pass


def make_user_class(rng, T, trainable, invertible, log, faults):
    """A node class with T phases whose hooks log; faults: set of pending hook names."""
    def hook(name):
        log.append(name)
        if faults and faults[0] == name[0]:
            faults.pop(0)
            raise Boom(name)

    ns = {}
    style = rng.randint(2) if T == 1 else 1
    if trainable:
        if style == 0:
            def _train(self, x, *args, **kwargs):
                hook(('train', 0, args, tuple(sorted(kwargs.items()))))
                self.seen.append(x.copy())

            def _stop_training(self, *args, **kwargs):
                hook(('stop', 0, args, tuple(sorted(kwargs.items()))))
            ns['_train'] = _train
            ns['_stop_training'] = _stop_training
        else:
            def mk(i):
                def tr(self, x, *args, **kwargs):
                    hook(('train', i, args, tuple(sorted(kwargs.items()))))
                    self.seen.append(x.copy())

                def st(self, *args, **kwargs):
                    hook(('stop', i, args, tuple(sorted(kwargs.items()))))
                return tr, st
            for i in range(T):
                ns['_tr%d' % i], ns['_st%d' % i] = mk(i)

            def _get_train_seq(self):
                return [(getattr(self, '_tr%d' % i), getattr(self, '_st%d' % i)) for i in range(T)]
            ns['_get_train_seq'] = _get_train_seq
    else:
        ns['is_trainable'] = staticmethod(lambda: False)
    if not invertible:
        ns['is_invertible'] = staticmethod(lambda: False)

    def _execute(self, x, *args, **kwargs):
        hook(('exec', -1, args, tuple(sorted(kwargs.items()))))
        return x * 2

    def _inverse(self, y, *args, **kwargs):
        hook(('inv', -1, args, tuple(sorted(kwargs.items()))))
        return y / 2
    ns['_execute'] = _execute
    ns['_inverse'] = _inverse

    def __init__(self, *a, **k):
        mdp.Node.__init__(self, *a, **k)
        self.seen = []
    ns['__init__'] = __init__
    return type('UserNode%d' % T, (mdp.Node,), ns)


class Model(object):
    """The reference automaton."""

    def __init__(self, trainable, invertible, T, autotrain=True):
        self.trainable = trainable
        self.invertible = invertible
        self.T = T if trainable else 0
        self.cur = 0 if trainable else -1
        self.started = False
        self.training = trainable
        self.autotrain = autotrain

    def remaining(self):
        return self.T - self.cur if self.trainable else 0

    # each returns (expected exception class or None, [hook names expected])
    def train(self):
        if not self.trainable:
            return mdp.IsNotTrainableException, []
        if not self.training:
            return mdp.TrainingFinishedException, []
        self.started = True
        return None, [('train', self.cur)]

    def _close(self):
        h = ('stop', self.cur)
        self.cur += 1
        self.started = False
        if self.cur == self.T:
            self.training = False
        return h

    def stop(self):
        if not self.training:
            return mdp.TrainingFinishedException, []
        if not self.started:
            return mdp.TrainingException, []
        return None, [self._close()]

    def use(self, inverse):
        if inverse and not self.invertible:
            return mdp.IsNotInvertibleException, []
        hooks = []
        if not inverse and self.trainable and self.cur == 0 and not self.started:
            while True:
                e, h = self.train()
                hooks += h
                if self.remaining() > 1:
                    hooks.append(self._close())
                else:
                    break
        if self.training:
            if not self.started:
                return mdp.TrainingException, hooks
            hooks.append(self._close())
            if self.training:
                return mdp.TrainingException, hooks
        return None, hooks + [('inv' if inverse else 'exec', -1)]


def compare_stage(rec, node, m, where):
    rec.event('stage_comparisons')
    rec.require(node.is_trainable() == m.trainable, 'stage', '%s: is_trainable' % where)
    rec.require(node.is_training() == m.training, 'stage',
                '%s: is_training=%s, history implies %s' % (where, node.is_training(), m.training))
    rec.require(node.get_remaining_train_phase() == m.remaining(), 'stage',
                '%s: remaining=%s expected %s' % (where, node.get_remaining_train_phase(), m.remaining()))
    if m.trainable:
        rec.require(node.get_current_train_phase() == m.cur, 'stage',
                    '%s: phase=%s expected %s' % (where, node.get_current_train_phase(), m.cur))


@CHECK.scenario(quick=700, thorough=20000)
def user_defined_histories(rng, rec):
    T = int(rng.randint(1, 5))
    trainable = rng.rand() < 0.85
    invertible = rng.rand() < 0.75
    log, faults = [], []
    cls = make_user_class(rng, T, trainable, invertible, log, faults)
    node = cls(input_dim=3 if rng.rand() < 0.5 else None)
    m = Model(trainable, invertible, T)
    rec.check(node.has_multiple_training_phases() == (T > 1) or not trainable, 'multi-phase-flag')
    hist = []
    rejected = accepted = 0
    expected_seen = []
    for step in range(int(rng.randint(4, 4 + 4 * T + 8))):
        op = rng.choice(['train', 'train', 'train', 'stop', 'stop', 'exec', 'inv', 'badtrain', 'copy',
                         'fault-train', 'fault-stop', 'fault-exec'])
        x = rng.randn(rng.randint(1, 6), 3)
        args = tuple(rng.randint(0, 9, size=rng.randint(0, 3)).tolist())
        kw = {'k%d' % i: int(rng.randint(9)) for i in range(rng.randint(0, 2))}
        del log[:]
        del faults[:]
        hist.append(op)
        rec.event('history_steps')
        if op == 'copy':
            node = node.copy()
            compare_stage(rec, node, m, 'after copy, history %s' % hist)
            continue
        if op == 'badtrain':
            try:
                node.train(rng.randn(2, 4))
                # a fresh node without dimension would accept four columns
                if node.input_dim == 4:
                    raise Skip()
                rec.fail('accepted-bad', 'train accepted wrong dimension; history %s' % hist)
            except mdp.NodeException:
                rec.event('rejected_calls')
            rec.require(log == [], 'hook-on-reject', 'hook called for rejected data %s' % log)
            compare_stage(rec, node, m, 'after rejected data, history %s' % hist)
            continue
        if op.startswith('fault-'):
            what = op[6:]
            before = (m.cur, m.started, m.training)
            if what == 'train':
                exp, hooks = m.train()
            elif what == 'stop':
                exp, hooks = m.stop()
            else:
                exp, hooks = m.use(False)
            names = [h[0] for h in hooks]
            if exp is None and what in names:
                m.cur, m.started, m.training = before
                faults.append(what)
                try:
                    if what == 'train':
                        node.train(x)
                    elif what == 'stop':
                        node.stop_training()
                    else:
                        node.execute(x)
                    rec.fail('swallowed', 'exception raised by a hook was swallowed; %s' % hist)
                    return
                except Boom:
                    rec.event('hook_faults')
                if what == 'train':
                    # whether the phase counts as begun is the node's business: make it so
                    compare_stage(rec, node, m, 'after failed train hook, %s' % hist)
                    m.train()
                    node.train(x)
                    expected_seen.append(x)
                elif what == 'stop':
                    compare_stage(rec, node, m, 'after failed stop hook, %s' % hist)
                else:
                    # everything before the execute hook has happened
                    exp, hooks2 = m.use(False)
                    if ('train', 0) in hooks2:
                        expected_seen += [x] * sum(1 for h in hooks2 if h[0] == 'train')
                    rec.require([l[:2] for l in log] == hooks2, 'hooks',
                                'hooks %s expected %s; %s' % (log, hooks2, hist))
                    compare_stage(rec, node, m, 'after failed execute hook, %s' % hist)
                continue
            # otherwise the call is just the plain misuse/ok one
            m.cur, m.started, m.training = before
            op = what
            args, kw = (), {}
        if op == 'train':
            exp, hooks = m.train()
            call = lambda: node.train(x, *args, **kw)
        elif op == 'stop':
            exp, hooks = m.stop()
            call = lambda: node.stop_training(*args, **kw)
        elif op == 'exec':
            exp, hooks = m.use(False)
            call = lambda: (node.execute if rng.rand() < 0.5 else node)(x, *args, **kw)
        else:
            if node.output_dim is None and node.input_dim is None and invertible:
                continue
            exp, hooks = m.use(True)
            call = lambda: node.inverse(x, *args, **kw)
        expected_seen += [x] * sum(1 for h in hooks if h[0] == 'train')
        try:
            res = call()
            got = None
            accepted += 1
        except mdp.NodeException as e:
            got = type(e)
            rejected += 1
            rec.event('rejected_calls')
        if exp is None:
            rec.require(got is None, 'rejected-legal', 'legal %s rejected with %s; history %s' % (op, got, hist))
        else:
            rec.require(got is not None and issubclass(got, exp), 'wrong-rejection',
                        '%s gave %s, expected %s; history %s' % (op, got, exp.__name__, hist))
        rec.event('hook_calls', len(log))
        rec.require([l[:2] for l in log] == hooks, 'hooks',
                    'hooks called %s, expected %s; history %s' % (log, hooks, hist))
        if got is None:
            # arguments reach the hook of the call itself, unchanged
            last = log[-1]
            rec.require(last[2] == args and dict(last[3]) == kw, 'arguments',
                        'arguments %s %s arrived as %s; history %s' % (args, kw, last, hist))
            if op == 'exec':
                rec.require(np.array_equal(res, x * 2), 'result', 'execute result; %s' % hist)
            if op == 'inv':
                rec.require(np.array_equal(res, x / 2), 'result', 'inverse result; %s' % hist)
        compare_stage(rec, node, m, 'after %s, history %s' % (op, hist))
    seen = node.seen
    rec.require(len(seen) >= len(expected_seen) - 0 and
                all(any(np.array_equal(a, b) for b in seen) for a in expected_seen),
                'data-lost', 'training data did not reach the hooks; %s' % hist)
    if rejected and accepted:
        rec.case('user', T, trainable, invertible, tuple(hist))


LIB = [(s.name, s) for s in C.SPECS if not s.online]


@CHECK.each(LIB, quick=20, thorough=300)
def library_histories(rng, rec, spec):
    dt = spec.dtypes[rng.randint(len(spec.dtypes))]
    node = spec.make()
    trainable = node.is_trainable()
    rec.check(trainable == spec.trainable, 'is_trainable', '%s' % spec)
    invertible = node.is_invertible()
    m = Model(trainable, invertible, node.get_remaining_train_phase())
    auto_ok = spec.extra is None and spec.exec_extra is None and spec.name != 'XSFA'
    hist = []
    ok = rej = 0
    fed_small = False
    for step in range(int(rng.randint(5, 14))):
        op = rng.choice(['train', 'train', 'stop', 'stop', 'exec', 'inv', 'copy', 'label'])
        if op in ('exec', 'label') and not auto_ok and m.cur == 0 and not m.started and trainable:
            continue
        if op == 'copy' and spec.name == 'LibSVM':
            continue    # recorded under P06
        if op == 'label' and not spec.classifier:
            continue
        X = spec.data(rng, dtype=dt)
        E = spec.train_args(rng, X)
        hist.append(op)
        rec.event('history_steps')
        if op == 'copy':
            node = node.copy()
            compare_stage(rec, node, m, '%s after copy, history %s' % (spec, hist))
            continue
        if op == 'train':
            exp, hooks = m.train()
            call = lambda: spec.feed(node, [(X, E)])
        elif op == 'stop':
            exp, hooks = m.stop()
            call = node.stop_training
        elif op == 'exec':
            exp, hooks = m.use(False)
            x = X if (trainable and hooks and hooks[0][0] == 'train') else X[:max(12, spec.minexec)]
            if spec.maxexec:
                x = x[:spec.maxexec]
            call = lambda: spec.run(node, x)
        elif op == 'label':
            exp, hooks = m.use(False)
            x = X if (trainable and hooks and hooks[0][0] == 'train') else X[:12]
            call = lambda: node.label(x)
        else:
            odim = node.output_dim
            if m.invertible and odim is None and (m.training or not trainable):
                if not m.started:
                    continue
            if m.invertible:
                # output_dim may only be known after closing the phase: probe on a copy
                if m.training and m.started and m.remaining() == 1:
                    c = node.copy()
                    c.stop_training()
                    odim = c.output_dim
                if odim is None:
                    odim = node.input_dim
                if odim is None or isinstance(odim, float):
                    continue
            exp, hooks = m.use(True)
            y = rng.randn(3, odim or spec.d).astype(dt)
            call = lambda: node.inverse(y)
        try:
            call()
            got = None
            ok += 1
        except mdp.NodeException as e:
            if is_numeric(e):
                raise Skip('numeric')
            got = type(e)
            rej += 1
            rec.event('rejected_calls')
            err = e
        rec.event('hook_calls', len(hooks))
        if exp is None:
            rec.require(got is None, 'rejected-legal', '%s: legal %s rejected: %s; history %s'
                        % (spec, op, got and err, hist))
        else:
            rec.require(got is not None and issubclass(got, exp), 'wrong-rejection',
                        '%s: %s gave %s, expected %s; history %s' % (spec, op, got, exp.__name__, hist))
        if spec.name == 'XSFA' and m.cur <= 1:
            # documented: the number of phases is fixed by the first data
            m.T = node.get_remaining_train_phase() + m.cur
        compare_stage(rec, node, m, '%s after %s, history %s' % (spec, op, hist))
    if ok:
        rec.case(spec.name, dt, tuple(hist))


@CHECK.scenario(quick=150, thorough=4000)
def inheritance_chains(rng, rec):
    """Every override in a class hierarchy is called once per public call, through
    super chains, whatever level defines which hook."""
    log = []
    depth = int(rng.randint(1, 5))
    base = mdp.Node
    defs = {'_train': [], '_stop_training': [], '_execute': [], '_inverse': []}
    for lvl in range(depth):
        ns = {}
        for name in defs:
            if rng.rand() < 0.6 or (lvl == 0 and name == '_train'):
                def mk(name, lvl, has_parent):
                    def f(self, *args):
                        log.append((name, lvl))
                        if has_parent:
                            return getattr(super(holder[lvl], self), name)(*args)
                        return args[0] + 1 if args and name in ('_execute', '_inverse') else None
                    if name == '_train':
                        def g(self, x):
                            return f(self, x)
                    elif name == '_stop_training':
                        def g(self):
                            return f(self)
                    else:
                        def g(self, x):
                            return f(self, x)
                    g.__name__ = name
                    g.__doc__ = 'doc %s %d' % (name, lvl)
                    return g
                ns[name] = mk(name, lvl, bool(defs[name]))
                defs[name].append(lvl)
        if lvl == 0:
            holder = {}
        base = type('Lvl%d' % lvl, (base,), ns)
        holder[lvl] = base
    node = base()
    x = rng.randn(4, 2)

    def expect(name):
        return [(name, l) for l in reversed(defs[name])]
    steps = [('_train', lambda: node.train(x)), ('_stop_training', node.stop_training),
             ('_execute', lambda: node.execute(x)), ('_inverse', lambda: node.inverse(x))]
    for name, call in steps:
        del log[:]
        call()
        rec.event('hook_calls', len(log))
        rec.event('history_steps')
        rec.require(log == expect(name), 'hook-chain', '%s: called %s, expected %s (defs %s)'
                    % (name, log, expect(name), defs))
    for name in defs:
        if defs[name]:
            doc = getattr(base, name[1:]).__doc__
            rec.check(doc == 'doc %s %d' % (name, defs[name][-1]), 'docstring',
                      'public docstring of %s is %r' % (name, doc))
    rec.case('chain', depth, str(sorted(defs.items())))


@CHECK.scenario(quick=6, thorough=60)
def failed_stop_can_be_retried(rng, rec):
    """A stop that fails for numerical reasons leaves the phase open; it can be
    repaired as documented (rank deficit method) and closed then."""
    n = 200
    X = C.smooth_mix(rng, n, 3)
    X = np.concatenate([X, X[:, :1] + X[:, 1:2]], axis=1)
    node = mdp.nodes.SFANode(output_dim=2)
    node.train(X)
    try:
        node.stop_training()
    except mdp.NodeException:
        rec.event('rejected_calls')
        rec.require(node.is_training() and node.get_remaining_train_phase() == 1, 'stage',
                    'failed stop changed the stage')
        node.set_rank_deficit_method(str(rng.choice(['pca', 'svd', 'reg'])))
        node.stop_training()
        rec.event('retried_stop')
    rec.require(not node.is_training(), 'stage')
    y = node.execute(X)
    rec.require(y.shape == (n, 2) and np.isfinite(y).all(), 'retry-result')
    rec.case('retry', rng.randint(1 << 30))


def _flat(v):
    """Comparable arrays of an accessor result."""
    if isinstance(v, (tuple, list)):
        return [a for q in v for a in _flat(q)]
    if hasattr(v, 'H') and hasattr(v, 'f'):
        return [np.asarray(v.H), np.asarray(v.f), np.asarray(v.c)]
    return [np.asarray(v)]


_mn = mdp.nodes
ACCESSORS = [
    ('PCA', lambda d: _mn.PCANode(), ['get_projmatrix', 'get_recmatrix', 'get_explained_variance', 'inverse']),
    ('Whitening', lambda d: _mn.WhiteningNode(), ['get_projmatrix', 'get_recmatrix', 'get_eigenvectors', 'inverse']),
    ('CuBICA', lambda d: _mn.CuBICANode(), ['get_projmatrix', 'get_recmatrix', 'inverse']),
    ('JADE', lambda d: _mn.JADENode(), ['get_projmatrix', 'get_recmatrix', 'inverse']),
    ('SFA2', lambda d: _mn.SFA2Node(), ['get_quadratic_form']),
    ('SFA', lambda d: _mn.SFANode(), ['inverse', 'get_eta_values']),
    ('HitParade', lambda d: _mn.HitParadeNode(3), ['get_maxima', 'get_minima']),
    ('Eta', lambda d: _mn.EtaComputerNode(), ['get_eta']),
    ('FANode', lambda d: _mn.FANode(output_dim=2), ['generate_input']),
    ('RBM', lambda d: _mn.RBMNode(3, d), ['sample_v', 'sample_h']),
    ('NIPALS', lambda d: _mn.NIPALSNode(), ['get_projmatrix', 'get_recmatrix', 'get_explained_variance']),
    ('Gaussian', lambda d: _mn.GaussianClassifier(), ['label', 'prob', 'rank']),
    ('NearestMean', lambda d: _mn.NearestMeanClassifier(), ['label']),
    ('KNN', lambda d: _mn.KNNClassifier(k=2), ['label']),
]


@CHECK.each([('%s.%s' % (nm, m), (nm, mk, m)) for nm, mk, ms in ACCESSORS for m in ms], quick=3, thorough=40)
def accessors(rng, rec, conf):
    """Asking a trained but still open node for a result closes its training
    first, exactly as an explicit stop_training; asking again changes nothing.
    A node that saw no data has nothing to tell."""
    name, mk, method = conf
    d = int(rng.randint(3, 6))
    X = C.smooth_mix(rng, 120, d)
    y = rng.randn(5, d)
    extra = {'get_quadratic_form': (0,), 'generate_input': (rng.randn(4, 2),)}.get(method, ())
    args = ()
    if name == 'RBM':
        X = (X > 0).astype('d')
    if method == 'sample_v':
        extra = (rng.randint(0, 2, (5, 3)).astype('d'),)
    elif method == 'sample_h':
        extra = (rng.randint(0, 2, (5, d)).astype('d'),)
    elif method in ('inverse', 'label', 'prob', 'rank'):
        extra = (y,)
    if name in ('Gaussian', 'NearestMean', 'KNN'):
        args = (np.repeat([0, 1, 2], 40),)

    def ask(n):
        mdp.numx_rand.seed(5)
        return getattr(n, method)(*extra)
    fresh = mk(d)
    if method != 'get_explained_variance':
        try:
            r = ask(fresh)
            rec.require(False, 'untrained-accessor', lambda: '%s.%s of an untrained node gave %r' % (name, method, r))
        except (mdp.NodeException, mdp.TrainingException):
            rec.event('rejected_calls')
        except Exception as e:
            # sample_h and label train an untrained node with their data, as execute does
            if method in ('sample_h', 'label', 'prob', 'rank'):
                rec.event('rejected_calls')
            else:
                raise
    mdp.numx_rand.seed(9)
    a = mk(d)
    mdp.numx_rand.seed(9)
    b = mk(d)
    for n in (a, b):
        mdp.numx_rand.seed(11)
        for i in ((0, 60), (60, 120)):
            n.train(X[i[0]:i[1]], *[q[i[0]:i[1]] for q in args])
    mdp.numx_rand.seed(13)
    b.stop_training()
    if method == 'get_explained_variance':
        a.stop_training()
    mdp.numx_rand.seed(13)
    if name in ('CuBICA', 'JADE', 'FANode'):
        # the closing may draw random numbers
        got = _flat(getattr(a, method)(*extra))
    else:
        got = _flat(ask(a))
    rec.require(not a.is_training(), 'accessor-stage', '%s.%s left the training open' % (name, method))
    want = _flat(ask(b))
    ok = len(got) == len(want) and all(g.shape == w.shape and (np.allclose(g, w, rtol=1e-6, atol=1e-8) if g.dtype.kind in 'fc' else
                                       np.all(g == w)) for g, w in zip(got, want))
    rec.require(ok, 'accessor-result', lambda: '%s.%s: %s, after stop_training %s' % (name, method, got, want))
    again = _flat(ask(a))
    rec.require(all(np.array_equal(g, w) if g.dtype.kind in 'fciub' else np.all(g == w) for g, w in zip(again, _flat(ask(b)))) or
                all(np.allclose(g, w, rtol=1e-6, atol=1e-8) for g, w in zip(again, want)), 'accessor-result', '%s.%s asked twice' % (name, method))
    try:
        a.train(X, *args)
        rec.require(False, 'accessor-stage', '%s.%s: training goes on' % (name, method))
    except mdp.TrainingFinishedException:
        rec.event('rejected_calls')
    rec.event('history_steps', 4)
    rec.case(name, method, d, rng.randint(1 << 30))
