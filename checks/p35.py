"""P35 results reproducible from a seed, independent of unrelated work."""
import hashlib
import inspect
import io
import json
import os
import random
import subprocess
import sys
import numpy as np
import mdp
import bimdp
from harness.core import Check, Skip, VERIF, REPO, is_numeric
from harness import catalog as C

CHECK = Check('P35', 'A case trains and executes one node configuration, flow or helper at least twice from the '
              'same seed (numpy and stdlib generators) with unrelated work in between, or in fresh '
              'interpreters with different hash seeds, and compares results bit for bit while a monitor '
              'on the global generators records whether they were consumed. Distinct by node, number '
              'type, kind of interleaved work and seed.')
CHECK.expect_events(repeat_runs=200, global_state_watched=200, fresh_interpreters=2)


def seedall(seed):
    np.random.seed(seed)
    random.seed(int(seed))


def gstate():
    s = np.random.get_state()
    return (hashlib.sha1(s[1].tobytes()).hexdigest(), s[2], s[3], s[4],
            hashlib.sha1(repr(random.getstate()).encode()).hexdigest())


def digest(objs):
    h = hashlib.sha1()
    for o in objs:
        a = np.asarray(o)
        if a.dtype == object:
            a = np.array([str(i) for i in a.ravel()])
        h.update(str((a.dtype.str, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def chunks_for(spec, X, E, ncut):
    n = len(X)
    if ncut == 0 or spec.name in ('iGSFA', 'XSFA') or spec.minchunk > n // 4:
        cuts = []
    else:
        cuts = [n // 2] if ncut == 1 else [n // 3, n // 2]
    return spec.split(X, E, cuts)


def life(spec, chunks, x, seed, between=None, kw={}):
    """Whole life of one node from a seed; everything observable at the end."""
    seedall(seed)
    node = spec.make(**kw)
    if node.is_trainable():
        while node.is_training():
            spec.feed(node, [(a.copy(), None if e is None else e.copy()) for a, e in chunks])
            if between:
                st = np.random.get_state(), random.getstate()
                between()
                np.random.set_state(st[0])
                random.setstate(st[1])
            node.stop_training()
            if spec.online:
                break
    out = [np.array(spec.run(node, x.copy()))]
    if spec.classifier:
        out.append(np.asarray(node.label(x)))
    if spec.inv == 'exact' and out[0].dtype.kind == 'f':
        try:
            out.append(np.array(node.inverse(out[0])))
        except (mdp.NodeException,):
            pass
    if spec.getters:
        out.extend(spec.getters(node))
    return node, out


OTHERS = [s for s in C.SPECS if not s.slow and s.name not in ('NeuralGas', 'LibSVM')]


def unrelated(rng, rec):
    """Unrelated use of the library."""
    k = rng.randint(6)
    seed = rng.randint(1 << 30)
    r = np.random.RandomState(seed)
    if k <= 2:
        o = OTHERS[r.randint(len(OTHERS))]

        def work():
            X = o.data(r)
            E = o.train_args(r, X)
            try:
                life(o, chunks_for(o, X, E, 1), o.xin(r, 6), 77)
            except Exception as e:
                if not is_numeric(e):
                    raise
        return 'node:' + o.name, work
    if k == 3:
        def work():
            with mdp.extension('gradient'):
                n = mdp.nodes.SFANode(output_dim=2)
                n.train(r.randn(20, 3))
                n.stop_training()
                n._gradient(r.randn(2, 3))
        return 'ext:gradient', work
    if k == 4:
        def work():
            with mdp.extension('parallel'):
                f = mdp.Flow([mdp.nodes.SFANode(), mdp.nodes.QuadraticExpansionNode()])
                f.train(r.randn(50, 3))
                f.copy()
        return 'ext:parallel', work

    def work():
        mdp.utils.random_rot(4)
        f = bimdp.BiFlow([bimdp.nodes.PCABiNode(output_dim=2), bimdp.nodes.IdentityBiNode()])
        f.train(r.randn(30, 3))
        f.execute(r.randn(3, 3))
        np.random.rand(3)
        random.random()
    return 'bimdp', work


def pick(rng, spec):
    dt = np.dtype(spec.dtypes[rng.randint(len(spec.dtypes))])
    X = spec.data(rng, dtype=dt)
    E = spec.train_args(rng, X)
    return dt, chunks_for(spec, X, E, rng.randint(3)), spec.xin(rng, 12, dt)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'f':
        # bit patterns, NaN included
        return a.tobytes() == b.tobytes() or np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


@CHECK.each([(s.name, s) for s in C.SPECS], quick=6, thorough=60)
def repeat(rng, rec, spec):
    dt, chunks, x = pick(rng, spec)
    seed = rng.randint(1 << 30)
    n1, a = life(spec, chunks, x, seed)
    what, work = unrelated(rng, rec)
    work()
    n2, b = life(spec, chunks, x, seed, between=work if rng.rand() < 0.5 else None)
    rec.event('repeat_runs')
    rec.require(len(a) == len(b) and all(same(u, v) for u, v in zip(a, b)), 'not-reproducible',
                lambda: '%s %s: same seed and data, second run after %s differs (max %s)' % (
                    spec.name, dt, what, [C.maxdiff(u, v) if np.asarray(u).dtype.kind == 'f' else '?' for u, v in zip(a, b)]))
    rec.case(spec.name, str(dt), what, seed)


@CHECK.each([(s.name, s) for s in C.SPECS], quick=4, thorough=60)
def global_state(rng, rec, spec):
    """Deterministic nodes (and nodes with a private generator) leave the
    global generators alone; their result does not depend on it."""
    dt, chunks, x = pick(rng, spec)
    det_train = not spec.rtrain and spec.name != 'TDSEP'      # random order of rotations
    det_exec = not spec.rexec and spec.name != 'RBM_probs'   # samples, then returns probabilities
    s1, s2 = rng.randint(1 << 30, size=2)
    seedall(s1)
    g0 = gstate()
    node = spec.make()
    while node.is_trainable() and node.is_training():
        spec.feed(node, chunks)
        if spec.online:
            break
        node.stop_training()
    rec.event('global_state_watched')
    if det_train:
        rec.require(gstate() == g0, 'global-rng-consumed',
                    '%s %s: creating and training consumed or reseeded the global random state' % (spec.name, dt))
    g1 = gstate()
    y = np.array(spec.run(node, x))
    if spec.classifier:
        node.label(x)
    node.copy() if spec.name != 'LibSVM' else None
    repr(node), str(node)
    if spec.inv == 'exact' and y.dtype.kind == 'f':
        try:
            node.inverse(y)
        except mdp.NodeException:
            pass
    if det_exec:
        rec.require(gstate() == g1, 'global-rng-consumed',
                    '%s %s: execute/inverse/copy/repr consumed the global random state' % (spec.name, dt))
    if det_train and det_exec:
        _, b = life(spec, chunks, x, s2)
        rec.require(same(y, b[0]), 'seed-dependent', '%s %s: deterministic node depends on the global seed' % (spec.name, dt))
    else:
        rec.event('random_nodes_seen')
    rec.case(spec.name, str(dt), s1)


PRIVATE = [('CCIPCA', lambda r: mdp.nodes.CCIPCANode(output_dim=2, numx_rng=r)),
           ('CCIPCAWhitening', lambda r: mdp.nodes.CCIPCAWhiteningNode(output_dim=2, numx_rng=r)),
           ('MCA', lambda r: mdp.nodes.MCANode(output_dim=2, numx_rng=r)),
           ('IncSFA', lambda r: mdp.nodes.IncSFANode(output_dim=2, numx_rng=r)),
           ('OnlineCentering', lambda r: mdp.nodes.OnlineCenteringNode(numx_rng=r)),
           ('OnlineTimeDiff', lambda r: mdp.nodes.OnlineTimeDiffNode(numx_rng=r)),
           ('OnlineLayer', lambda r: mdp.hinet.OnlineLayer(
               [mdp.nodes.CCIPCANode(input_dim=2, output_dim=1, numx_rng=r),
                mdp.nodes.MCANode(input_dim=2, output_dim=1, numx_rng=r)])),
           ('OnlineFlowNode', lambda r: mdp.hinet.OnlineFlowNode(mdp.OnlineFlow(
               [mdp.nodes.OnlineCenteringNode(numx_rng=r), mdp.nodes.CCIPCANode(output_dim=2, numx_rng=r)])))]


@CHECK.each(PRIVATE, quick=12, thorough=150)
def private_rng(rng, rec, make):
    X = C.smooth_mix(rng, 40) * 0.3
    seed, g1, g2 = rng.randint(1 << 30, size=3)
    via_setter = rng.rand() < 0.4
    out = []
    for g in (g1, g2):
        seedall(g)
        g0 = gstate()
        r = np.random.RandomState(seed)
        if via_setter:
            node = make(None)
            for sub in ([node] + list(getattr(node, 'nodes', []) or []) + list(getattr(node, '_flow', []) or [])):
                if isinstance(sub, mdp.OnlineNode):
                    sub.numx_rng = r
        else:
            node = make(r)
        for i in range(0, 40, 8):
            node.train(X[i:i + 8])
            np.random.rand(rng.randint(1, 5)) if g == g2 and i else None
        if g == g1:
            rec.event('global_state_watched')
            rec.require(gstate() == g0, 'global-rng-consumed', 'node with private generator used the global state')
        st = r.get_state()
        out.append((np.array(node.execute(X[:5])), st[1].copy(), st[2]))
    rec.event('repeat_runs')
    rec.require(same(out[0][0], out[1][0]), 'private-rng',
                'same private seed, different global seeds: results differ')
    rec.require(np.array_equal(out[0][1], out[1][1]) and out[0][2] == out[1][2], 'private-rng',
                'the private generator was consumed differently')
    rec.case(via_setter, seed)


@CHECK.scenario(quick=60, thorough=600)
def flows(rng, rec):
    """Whole random flows, layers, parallel flow with a serial scheduler, BiFlows."""
    seed = rng.randint(1 << 30)
    X = C.mix(rng, 200)
    kind = rng.randint(5)

    def build():
        mid = [lambda: mdp.nodes.FastICANode(approach='symm', whitened=False),
               lambda: mdp.nodes.NoiseNode(), lambda: mdp.nodes.RBMNode(3),
               lambda: mdp.nodes.FANode(output_dim=2, max_cycles=5),
               lambda: mdp.nodes.KMeansClassifier(2, execute_method='label') if False else mdp.nodes.NormalNoiseNode(noise_args=(0, .1)),
               lambda: mdp.hinet.Layer([mdp.nodes.RBMNode(2, visible_dim=2), mdp.nodes.PCANode(input_dim=2)])]
        r = np.random.RandomState(seed)
        nodes = [mdp.nodes.WhiteningNode()]
        nodes += [mid[r.randint(len(mid))]()]
        if nodes[-1].input_dim is None or True:
            nodes += [mdp.nodes.PCANode()]
        return nodes
    res = []
    for rep in range(2):
        seedall(seed)
        if kind == 0:
            f = mdp.Flow(build())
            f.train(X.copy())
        elif kind == 1:
            f = mdp.Flow(build())
            f.train([[X[:100].copy(), X[100:].copy()]] * 3)
        elif kind == 2:
            f = mdp.parallel.ParallelFlow(build())
            with mdp.parallel.Scheduler() as s:
                f.train([[X[:100].copy(), X[100:].copy()]] * 3, scheduler=s)
        elif kind == 3:
            f = bimdp.BiFlow(build())
            f.train(X.copy())
        else:
            f = mdp.Flow([mdp.hinet.FlowNode(mdp.Flow(build()))])
            f.train(X.copy())
        y = f.execute(X[:11].copy())
        if kind == 3:
            y = y[0]
        res.append(np.array(y))
        what, work = unrelated(rng, rec)
        work()
    rec.event('repeat_runs')
    rec.require(same(res[0], res[1]), 'not-reproducible', 'flow kind %d, after %s' % (kind, what))
    rec.case(kind, seed)


@CHECK.scenario(quick=60, thorough=500)
def helpers(rng, rec):
    u = mdp.utils
    seed = rng.randint(1 << 30)
    d = rng.randint(2, 7)
    fs = [('random_rot', lambda: u.random_rot(d), True), ('symrand', lambda: u.symrand(d), True),
          ('symrand_arr', lambda: u.symrand(np.arange(1., d + 1)), True),
          ('weighted_choice', lambda: [u.weighted_choice({'a': .3, 'b': .5, 'c': .2}) for _ in range(20)], True),
          ('cov2', lambda: u.cov2(np.ones((3, d)), np.eye(3, d)), False),
          ('permute', lambda: u.permute(np.arange(d * d).reshape(d, d), (0, 1), 1, 1), False),
          ('hermitian', lambda: u.hermitian(np.eye(d)), False),
          ('orth', lambda: u.dig_node(mdp.nodes.IdentityNode())[1], False),
          ('get_dtypes', lambda: len(u.get_dtypes('Float')), False),
          ('symeig', lambda: u.symeig(np.diag(np.arange(1., d + 1)))[0], False)]
    for name, f, israndom in fs:
        seedall(seed)
        g0 = gstate()
        a = f()
        moved = gstate() != g0
        seedall(seed)
        b = f()
        rec.event('repeat_runs')
        rec.event('global_state_watched')
        rec.require(same(a, b) if not isinstance(a, dict) else True, 'not-reproducible', name)
        if not israndom:
            rec.require(not moved, 'global-rng-consumed', name)
        rec.case(name, d, seed)


FRESH = r'''
import sys, json, random
import numpy as np
seed, order, prior = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
import mdp
from harness import catalog as C
from checks import p35 as P
specs = [s for s in C.SPECS]
np.random.RandomState(order).shuffle(specs)
out = {}
if prior:
    mdp.activate_extension('parallel'); mdp.deactivate_extension('parallel')
    np.random.rand(13); random.random()
for s in specs:
    rng = np.random.RandomState((seed + len(s.name) * 97) % (1 << 31))
    try:
        dt, chunks, x = P.pick(rng, s)
        if s.classifier and s.extra is not None and s.name not in ('Perceptron', 'LibSVM', 'SKLogReg'):
            chunks = [(a, np.array(['L%s' % i for i in e])) for a, e in chunks]
        _, o = P.life(s, chunks, x, seed)
        out[s.name] = P.digest(o)
    except Exception as e:
        from harness.core import is_numeric
        out[s.name] = 'numeric' if is_numeric(e) else 'ERR %s %s' % (type(e).__name__, e)
print(json.dumps(out))
'''


@CHECK.scenario(quick=1, thorough=8, timeout=300)
def fresh_interpreters(rng, rec):
    seed = int(rng.randint(1 << 30))
    res = []
    procs = []
    for i in range(3):
        env = dict(os.environ, PYTHONHASHSEED=str([0, 1, rng.randint(1, 1 << 31)][i]))
        procs.append(subprocess.Popen([sys.executable, '-W', 'ignore', '-c', FRESH, str(seed), str(i), str(i % 2)],
                                      env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    for p in procs:
        o, e = p.communicate(timeout=280)
        rec.require(p.returncode == 0, 'fresh-crash', e.decode()[-1500:])
        res.append(json.loads(o.decode().strip().split('\n')[-1]))
        rec.event('fresh_interpreters')
    for name in sorted(res[0]):
        vals = [r[name] for r in res]
        rec.check(not vals[0].startswith('ERR'), 'fresh-error', '%s: %s' % (name, vals[0]))
        rec.check(len(set(vals)) == 1, 'interpreter-dependent[%s]' % name,
                  '%s: same seed and data give different results in fresh interpreters (hash seeds, order of use)' % name)
        rec.case(name, seed)


VERBOSE = []
for _s in C.SPECS:
    try:
        _v = 'verbose' in inspect.signature(type(_s.make()).__init__).parameters
    except Exception:
        _v = False
    if _v:
        VERBOSE.append((_s.name, _s))


class Quiet(object):
    """Collects what is printed."""

    def __enter__(self):
        self.out = sys.stdout
        sys.stdout = self.buf = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.out
        self.text = self.buf.getvalue()


@CHECK.each(VERBOSE, quick=6, thorough=60)
def verbose_nodes(rng, rec, spec):
    """Progress output does not change the result."""
    dt, chunks, x = pick(rng, spec)
    seed = rng.randint(1 << 30)
    with Quiet() as q0:
        n1, a = life(spec, chunks, x, seed)
    with Quiet() as q1:
        n2, b = life(spec, chunks, x, seed, kw=dict(verbose=True))
    rec.event('verbose_runs')
    rec.event('lines_printed', q1.text.count('\n'))
    rec.require(len(a) == len(b) and all(same(u, v) for u, v in zip(a, b)), 'verbose-differs',
                lambda: '%s %s: verbose=True changes the result (max %s)' % (
                    spec.name, dt, [C.maxdiff(u, v) if np.asarray(u).dtype.kind == 'f' else '?' for u, v in zip(a, b)]))
    rec.require(q0.text == '' or spec.name in ('iGSFA', 'GSFA'), 'not-quiet', lambda: '%s prints without verbose: %r' % (spec.name, q0.text[:80]))
    rec.case(spec.name, str(dt), seed)


class Double(mdp.parallel.TaskCallable):
    def __call__(self, data):
        return data * 2


@CHECK.scenario(quick=120, thorough=1500)
def verbose_containers(rng, rec):
    """Flows, schedulers, extensions and the cache, with and without progress output."""
    seed = rng.randint(1 << 30)
    X = C.smooth_mix(rng, 120, 4)
    x = X[:11].copy()
    kind = rng.randint(9)
    bad = rng.rand() < 0.2      # the second node fails

    class Fails(mdp.Node):
        def _train(self, x):
            raise ValueError('on purpose')
    res = []
    texts = []
    marks = []
    for v in (False, True):
        seedall(seed)
        nodes = [mdp.nodes.PCANode(), mdp.nodes.SFANode(), mdp.nodes.NoiseNode()]
        if bad and kind in (0, 1, 2, 3):
            nodes[1] = Fails()
        data = [[X[:60].copy(), X[60:].copy()]] * 3
        with Quiet() as q:
            try:
                if kind == 0:
                    f = mdp.Flow(nodes, verbose=v)
                    f.train(data)
                    y = f.execute(x)
                elif kind == 1:
                    f = mdp.CheckpointFlow(nodes, verbose=v)
                    seen = []
                    f.train(data, [lambda node: seen.append(type(node).__name__)] * 3)
                    y = f.execute(x)
                    marks.append(seen)
                elif kind == 2:
                    f = mdp.parallel.ParallelFlow(nodes, verbose=v)
                    with mdp.parallel.Scheduler(verbose=v) as s:
                        f.train(data, scheduler=s)
                        y = f.execute([x, x], scheduler=s)
                elif kind == 3:
                    f = bimdp.BiFlow(nodes, verbose=v)
                    f.train(data)
                    y = f.execute(x)[0]
                elif kind == 4:
                    f = mdp.OnlineFlow([mdp.nodes.OnlineCenteringNode(),
                                        mdp.nodes.CCIPCANode(output_dim=3, numx_rng=np.random.RandomState(5))], verbose=v)
                    f.train(X)
                    y = f.execute(x)
                elif kind == 5:
                    f = mdp.CircularOnlineFlow([mdp.nodes.OnlineCenteringNode(),
                                                mdp.nodes.CCIPCANode(output_dim=4, numx_rng=np.random.RandomState(5))], verbose=v)
                    f.set_flow_iterations(2)
                    f.train(X)
                    y = f.execute(x)
                elif kind == 6:
                    n = mdp.nodes.PCANode()
                    n.train(X)
                    mdp.activate_extension('parallel', verbose=v)
                    try:
                        g = n.fork()
                        g.train(X[:50])
                        n.join(g)
                    finally:
                        mdp.deactivate_extension('parallel', verbose=v)
                    mdp.activate_extensions(['gradient', 'parallel'], verbose=v)
                    mdp.deactivate_extensions(['gradient', 'parallel'], verbose=v)
                    rec.require(mdp.get_active_extensions() == [], 'verbose-differs', 'extensions left active')
                    y = n.execute(x)
                elif kind == 7:
                    n = mdp.nodes.PCANode()
                    n.train(X)
                    n.stop_training()
                    with mdp.caching.cache(verbose=10 if v else 0):
                        y = n.execute(x)
                        y = n.execute(x)
                else:
                    s = [mdp.parallel.Scheduler, mdp.parallel.ThreadScheduler][seed % 2](verbose=v)
                    try:
                        for i in range(4):
                            s.add_task(x + i, Double())
                        y = np.vstack(s.get_results())
                    finally:
                        s.shutdown()
            except mdp.FlowException as e:
                y = np.array([type(e).__name__])
            except ValueError as e:
                y = np.array([str(e)])
        res.append(np.array(y))
        texts.append(q.text)
    rec.event('verbose_runs')
    rec.event('lines_printed', texts[1].count('\n'))
    rec.require(same(res[0], res[1]), 'verbose-differs', lambda: 'container kind %d (failing node: %s): verbose=True changes the result: %s %s' % (kind, bad, res[0][:1], res[1][:1]))
    rec.require(not marks or marks[0] == marks[-1], 'verbose-differs', 'checkpoints called: %s' % marks)
    rec.require(texts[0] == '', 'not-quiet', lambda: 'container kind %d prints without verbose: %r' % (kind, texts[0][:80]))
    rec.case(kind, bad, seed)


@CHECK.scenario(quick=80, thorough=900)
def composite_rng(rng, rec):
    """A generator given to an online layer or flow node (constructor or set_numx_rng) is the one all nodes inside draw
    from, wherever they are nested; their draws equal those of the same nodes trained by hand."""
    d = rng.randint(2, 4)
    kind = ['OnlineLayer', 'SameInputOnlineLayer', 'CloneOnlineLayer', 'OnlineFlowNode', 'CircularOnlineFlowNode',
            'nested'][rng.randint(6)]
    way = ['constructor', 'setter', 'attribute', 'nodes'][rng.randint(4)]
    seed = rng.randint(1 << 30)
    size = rng.randint(1, 4)
    classes = [[mdp.nodes.CCIPCANode, mdp.nodes.MCANode][rng.randint(2)] for _ in range(size)]

    def build(r, inner, disturb):
        """-> composite, the inner nodes, hand(x) training them."""
        ns = [c(input_dim=d, output_dim=d, **({'numx_rng': r} if inner else {})) for c in classes]
        for n in ns:
            n.set_training_type('incremental')
        kw = {'numx_rng': r} if way == 'constructor' and not inner else {}
        if kind in ('OnlineLayer', 'nested'):
            comp = mdp.hinet.OnlineLayer(ns, **({} if kind == 'nested' else kw))
            if kind == 'nested':
                comp = mdp.hinet.OnlineFlowNode(mdp.OnlineFlow([mdp.nodes.OnlineCenteringNode(input_dim=d * size), comp]), **kw)
        elif kind == 'SameInputOnlineLayer':
            comp = mdp.hinet.SameInputOnlineLayer(ns, **kw)
        elif kind == 'CloneOnlineLayer':
            ns = ns[:1]
            comp = mdp.hinet.CloneOnlineLayer(ns[0], size, **kw)
        elif kind == 'OnlineFlowNode':
            comp = mdp.hinet.OnlineFlowNode(mdp.OnlineFlow(ns), **kw)
        else:
            comp = mdp.hinet.CircularOnlineFlowNode(mdp.CircularOnlineFlow(ns), **kw)
        if not inner:
            if way == 'setter':
                comp.set_numx_rng(r)
            elif way == 'attribute':
                comp.numx_rng = r
        return comp, ns

    din = d if kind in ('SameInputOnlineLayer', 'OnlineFlowNode', 'CircularOnlineFlowNode') else d * size
    X = rng.randn(rng.randint(2, 9), din)
    where = '%s of %s, generator by %s' % (kind, [c.__name__ for c in classes], way)
    seedall(rng.randint(1 << 30))
    g0 = gstate()
    r1 = np.random.RandomState(seed)
    comp, ns = build(r1, way == 'nodes', True)
    if way != 'nodes':
        rec.require(comp.numx_rng is r1 and comp.get_numx_rng() is r1, 'not-stored', where)
    rec.require(all(n.numx_rng is r1 for n in ns), 'not-shared', where)
    comp.train(X.copy())
    rec.require(all(n.numx_rng is r1 for n in ns), 'replaced-by-training', where)
    if way != 'nodes':
        rec.require(comp.numx_rng is r1, 'replaced-by-training', where)
        g1 = gstate()
        rec.require(g0 == g1 if not isinstance(g0, tuple) else repr(g0) == repr(g1), 'global-state', where)
    # by hand, with a generator in the same state
    r2 = np.random.RandomState(seed)
    _, hs = build(r2, True, False)
    cen = mdp.nodes.OnlineCenteringNode(input_dim=din) if kind == 'nested' else None
    for x in X:
        x = x[None]
        if cen is not None:
            cen.train(x)
            x = cen.execute(x)
        if kind in ('OnlineFlowNode', 'CircularOnlineFlowNode'):
            for n in hs:
                n.train(x)
                x = n.execute(x)
        elif kind == 'SameInputOnlineLayer':
            for n in hs:
                n.train(x)
        else:
            for i in range(size):
                (hs[0] if kind == 'CloneOnlineLayer' else hs[i]).train(x[:, i * d:(i + 1) * d])
    for i, (a, b) in enumerate(zip(ns, hs)):
        rec.require(same(a.v, b.v), 'draws-differ', '%s: node %d' % (where, i))
    rec.require(repr(r1.get_state()) == repr(r2.get_state()), 'generator-state', where)
    for bad in (3, 'seed', np.random):
        try:
            comp.set_numx_rng(bad)
            err = None
        except Exception as e:
            err = e
        rec.require(isinstance(err, mdp.OnlineNodeException), 'bad-generator', lambda: '%s: %r gave %r' % (where, bad, err))
        rec.require(all(n.numx_rng is r1 for n in ns), 'refused-but-set', where)
    rec.event('composite_generators')
    rec.case(kind, way, [c.__name__ for c in classes], d, len(X), seed)
