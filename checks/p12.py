"""P12 caching is transparent."""
import os
import shutil
import tempfile
import numpy as np
import mdp
import mdp.nodes as mn
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P12', 'A case is a node (every node class without documented side effects on execution) with a random history '
              'of executions, alterations, further training and cache configuration changes; every result is compared '
              'with that of an identical uncached twin and every computation is counted against a model of what '
              'may be served from the cache. Distinct by node, history and seed.')
CHECK.expect_events(executions_compared=1500, served=300, computed=400, reconfigurations=150, alterations=100)

_count = [0]


class Counted(object):
    """Counts real computations of one node class."""

    def __init__(self, cls):
        self.cls = cls
        self.n = 0

    def __enter__(self):
        self.owner = [k for k in self.cls.__mro__ if '_execute' in k.__dict__][0]
        self.orig = self.owner.__dict__['_execute']
        orig = self.orig
        me = self

        def _execute(self, *a, **k):
            if isinstance(self, me.cls):
                me.n += 1
            return orig(self, *a, **k)
        _execute.__doc__ = orig.__doc__
        self.owner._execute = _execute
        return self

    def __exit__(self, *a):
        self.owner._execute = self.orig


def twin(node):
    return node.copy()


def arrays(node, depth=0):
    """(dict, key) of float arrays in the state of a node."""
    out = []
    for k, v in sorted(node.__dict__.items()):
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size:
            out.append((node.__dict__, k))
        elif isinstance(v, mdp.Node) and depth < 2:
            out += arrays(v, depth + 1)
        elif isinstance(v, (list, tuple)) and depth < 2:
            for e in v:
                if isinstance(e, mdp.Node):
                    out += arrays(e, depth + 1)
    return out


def same(y, yr):
    # copies may differ in memory layout, hence in rounding
    return y.shape == yr.shape and y.dtype == yr.dtype and (np.array_equal(y, yr, equal_nan=True) or
                                                            C.maxdiff(y, yr) <= (1e-5 if y.dtype.char == 'f' else 1e-10) * C.scale(yr))


def variants(rng, x, dtypes):
    r = rng.randint(6)
    if r == 0:
        return np.asfortranarray(x)
    if r == 1:
        return np.repeat(x, 2, axis=0)[::2]
    if r == 2:
        return x.copy()
    if r == 3 and 'f' in dtypes:
        return x.astype('f')
    return x


STATEFUL = ('TimeDelaySW', 'Eta', 'HitParade', 'Noise', 'NormalNoise', 'RBM', 'RBM_probs', 'RBMLabels', 'OnlineTimeDiff')
SPECS = [s for s in C.SPECS if not s.stateful_exec and not s.rexec and s.name not in STATEFUL]


@CHECK.each([(s.name, s) for s in SPECS], quick=8, thorough=100, timeout=200)
def nodes(rng, rec, spec):
    """Random histories, compared with an uncached twin."""
    node, X, E = spec.trained(rng, seed=7)
    spec.run(node, spec.xin(rng))
    try:
        ref = twin(node)
    except Exception:
        if spec.name == 'LibSVM':
            # not copyable (P06): only the plain call is judged
            x = spec.xin(rng)
            y = spec.run(node, x)
            with mdp.caching.cache():
                try:
                    ok = np.array_equal(spec.run(node, x), y)
                except Exception as e:
                    rec.fail('unpicklable', '%s cannot be executed with caching: %r' % (spec.name, e))
                    return
            rec.require(ok, 'wrong-output', spec.name)
            rec.case(spec.name)
            return
        raise
    cls = type(node)
    own = type(node).execute
    pool = [spec.xin(rng, n=int(rng.randint(12 if 'Time' in spec.name else 1, 30))) for _ in range(3)]
    root = tempfile.mkdtemp(prefix='vp12')
    dirs = [os.path.join(root, d) for d in 'ab']
    C_ = mdp.caching
    on = False
    mode = None
    seen = {}          # dir -> set of keys
    version = 0
    warm = set()
    cur = None
    hist = []
    try:
        with Counted(cls) as cnt:
            for step in range(rng.randint(8, 20)):
                op = rng.choice(['exec'] * 12 + ['on', 'on', 'off', 'dir', 'alter', 'alter', 'inst'])
                where = '%s after %s' % (spec.name, hist[-8:])
                if op == 'exec':
                    x = variants(rng, pool[rng.randint(3)], spec.dtypes)
                    x0 = x.copy()
                    a = cnt.n
                    y = spec.run(node, x)
                    used = cnt.n - a
                    yr = spec.run(ref, x)
                    rec.event('executions_compared')
                    rec.require(np.array_equal(x, x0), 'input-altered', where)
                    rec.require(same(y, yr), 'wrong-output',
                                lambda: '%s: differs from the uncached result by %g' % (where, C.maxdiff(y, yr)))
                    if on:
                        key = (cur, version, x.tobytes(), x.dtype.char, x.shape, x.strides)
                        # the first execution may still change the state of contained nodes
                        if key in seen and mode != 'off':
                            rec.require(used == 0, 'not-cached', '%s: computed again (mode %s)' % (where, mode))
                            rec.event('served')
                        elif used:
                            rec.event('computed')
                        if mode == 'off':
                            rec.require(used >= 1, 'cached-uninvited', where)
                        elif used == 0 or (cur, version) in warm:
                            seen[key] = 1
                        warm.add((cur, version))
                    else:
                        rec.require(used >= 1, 'cached-uninvited', '%s: nothing computed without caching' % where)
                        rec.event('computed')
                    # the result belongs to the caller
                    if y.flags.writeable:
                        y[...] = 0
                elif op == 'on':
                    mode = ['global', 'class', 'instance', 'off', 'other'][rng.choice(5, p=[.4, .2, .2, .1, .1])]
                    if on:
                        C_.deactivate_caching()
                    d = [None, dirs[0], dirs[1]][rng.randint(3)]
                    kw = dict(cachedir=d)
                    if mode == 'class':
                        kw['cache_classes'] = [mn.CutoffNode, cls]
                    elif mode == 'instance':
                        kw['cache_instances'] = [node]
                    elif mode == 'off':
                        kw['cache_classes'] = [mdp.ClassifierNode]
                    elif mode == 'other':
                        kw['cache_instances'] = [ref.copy()]
                    mode = 'off' if mode == 'other' else mode
                    C_.activate_caching(**kw)
                    cur = d if d else object()
                    on = True
                    rec.event('reconfigurations')
                    rec.require(node.is_cached() == (mode != 'off'), 'wrong-selection', '%s: %s' % (where, mode))
                elif op == 'off':
                    C_.deactivate_caching()
                    on = False
                    rec.event('reconfigurations')
                elif op == 'dir' and on:
                    d = [None, dirs[0], dirs[1]][rng.randint(3)]
                    C_.set_cachedir(d)
                    cur = d if d else object()
                    rec.event('reconfigurations')
                elif op == 'inst' and on and mode == 'off':
                    node.set_instance_cache(True)
                    if rng.rand() < 0.5:
                        node.set_instance_cache(True)
                    rec.require(node.is_cached(), 'wrong-selection', where)
                    mode = 'instance'
                    if rng.rand() < 0.5:
                        node.set_instance_cache(False)
                        rec.require(not node.is_cached(), 'wrong-selection', where)
                        mode = 'off'
                elif op == 'alter':
                    ks = list(zip(arrays(node), arrays(ref)))
                    if not ks:
                        continue
                    (d1, k1), (d2, k2) = ks[rng.randint(len(ks))]
                    if rng.rand() < 0.5:
                        d1[k1] = d1[k1] * 1.25
                        d2[k2] = d2[k2] * 1.25
                    else:
                        for d in (d1[k1], d2[k2]):
                            if d.flags.writeable:
                                d.flat[0] += 0.5
                    version += 1
                    rec.event('alterations')
                hist.append(op if op != 'on' else op + ':' + str(mode))
    finally:
        C_.deactivate_caching()
        shutil.rmtree(root, ignore_errors=True)
    rec.require('cache_execute' not in mdp.get_active_extensions(), 'still-active', spec.name)
    rec.require(type(node).execute is own, 'not-restored', spec.name)
    a = spec.run(node, pool[0])
    rec.require(same(a, spec.run(ref, pool[0])), 'wrong-output', spec.name + ' after deactivation')
    rec.case(spec.name, str(hist), rng.randint(1 << 30))


class Scale(mdp.Node):
    """A node whose result depends on state, arguments and number type."""
    def __init__(self, k=1.0, **kw):
        super(Scale, self).__init__(**kw)
        self.k = k
        self.n = 0
        self.extra = {}

    def _train(self, x):
        self.n += x.sum()

    def _execute(self, x, add=0, mode='p'):
        _count[0] += 1
        return x * self.refcast(np.array(self.k)) + self.n + add + (7 if mode == 'q' else 0)

    def refcast(self, a):
        return self._refcast(a)


class Sub(Scale):
    """Same state, other behaviour."""
    def _execute(self, x, add=0, mode='p'):
        _count[0] += 1
        return -(x * self.k) - self.n - add


@CHECK.scenario(quick=200, thorough=3000)
def state_and_arguments(rng, rec):
    """Different nodes of equal or different state, arguments, number types
    and unfinished training, all sharing one cache."""
    root = tempfile.mkdtemp(prefix='vp12')
    nodes = []
    for i in range(5):
        cls = [Scale, Sub][rng.randint(2)]
        nodes.append(cls(k=float(rng.randint(1, 3)), dtype=['d', 'f', None][rng.randint(3)]))
    for n in nodes:
        n.train(np.ones((2, 2), dtype='f' if n.dtype is not None and n.dtype.char == 'f' else 'd'))
    known = {}
    xs = [np.arange(4.).reshape(2, 2), np.arange(4.).reshape(2, 2) + 1]
    try:
        with mdp.caching.cache(cachedir=root):
            for step in range(rng.randint(10, 30)):
                i = int(rng.randint(5))
                n = nodes[i]
                op = rng.choice(['exec'] * 8 + ['train', 'k', 'copy', 'extra'])
                if op == 'train' and n.is_training():
                    n.train(np.full((1, 2), float(rng.randint(1, 3)), dtype=n.dtype))
                elif op == 'k':
                    n.k = float(rng.randint(1, 4))
                    rec.event('alterations')
                elif op == 'extra':
                    n.extra['a'] = float(rng.randint(3))
                    rec.event('alterations')
                elif op == 'copy':
                    j = int(rng.randint(5))
                    nodes[j] = n.copy()
                else:
                    x = xs[rng.randint(2)].astype(n.dtype)
                    a = {}
                    args = ()
                    r = rng.randint(4)
                    if r == 1:
                        a['add'] = float(rng.randint(2))
                    elif r == 2:
                        args = (float(rng.randint(2)),)
                    elif r == 3:
                        a = dict(mode='pq'[rng.randint(2)], add=1.0)
                    add = a.get('add', args[0] if args else 0)
                    k, s = n.k, n.n
                    e = (x * k + s + add + (7 if a.get('mode') == 'q' else 0)) if type(n) is Scale else -(x * k) - s - add
                    was = n.is_training()
                    before = _count[0]
                    if rng.rand() < 0.2:
                        y = n(x, *args, **a)
                    else:
                        y = n.execute(x, *args, **a)
                    rec.require(not n.is_training(), 'wrong-stage', 'training still open after execution')
                    rec.event('executions_compared')
                    key = (type(n), k, float(s), str(sorted(n.extra.items())), x.tobytes(), n.dtype.char, args, str(sorted(a.items())))
                    rec.require(np.allclose(y, e, atol=0) and y.dtype == n.dtype, 'wrong-output',
                                lambda: '%s k=%s n=%s x=%s args %s %s (was training %s): %s, expected %s' % (type(n).__name__, k, s, x, args, a, was, y, e))
                    if key in known and known[key] is n:
                        # n.k etc. are unchanged since, but the node object may
                        # have been altered and put back: still known data
                        rec.require(_count[0] == before, 'not-cached', 'computed again: %s' % (key,))
                        rec.event('served')
                    elif _count[0] > before:
                        rec.event('computed')
                    known[key] = n
                    # refused inputs are refused all the same
                    if rng.rand() < 0.2:
                        try:
                            n.execute(np.ones((2, 3)))
                            rec.fail('accepted', 'wrong dimension')
                        except mdp.NodeException:
                            pass
        rec.require(mdp.get_active_extensions() == [], 'still-active', '')
        n = nodes[0]
        b = _count[0]
        for _ in range(2):
            n.execute(xs[0].astype(n.dtype))
        rec.require(_count[0] == b + 2, 'cached-uninvited', 'after leaving the context')
    finally:
        mdp.caching.deactivate_caching()
        shutil.rmtree(root, ignore_errors=True)
    rec.case(str(sorted(map(str, known)))[:3000], rng.randint(1 << 30))


@CHECK.scenario(quick=40, thorough=400)
def persistence(rng, rec):
    """A cache directory keeps its content over sessions and only there."""
    root = tempfile.mkdtemp(prefix='vp12')
    dirs = [os.path.join(root, 'a', 'b'), os.path.join(root, 'c')]
    n = Scale(k=2.0, dtype='d')
    n.train(np.ones((2, 2)))
    n.stop_training()
    known = set()
    try:
        for _ in range(rng.randint(3, 9)):
            d = int(rng.randint(3))
            x = np.full((2, 2), float(rng.randint(3)))
            k = n.k = float(rng.randint(1, 3))
            err = rng.rand() < 0.3
            how = rng.randint(3)
            try:
                if how == 0:
                    mdp.caching.activate_caching(cachedir=dirs[d] if d < 2 else None)
                    b = _count[0]
                    y = n.execute(x)
                    mdp.caching.deactivate_caching()
                else:
                    with mdp.caching.cache(cachedir=dirs[d] if d < 2 else None):
                        b = _count[0]
                        y = n.execute(x)
                        if err:
                            raise KeyError
            except KeyError:
                pass
            rec.require(mdp.get_active_extensions() == [], 'still-active', 'error inside: %s' % err)
            rec.event('executions_compared')
            rec.event('reconfigurations')
            rec.require(np.array_equal(y, x * k + n.n), 'wrong-output', '%s %s' % (y, x))
            key = (d, float(x[0, 0]), k)
            if d < 2:
                rec.require((_count[0] == b) == (key in known), 'not-cached' if key in known else 'wrong-directory',
                            'directory %d: computed %d, known %s' % (d, _count[0] - b, key in known))
                rec.event('served' if key in known else 'computed')
                known.add(key)
                rec.require(os.path.isdir(dirs[d]), 'wrong-directory', 'nothing stored')
            else:
                rec.require(_count[0] == b + 1, 'wrong-directory', 'temporary cache knows old data')
        # plain activation of the extension works too
        with mdp.extension('cache_execute'):
            rec.require(np.array_equal(n.execute(x), x * n.k + n.n), 'wrong-output', 'by extension name')
    finally:
        mdp.caching.deactivate_caching()
        mdp.caching.set_cachedir(None)
        shutil.rmtree(root, ignore_errors=True)
    rec.case(str(sorted(known)), rng.randint(1 << 30))


@CHECK.scenario(quick=30, thorough=300)
def flows(rng, rec):
    """Training and executing flows and layers with caching on."""
    def mk():
        parts = [mn.PCANode(), mn.SFANode()]
        lay = mdp.hinet.Layer([mn.PCANode(input_dim=2), mdp.hinet.FlowNode(mdp.Flow([mn.WhiteningNode(input_dim=2), mn.QuadraticExpansionNode()]))])
        return [parts, [lay, mn.SFA2Node(output_dim=2)], [mdp.hinet.CloneLayer(mn.SFANode(input_dim=2), 2), mn.PCANode()]][kind]
    kind = rng.randint(3)
    X = [C.smooth_mix(rng, 60, 4) for _ in range(rng.randint(1, 4))]
    probe = C.smooth_mix(rng, 12, 4)
    par = rng.rand() < 0.3
    ref = mdp.Flow(mk())
    ref.train([list(X)] * 2)
    yr = ref.execute(probe)
    mode = rng.randint(3)
    kw = [{}, dict(cache_classes=[mn.PCANode, mn.SFANode, mdp.hinet.Layer]), {}][mode]
    flow = (mdp.parallel.ParallelFlow if par else mdp.Flow)(mk())
    if mode == 2:
        kw['cache_instances'] = [flow[0]]
    with mdp.caching.cache(**kw):
        flow.train([list(X)] * 2, **(dict(scheduler=mdp.parallel.Scheduler()) if par else {}))
        for _ in range(3):
            y = flow.execute(probe)
            rec.require(np.array_equal(np.abs(y), np.abs(yr)) or np.allclose(np.abs(y), np.abs(yr), atol=1e-6), 'wrong-output', 'kind %d, mode %d, parallel %s' % (kind, mode, par))
            rec.event('executions_compared')
        parts = list(flow.execute([p for p in np.array_split(probe, 3)]))
        rec.require(np.allclose(np.vstack(parts), y), 'wrong-output', 'chunks')
        if all(n.is_invertible() for n in flow):
            rec.require(np.allclose(flow.inverse(y), flow.inverse(y)), 'wrong-output', 'inverse')
    y2 = flow.execute(probe)
    rec.require(np.array_equal(y, y2), 'wrong-output', 'after caching')
    rec.case(kind, mode, par, rng.randint(1 << 30))


@CHECK.scenario(quick=150, thorough=2000)
def selection(rng, rec):
    """What is cached is decided by the activation in force alone: a past
    choice of classes or instances is forgotten with its deactivation."""
    root = tempfile.mkdtemp(prefix='vp12')
    nodes = []
    for i in range(4):
        n = [Scale, Sub][i % 2](k=float(i + 1), dtype='d')
        n.train(np.ones((2, 2)))
        n.stop_training()
        nodes.append(n)
    hist = []

    def judge(sel, where):
        for i in rng.permutation(4):
            n = nodes[i]
            x = rng.randn(3, 2)
            b = _count[0]
            y = n.execute(x)
            first = _count[0] - b
            b = _count[0]
            y2 = n.execute(x)
            second = _count[0] - b
            e = x * n.k + n.n if type(n) is Scale else -(x * n.k) - n.n
            rec.event('executions_compared', 2)
            rec.require(np.allclose(y, e) and np.array_equal(y, y2), 'wrong-output', where)
            rec.require(first == 1, 'cached-uninvited', '%s: node %d: new data were not computed' % (where, i))
            rec.require(second == (0 if sel(n) else 1), 'not-cached' if sel(n) else 'cached-uninvited',
                        '%s: node %d (%s): second execution computed %d times' % (where, i, type(n).__name__, second))
            rec.event('served' if sel(n) else 'computed')
    try:
        for _ in range(rng.randint(2, 7)):
            d = os.path.join(root, 'ab'[rng.randint(2)]) if rng.rand() < 0.5 else None
            how = ['global', 'classes', 'instances', 'both', 'name', 'name_with', 'empty', 'none'][rng.randint(8)]
            hist.append(how)
            where = 'activations %s' % hist
            kw = dict(cachedir=d)
            chosen = [nodes[i] for i in range(4) if rng.rand() < 0.4]
            if how in ('classes', 'both'):
                kw['cache_classes'] = [[Scale], [Sub], [Sub, Scale], [mn.PCANode, Sub]][rng.randint(4)]
            if how in ('instances', 'both'):
                kw['cache_instances'] = chosen
            if how == 'empty':
                kw['cache_classes'] = []
            cc, ci = kw.get('cache_classes') or [], kw.get('cache_instances') or []

            def sel(n):
                if how in ('global', 'name', 'name_with'):
                    return True
                if how == 'none':
                    return False
                return type(n) in cc or any(n is m for m in ci)
            if how == 'none':
                judge(sel, where)
            elif how == 'name':
                mdp.activate_extension('cache_execute')
                judge(sel, where)
                mdp.deactivate_extension('cache_execute')
            elif how == 'name_with':
                with mdp.extension('cache_execute'):
                    judge(sel, where)
            elif rng.rand() < 0.5:
                with mdp.caching.cache(**kw):
                    judge(sel, where)
            else:
                mdp.caching.activate_caching(**kw)
                judge(sel, where)
                if how == 'instances' and rng.rand() < 0.5:
                    # the user's list is not the book-keeping of the extension
                    n0 = len(chosen)
                    nodes[0].set_instance_cache(True)
                    rec.require(len(chosen) == n0, 'user-data', '%s: the list of the user was altered' % where)
                mdp.caching.deactivate_caching()
            rec.event('reconfigurations')
            rec.require(mdp.get_active_extensions() == [], 'still-active', where)
    finally:
        mdp.caching.deactivate_caching()
        mdp.caching.set_cachedir(None)
        shutil.rmtree(root, ignore_errors=True)
    rec.case(hist, rng.randint(1 << 30))
