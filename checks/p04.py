"""P04 execution is a repeatable row-wise function that leaves the node unchanged."""
import random
import numpy as np
import mdp
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P04', 'A case is one trained node and one history of execute / inverse / label / prob / rank '
              'calls on subsets, permutations, duplications, splits and far-away rows; every answer is '
              'compared row by row with the answer for the full batch. Distinct by node, number type, '
              'kind of row selection and position in the history.')
CHECK.expect_events(rows_compared=5000, calls_observed=2000)


def seedall(s):
    np.random.seed(s)
    random.seed(s)


def selections(rng, n, minexec):
    """(kind, index array) of row selections."""
    out = [('repeat', np.arange(n)), ('perm', rng.permutation(n)),
           ('single', np.array([rng.randint(n)])),
           ('subset', np.sort(rng.choice(n, size=rng.randint(1, n + 1), replace=False))),
           ('dup', rng.randint(n, size=n + 5)), ('reverse', np.arange(n)[::-1]),
           ('head', np.arange(rng.randint(1, n + 1))), ('twice', np.r_[np.arange(n), np.arange(n)])]
    if n * 8 < 3000:
        out.append(('big', rng.randint(n, size=8 * n)))
    return out


def tol_for(spec, dt):
    return 2e-3 if dt == np.dtype('f') else 1e-7


def methods(spec, node):
    ms = [('execute', lambda x: spec.run(node, x), 'x')]
    if spec.classifier:
        for m in ('label', 'prob', 'rank'):
            ms.append((m, getattr(node, m), 'x'))
    return ms


def norm_out(y, i=None):
    return np.asarray(y) if not isinstance(y, list) or (y and not isinstance(y[0], (dict, list))) else list(y)


def same(a, b, tol):
    if isinstance(a, list):
        for u, v in zip(a, b):
            if isinstance(u, dict):
                if set(u) != set(v) or any(abs(u[k] - v[k]) > max(tol, 1e-6) and not (np.isnan(u[k]) and np.isnan(v[k]))
                                           for k in u):
                    return False
            elif list(u) != list(v):
                return False
        return len(a) == len(b)
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'fc':
        return C.close(a, b, tol)
    return np.array_equal(a, b)


def take(y, idx):
    return [y[i] for i in idx] if isinstance(y, list) else y[idx]


ROWWISE = [(s.name, s) for s in C.SPECS if s.rowwise and not s.rexec and not s.stateful_exec]


@CHECK.each(ROWWISE, quick=30, thorough=400)
def rowwise(rng, rec, spec):
    dt = np.dtype(spec.dtypes[rng.randint(len(spec.dtypes))])
    node, X, E = spec.trained(rng, dt, seed=rng.randint(1 << 30))
    n = rng.randint(5, 25)
    x = spec.xin(rng, n, dt)
    if rng.rand() < 0.3 and 'RBM' not in spec.name:
        x = (x * 3).astype(dt)
    if spec.exec_extra is not None and spec.name == 'RBMLabels':
        raise Skip()
    tol = tol_for(spec, dt)
    ms = []
    for name, f, kind in methods(spec, node):
        try:
            ms.append((name, f, norm_out(f(x.copy()))))
        except (NotImplementedError, AttributeError) as e:
            if name == 'execute':
                raise
    inv = None
    y0 = ms[0][2]
    if node.is_invertible() and spec.out == 'node' and spec.inv:
        inv = node.inverse(y0.copy())
    ga = [np.array(g) for g in spec.getters(node)] if spec.getters else []
    rec.event('calls_observed', len(ms))
    sels = selections(rng, n, spec.minexec)
    rng.shuffle(sels)
    for kind, idx in sels[:5]:
        idx = np.asarray(idx)
        for name, f, full in ms:
            got = norm_out(f(x[idx]))
            rec.event('calls_observed')
            rec.event('rows_compared', len(idx))
            rec.require(same(got, take(full, idx), tol), 'row-dependent',
                        lambda: '%s.%s (%s): rows %s of a batch of %d give different results (diff %s)' % (
                            spec.name, name, dt, kind, n,
                            C.maxdiff(got, take(full, idx)) if isinstance(got, np.ndarray) and got.dtype.kind == 'f' else '?'))
        if inv is not None:
            got = node.inverse(y0[idx])
            rec.event('calls_observed')
            rec.event('rows_compared', len(idx))
            rec.require(C.close(got, inv[idx], tol), 'row-dependent-inverse',
                        lambda: '%s.inverse (%s) rows %s: diff %g' % (spec.name, dt, kind, C.maxdiff(got, inv[idx])))
        rec.case(spec.name, str(dt), kind, rng.randint(1 << 30))
    # exact repetition at the end of the history
    for name, f, full in ms:
        got = norm_out(f(x.copy()))
        rec.event('rows_compared', n)
        rec.require(same(got, full, 0 if name != 'prob' else 1e-12), 'not-repeatable',
                    '%s.%s gives another answer after other calls' % (spec.name, name))
    for a, b in zip(ga, spec.getters(node) if spec.getters else []):
        rec.require(np.array_equal(a, np.asarray(b), equal_nan=True), 'state-changed', spec.name)


STATEFUL = [(s.name, s) for s in C.SPECS if not s.stateful_exec and (s.rexec or not s.rowwise)]


@CHECK.each(STATEFUL, quick=20, thorough=300)
def repeatable(rng, rec, spec):
    dt = np.dtype(spec.dtypes[rng.randint(len(spec.dtypes))])
    node, X, E = spec.trained(rng, dt, seed=rng.randint(1 << 30))
    x = spec.xin(rng, rng.randint(9, 25), dt)
    seed = rng.randint(1 << 30)
    seedall(seed)
    y = spec.run(node, x)
    for k in range(3):
        for _ in range(rng.randint(3)):
            spec.run(node, spec.xin(rng, rng.randint(9, 15), dt))
            rec.event('calls_observed')
        seedall(seed)
        y2 = spec.run(node, x.copy())
        rec.event('rows_compared', len(y))
        rec.event('calls_observed')
        rec.require(np.array_equal(y, y2), 'not-repeatable', '%s: repeated call differs' % spec.name)
    rec.case(spec.name, str(dt), seed)


# the learned state as seen by every attribute, before and after use
def snapshot(obj, depth=0, seen=None):
    """Hashable image of all arrays / numbers reachable from an object."""
    seen = {} if seen is None else seen
    if id(obj) in seen or depth > 8:
        return '...'
    if obj is None or isinstance(obj, (int, float, str, bool, complex, bytes)):
        return repr(obj)
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return tuple(snapshot(o, depth + 1, seen) for o in obj.ravel())
        return (obj.shape, obj.dtype.str, obj.tobytes())
    if isinstance(obj, np.generic):
        return repr(obj)
    seen[id(obj)] = 1
    if isinstance(obj, dict):
        return tuple(sorted(((repr(k), snapshot(v, depth + 1, seen)) for k, v in obj.items()),
                            key=lambda t: t[0]))
    if isinstance(obj, (list, tuple, set, frozenset)):
        return tuple(snapshot(o, depth + 1, seen) for o in obj)
    if isinstance(obj, (mdp.Node, mdp.Flow, mdp.graph.Graph, mdp.graph.GraphNode, mdp.graph.GraphEdge)) or \
            type(obj).__module__.startswith('mdp.utils.cov'):
        return (type(obj).__name__, snapshot(vars(obj), depth + 1, seen))
    return type(obj).__name__


# attributes that are caches by design (projection matrices computed on first use ...)
@CHECK.each([(s.name, s) for s in C.SPECS if not s.stateful_exec], quick=8, thorough=100)
def second_use(rng, rec, spec):
    """After a first use, further uses leave every attribute of the node as it is."""
    dt = np.dtype(spec.dtypes[rng.randint(len(spec.dtypes))])
    node, X, E = spec.trained(rng, dt, seed=rng.randint(1 << 30))

    def use(x):
        y = spec.run(node, x)
        if spec.classifier:
            for m in ('label', 'prob', 'rank'):
                try:
                    getattr(node, m)(x)
                except NotImplementedError:
                    pass
        if node.is_invertible() and spec.out == 'node' and spec.inv:
            node.inverse(y)
        rec.event('calls_observed')
        rec.event('rows_compared', len(x))
    use(spec.xin(rng, 10, dt))
    # results, not the private attributes, decide (a node may memoize)
    probe = spec.xin(rng, 12, dt)
    s = rng.randint(1 << 30)
    cp = node.copy() if spec.name != 'LibSVM' else node
    s0 = snapshot(node)
    for _ in range(rng.randint(1, 4)):
        use(spec.xin(rng, rng.randint(9, 20), dt))
    changed = snapshot(node) != s0
    rec.event('state_images_compared')
    seedall(s)
    a = spec.run(node, probe)
    seedall(s)
    b = spec.run(cp, probe)
    rec.require(C.maxdiff(a, b) == 0, 'state-changed', '%s: using the node changed its later results%s' % (
        spec.name, ' (attributes changed too)' if changed else ''))
    if not spec.stateful_exec:
        rec.event('attribute_changes_on_use', int(changed))
    rec.case(spec.name, str(dt), s)


@CHECK.scenario(quick=120, thorough=1500)
def composed(rng, rec):
    """Flows, layers and nested flow nodes inherit row-wise execution."""
    pool = [C.BY_NAME[k] for k in ('PCA', 'Whitening', 'SFA', 'Quadratic', 'Normalize', 'Cutoff', 'Identity',
                                   'CuBICA', 'LinReg', 'Histogram')]
    k = rng.randint(1, 4)
    nodes = []
    sup = []
    X = C.smooth_mix(rng, 200, 3)
    x = X
    for _ in range(k):
        s = pool[rng.randint(len(pool))]
        if s.name == 'Quadratic' and x.shape[1] > 6:
            continue
        nd = s.make()
        if nd.is_trainable():
            s.feed(nd, [(x, None if s.extra is None else x[:, :2] * 2)])
        x = nd.execute(x)
        nodes.append(nd)
    if not nodes:
        raise Skip()
    flow = mdp.Flow(nodes)
    form = rng.randint(3)
    obj = flow if form == 0 else mdp.hinet.FlowNode(flow) if form == 1 else \
        mdp.hinet.SameInputLayer([mdp.hinet.FlowNode(flow), mdp.nodes.IdentityNode(input_dim=3)])
    q = C.smooth_mix(rng, rng.randint(4, 30), 3)
    y = obj.execute(q)
    sc = C.scale(y)
    if sc > 1e5:
        raise Skip('numeric')
    for kind, idx in selections(rng, len(q), 1):
        got = obj.execute(q[idx])
        rec.event('calls_observed')
        rec.event('rows_compared', len(idx))
        rec.require(C.close(got, y[idx], 1e-7), 'row-dependent', '%s rows %s' % (obj, kind))
    if form == 0:
        parts = [q[i:i + 3] for i in range(0, len(q), 3)]
        rec.require(C.close(obj.execute(parts), y, 1e-7), 'row-dependent', 'flow over an iterator')
    rec.require(np.array_equal(obj.execute(q), y), 'not-repeatable', repr(obj))
    rec.case(form, [type(n).__name__ for n in nodes], rng.randint(1 << 30))
