"""P28 online nodes and flows: recursions, chunkings, interleavings, nested manual replay."""
import collections
import numpy as np
import mdp
import mdp.nodes as mn
from mdp import hinet
from harness.core import Check, Skip, Violation

CHECK = Check('P28', 'A case is one history of train / execute / inverse calls on an online node, online layer, online '
              'flow, circular flow or their flow nodes. Monitors replay the history with independently written '
              'recursions or with nested manual calls on private copies of the nodes, compare outputs, learned state '
              '(deep snapshots) and the order of node calls, and compare snapshots around executions. Distinct by '
              'node or flow make-up, chunking, positions and flags.')
CHECK.expect_events(chunkings=100, recursion_steps=1500, state_snapshots=300, flows_replayed=60,
                    circular_replayed=60, refused=60, node_calls=2000, terminal_nodes=10, layers=40)


# ---------------------------------------------------------------- snapshots

def snap(o, depth=0):
    """A comparable deep picture of what an object has learned."""
    if isinstance(o, np.ndarray):
        return ('arr', o.dtype.str, o.copy())
    if isinstance(o, np.random.RandomState):
        return ('rng',)
    if isinstance(o, (list, tuple, collections.deque)):
        return ('seq', [snap(v, depth + 1) for v in o])
    if isinstance(o, dict):
        return ('map', dict((str(k), snap(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (mdp.Node, mdp.Flow)) or type(o).__module__.startswith('mdp'):
        if depth > 12:
            return ('deep',)
        return ('obj', type(o).__name__, dict((k, snap(v, depth + 1)) for k, v in vars(o).items() if k != 'log'))
    if callable(o):
        return ('fn',)
    if isinstance(o, (int, float, np.number, bool, type(None), str, np.dtype)):
        return ('val', o)
    return ('other', type(o).__name__)


def diff(a, b, tol, path=''):
    """First difference of two snapshots, or None."""
    if a[0] != b[0]:
        return '%s: %s vs %s' % (path, a[0], b[0])
    if a[0] == 'arr':
        if a[2].shape != b[2].shape or a[1] != b[1]:
            return '%s: %s%s vs %s%s' % (path, a[1], a[2].shape, b[1], b[2].shape)
        if a[2].dtype.kind in 'fc':
            if not np.array_equal(a[2], b[2], equal_nan=True) and not np.allclose(
                    a[2], b[2], rtol=tol, atol=tol * (1 + np.abs(b[2]).max(initial=0)), equal_nan=True):
                return '%s: differs by %.3g' % (path, np.abs(a[2] - b[2]).max())
        elif not (a[2] == b[2]).all():
            return '%s differs' % path
        return None
    if a[0] == 'val':
        x, y = a[1], b[1]
        if isinstance(x, (float, np.floating)) and isinstance(y, (float, int, np.floating)):
            return None if np.allclose(x, y, rtol=max(tol, 1e-12), atol=tol, equal_nan=True) else '%s: %r vs %r' % (path, x, y)
        return None if x == y else '%s: %r vs %r' % (path, x, y)
    if a[0] == 'seq':
        if len(a[1]) != len(b[1]):
            return '%s: length %d vs %d' % (path, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, tol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if a[0] in ('map', 'obj'):
        if a[:-1] != b[:-1]:
            return '%s: %s vs %s' % (path, a[1], b[1])
        x, y = a[-1], b[-1]
        if set(x) != set(y):
            return '%s: attributes %s' % (path, sorted(set(x) ^ set(y)))
        for k in sorted(x):
            d = diff(x[k], y[k], tol, path + '.' + k)
            if d:
                return d
        return None
    return None if a == b else '%s: %r vs %r' % (path, a, b)


def same_state(rec, a, b, key, where, tol=0.):
    rec.event('state_snapshots')
    d = diff(snap(a), snap(b), tol)
    rec.require(d is None, key, lambda: '%s: state differs at %s' % (where, d))


def raises(rec, exc, fn, key, where):
    try:
        r = fn()
    except exc:
        rec.event('refused')
        return
    except Exception as e:
        raise Violation(key, '%s raised %s: %s instead of %s' % (where, type(e).__name__, e, exc))
    raise Violation(key, '%s was accepted (returned %r)' % (where, str(r)[:80]))


def close(rec, a, b, key, where, tol):
    a, b = np.asarray(a), np.asarray(b)
    ok = a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * (1 + np.abs(b).max(initial=0)))
    rec.require(ok, key, lambda: '%s: %s vs %s, difference %s' % (
        where, a.shape, b.shape, np.abs(a - b).max() if a.shape == b.shape else '-'))


def chunks_of(rng, X, maxlen=6):
    out, i = [], 0
    while i < len(X):
        n = min(len(X) - i, rng.randint(1, maxlen + 1))
        out.append(X[i:i + n])
        i += n
    return out


def signal(rng, n, d, dtype='d'):
    t = np.cumsum(rng.rand(n) * 0.4)
    X = np.array([np.sin((k + 1) * 0.7 * t + rng.rand() * 6) * (1 + rng.rand()) for k in range(d)]).T
    X = X.dot(rng.randn(d, d)) + 0.3 * rng.randn(n, d) + rng.randn(d) * rng.choice([0, 3])
    return X.astype(dtype)


# ---------------------------------------------------------------- independent recursions

class RefAvg(object):
    def __init__(self, avg_n=None):
        self.n, self.avg_n, self.avg = 0, avg_n, None

    def step(self, x):
        self.n += 1
        if self.avg_n is None:
            a = 1. / self.n
        else:
            a = 2. / (self.avg_n + 1.) if self.n > 1 else 1.
        self.avg = x.copy() if self.avg is None else a * x + (1 - a) * self.avg

    def out(self, x):
        return x if self.n <= 1 else x - self.avg


class RefPCA(object):
    """CCIPCA, Weng et al. 2003; the initial vectors count as the first sample."""

    def __init__(self, v, amn=(20, 200, 2000, 3), whiten=False):
        self.u = np.array(v, 'd')
        self.n, self.amn, self.whiten = 1, amn, whiten
        self.vec = None

    def step(self, x):
        self.n += 1
        n1, n2, m, c = self.amn
        n = float(self.n)
        mu = 0. if n < n1 else (c * (n - n1) / (n2 - n1) if n < n2 else c + (n - n2) / m)
        r = x.copy()
        for i in range(self.u.shape[1]):
            u = self.u[:, i]
            u = (n - 1 - mu) / n * u + (1 + mu) / n * r * (r.dot(u) / np.sqrt(u.dot(u)))
            self.u[:, i] = u
            e = u / np.sqrt(u.dot(u))
            r = r - r.dot(e) * e
        self.d = np.sqrt((self.u ** 2).sum(axis=0))
        self.vec = self.u / self.d
        if self.whiten:
            self.vec = self.vec / np.sqrt(self.d)


class RefMCA(object):
    """Sequential minor components, Peng and Yi 2006."""

    def __init__(self, v, eps=0.1, gamma=1., normalize=True):
        self.w = np.array(v, 'd')
        self.d = np.sqrt((self.w ** 2).sum(axis=0))
        self.eps, self.gamma, self.normalize = eps, gamma, normalize

    def step(self, xs):
        C = xs.T.dot(xs)
        for i in range(self.w.shape[1]):
            w = self.w[:, i]
            eta = self.eps / (1 + 1.2 * i)
            sq = 1. if self.normalize else w.dot(w)
            w = 1.5 * w - eta * sq * w - eta * C.dot(w)
            q = w.dot(w)
            C = C + self.gamma * np.outer(w, w) / q
            self.d[i] = np.sqrt(q)
            self.w[:, i] = w / np.sqrt(q) if self.normalize else w


class RefSFA(object):
    """IncSFA, Kompella et al. 2012."""

    def __init__(self, pca, mca, eps=0.05, remove_mean=True, avg_n=None, amn=(20, 200, 2000, 3)):
        self.avg = RefAvg(avg_n) if remove_mean else None
        self.w = RefPCA(pca, amn, True)
        self.m = RefMCA(mca, eps)
        self.sf = np.dot(pca, mca)
        self.prev = None

    def step(self, x, new):
        if self.avg:
            self.avg.step(x)
            x = self.avg.out(x)
        self.w.step(x)
        z = x.dot(self.w.vec)
        if not new:
            self.m.step((z - self.prev)[None])
            self.sf = self.w.vec.dot(self.m.w)
        self.prev = z

    def out(self, X):
        if self.avg:
            X = np.array([self.avg.out(x) for x in X])
        return X.dot(self.sf)


# ---------------------------------------------------------------- single nodes

def make(rng, name, d, dtype=None, training_type=None):
    """A node with fixed start vectors, in a way that can be repeated exactly."""
    seed = rng.randint(10 ** 6)
    k = rng.randint(1, d + 1)
    giv = rng.rand() < 0.6
    V = np.linalg.qr(rng.randn(d, d))[0][:, :k] * rng.uniform(0.1, 1)
    W = np.linalg.qr(rng.randn(k, k))[0][:, :rng.randint(1, k + 1)]
    avg_n = [None, 1, 3, 10, 150, 1000][rng.randint(6)]
    amn = [(20, 200, 2000, 3), (2, 8, 10, 2), (5, 30, 100, 4)][rng.randint(3)]
    eps = rng.choice([0.01, 0.05, 0.1])
    rm, norm = rng.rand() < 0.6, rng.rand() < 0.7
    gamma = rng.choice([0.5, 1., 2.])
    rel = rng.choice([1., 0.3, 0.6, 0.9])
    kw = dict(dtype=dtype)

    def build():
        r = np.random.RandomState(seed)
        if name == 'Centering':
            n = mn.OnlineCenteringNode(avg_n=avg_n, numx_rng=r, **kw)
        elif name == 'TimeDiff':
            n = mn.OnlineTimeDiffNode(numx_rng=r, **kw)
        elif name in ('CCIPCA', 'CCIPCAWhitening'):
            cls = mn.CCIPCANode if name == 'CCIPCA' else mn.CCIPCAWhiteningNode
            n = cls(amn_params=amn, var_rel=rel, init_eigen_vectors=V.copy() if giv else None, output_dim=k, numx_rng=r, **kw)
        elif name == 'MCA':
            n = mn.MCANode(eps=eps, gamma=gamma, normalize=norm, init_eigen_vectors=V.copy() if giv else None,
                           output_dim=k, numx_rng=r, **kw)
        else:
            n = mn.IncSFANode(eps=eps, whitening_output_dim=k, remove_mean=rm, avg_n=avg_n, amn_params=amn,
                              init_pca_vectors=V.copy() if giv else None, init_mca_vectors=W.copy() if giv else None,
                              output_dim=W.shape[1], numx_rng=r, **kw)
        if training_type:
            n.set_training_type(training_type)
        return n
    info = dict(rel=rel, avg_n=avg_n, amn=amn, eps=eps, gamma=gamma, norm=norm, rm=rm, V=V, W=W, giv=giv, k=k)
    return build, info


NAMES = ['Centering', 'TimeDiff', 'CCIPCA', 'CCIPCAWhitening', 'MCA', 'IncSFA']
INVERTIBLE = {'Centering', 'CCIPCA', 'CCIPCAWhitening', 'MCA', 'IncSFA'}


@CHECK.each([(n, n) for n in NAMES], quick=25, thorough=150)
def chunking(rng, rec, name):
    """Any chunking gives the row by row result; executing or inverting in between changes nothing; one update step
    per sample; stopping freezes."""
    d = rng.randint(1, 6)
    dt = [None, 'd', 'f'][rng.randint(3)]
    build, info = make(rng, name, d, dt)
    X = signal(rng, rng.randint(3, 40), d, dt or 'd')
    T = signal(rng, rng.randint(1, 5), d, dt or 'd')
    a, b = build(), build()
    where = '%s d=%d %s' % (name, d, info['k'])
    for x in X:
        a.train(x[None].copy())
    parts, done, calls = chunks_of(rng, X, rng.choice([1, 4, 50])), 0, []
    for c in parts:
        c = c.copy()
        b.train(c)
        c[:] = 77                  # the caller may reuse its array
        done += len(c)
        rec.require(b.get_current_train_iteration() == done, 'iteration-count',
                    lambda: '%s: %d samples trained, iteration %s' % (where, done, b.get_current_train_iteration()))
        while rng.rand() < 0.4:
            before = snap(b)
            what = ['execute', 'inverse'][rng.randint(2)] if name in INVERTIBLE else 'execute'
            y1 = b.execute(T.copy())
            if what == 'inverse':
                b.inverse(y1)
            y2 = b.execute(T.copy())
            dd = diff(before, snap(b), 0.)
            rec.event('state_snapshots')
            rec.require(dd is None, 'execution-changes-state', lambda: '%s: %s changed %s' % (where, what, dd))
            rec.require(np.array_equal(y1, y2, equal_nan=True), 'execution-not-repeatable', where)
            rec.require(b.is_training(), 'execution-ends-training', where)
            calls.append(what)
    same_state(rec, b, a, 'chunking', '%s in chunks %s vs row by row' % (where, [len(c) for c in parts]),
               1e-4 if dt == 'f' else 1e-9)
    y = b.execute(T)
    rec.require(y.dtype == (np.dtype(dt) if dt else T.dtype), 'dtype', lambda: '%s gives %s' % (where, y.dtype))
    rec.require(len(y) == len(T), 'rows', where)
    b.stop_training()
    rec.require(not b.is_training(), 'stop-ignored', where)
    rec.require(np.array_equal(b.execute(T), y, equal_nan=True), 'stop-changes-output', where)
    raises(rec, mdp.TrainingFinishedException, lambda: b.train(X), 'train-after-stop', where)
    raises(rec, mdp.TrainingFinishedException, lambda: b.stop_training(), 'stop-after-stop', where)
    raises(rec, mdp.TrainingException, lambda: build().stop_training(), 'stop-untrained', where)
    rec.event('chunkings')
    rec.case((name, d, dt, info['k'], tuple(len(c) for c in parts), tuple(calls)))


@CHECK.each([(n, n) for n in NAMES], quick=25, thorough=150)
def recursion(rng, rec, name):
    """State and outputs after every step equal the documented recursion."""
    d = rng.randint(1, 6)
    batch = name in ('MCA', 'IncSFA', 'TimeDiff') and rng.rand() < 0.3
    build, info = make(rng, name, d, 'd', 'batch' if batch else None)
    node = build()
    X = signal(rng, rng.randint(4, 60), d)
    if name == 'MCA' and batch:
        X = X * 0.3
    T = signal(rng, 4, d)
    where = '%s d=%d k=%d %s' % (name, d, info['k'], 'batch' if batch else 'incremental')
    parts = chunks_of(rng, X, 5)
    if name == 'IncSFA' and batch:
        parts = [p for p in parts if len(p) > 1]
        raises(rec, mdp.TrainingException, lambda: build().train(X[:1]), 'batch-of-one', where)
        if not parts:
            parts = [X]
    # start vectors: given, or the ones the node drew
    probe = build()
    probe.train(X[:2])
    ref = None
    if name == 'Centering':
        ref = RefAvg(info['avg_n'])
    elif name in ('CCIPCA', 'CCIPCAWhitening'):
        V = probe.init_eigen_vectors
        ref = RefPCA(V, info['amn'], name != 'CCIPCA')
    elif name == 'MCA':
        ref = RefMCA(probe.init_eigen_vectors, info['eps'], info['gamma'], info['norm'])
    elif name == 'IncSFA':
        ref = RefSFA(probe.init_pca_vectors, probe.init_mca_vectors, info['eps'], info['rm'], info['avg_n'], info['amn'])
        same = np.allclose(probe.init_slow_features, probe.init_pca_vectors.dot(probe.init_mca_vectors))
        rec.require(same, 'init-slow-features', where)
    if info['giv'] and name in ('CCIPCA', 'CCIPCAWhitening', 'MCA'):
        close(rec, probe.init_eigen_vectors, info['V'], 'start-vectors', where, 0)
    if info['giv'] and name == 'IncSFA':
        close(rec, probe.init_pca_vectors, info['V'], 'start-vectors', where, 0)
        close(rec, probe.init_mca_vectors, info['W'], 'start-vectors', where, 0)
    seen, eps = [], []
    tol = 1e-8
    for p in parts:
        new = None
        if name == 'IncSFA' and not batch and rng.rand() < 0.3:
            new = bool(rng.rand() < 0.6) or not seen
            node.train(p.copy(), new_episode=new)
        else:
            node.train(p.copy())
        for i, x in enumerate(p):
            first = not seen
            seen.append(x)
            if name == 'Centering':
                ref.step(x)
            elif name in ('CCIPCA', 'CCIPCAWhitening'):
                before = getattr(ref, 'd', np.ones(1)).sum()
                ref.step(x)
            elif name == 'MCA':
                if not batch:
                    ref.step(x[None])
            elif name == 'IncSFA':
                start = (i == 0) if batch else (first if new is None else (new and i == 0))
                ref.step(x, start)
                eps.append(start)
        if name == 'MCA' and batch:
            ref.step(p)
        rec.event('recursion_steps', len(p))
        y = node.execute(T.copy())
        w = '%s after %d samples' % (where, len(seen))
        if name == 'Centering':
            close(rec, np.ravel(node.get_average()), ref.avg, 'average', w, tol)
            if len(seen) > 1:
                close(rec, y, T - ref.avg, 'centered', w, tol)
            close(rec, node.inverse(y), T, 'centering-inverse', w, tol)
            if info['avg_n'] is None:
                close(rec, ref.avg, np.mean(seen, axis=0), 'mean', w, tol)
        elif name == 'TimeDiff':
            # x(n-1) is the last trained sample but one: execution starts at the last trained sample
            prev = seen[-2] if len(seen) > 1 else np.zeros(d)
            Z = np.vstack([seen[-1:], T])
            yy = node.execute(Z.copy())
            close(rec, yy, np.diff(np.vstack([prev[None], Z]), axis=0), 'difference', w, tol)
        elif name in ('CCIPCA', 'CCIPCAWhitening'):
            if not np.isfinite(ref.vec).all() or ref.d.min() < 1e-6 * ref.d.max():
                rec.case((name, 'degenerate', d, info['k']))
                return
            close(rec, node.v, ref.vec, 'vectors', w, tol)
            close(rec, np.ravel(node.d), ref.d, 'values', w, tol)
            close(rec, y, T.dot(ref.vec), 'projection', w, tol)
            n = rng.randint(1, info['k'] + 1)
            close(rec, node.execute(T, n), T.dot(ref.vec[:, :n]), 'projection-n', w, tol)
            E = ref.vec * np.sqrt(ref.d) if ref.whiten else ref.vec
            if ref.whiten:
                close(rec, node.get_eigenvectors(), E, 'eigenvectors', w, tol)
            close(rec, np.sqrt((E ** 2).sum(axis=0)), np.ones(info['k']), 'unit-vectors', w, tol)
            close(rec, node.inverse(y), y.dot((E * (np.sqrt(ref.d) if ref.whiten else 1)).T), 'back-projection', w, tol)
            close(rec, node.get_projmatrix(), ref.vec, 'projmatrix', w, tol)
            close(rec, node.get_projmatrix(0), ref.vec.T, 'projmatrix', w, tol)
            close(rec, node.get_recmatrix(0), node.get_recmatrix().T, 'recmatrix', w, tol)
            close(rec, node.get_var_tot(), ref.d.sum(), 'total-variance', w, tol)
            # the leading components within the wanted share of the total (the one before or after the last sample)
            shares = [np.cumsum(ref.d) / t for t in (before, ref.d.sum())]
            if all((abs(s - info['rel']) > 1e-6).all() for s in shares[:1 if info['rel'] == 1 else 2]):
                got = node.get_reduced_dimsensionality()
                want = [next((j for j in range(info['k']) if s[j] > info['rel'] + 1e-7), info['k']) for s in shares]
                rec.require(got in want, 'reduced-dimensionality', lambda: '%s: %r for a share of %g; the components hold %r' % (w, got, info['rel'], shares))
                rec.event('reductions')
            big = rng.randn(2, info['k'] + 1)
            raises(rec, mdp.NodeException, lambda: node.inverse(big), 'too-many-components', w)
        elif name == 'MCA':
            if not np.isfinite(ref.w).all() or np.abs(ref.w).max() > 1e6:
                rec.case((name, 'diverged', d, info['k']))
                return
            close(rec, node.v, ref.w, 'vectors', w, 1e-6)
            close(rec, np.ravel(node.d), ref.d, 'values', w, 1e-6)
            close(rec, y, T.dot(ref.w), 'projection', w, 1e-6)
            close(rec, node.inverse(y), y.dot(ref.w.T), 'back-projection', w, 1e-6)
        else:
            if not np.isfinite(ref.sf).all() or np.abs(ref.sf).max() > 1e5 or ref.w.d.min() < 1e-6 * ref.w.d.max():
                rec.case((name, 'degenerate', d, info['k']))
                return
            close(rec, node.sf, ref.sf, 'slow-features', w, 1e-5)
            close(rec, y, ref.out(T), 'slow-output', w, 1e-5)
            if info['rm']:
                close(rec, np.ravel(node.avgnode.avg), ref.avg.avg, 'average', w, tol)
            if len(seen) > 1 and np.linalg.matrix_rank(ref.sf, 1e-4) == ref.sf.shape[1]:
                back = y.dot(np.linalg.pinv(ref.sf)) + (ref.avg.avg if info['rm'] else 0)
                close(rec, node.inverse(y), back, 'slow-inverse', w, 1e-4)
    rec.case((name, d, info['k'], batch, tuple(len(p) for p in parts), info['avg_n'], info['amn'], tuple(eps)))


@CHECK.scenario(quick=40, thorough=300)
def time_differences(rng, rec):
    """The documented examples, for any block sizes, in both training types."""
    d = rng.randint(1, 5)
    X = rng.randn(rng.randint(4, 20), d).cumsum(axis=0)
    kind = ['incremental', 'batch'][rng.randint(2)]
    node = mn.OnlineTimeDiffNode()
    node.set_training_type(kind)
    if rng.rand() < 0.4:
        ys = []
        for x in X:
            node.train(x[None])
            ys.append(node.execute(x[None])[0])
        close(rec, ys, np.diff(np.vstack([0 * X[:1], X]), axis=0), 'sample-by-sample', kind, 1e-12)
        rec.case(('samples', kind, d, len(X)))
        return
    # train blocks; execute blocks that start with the last trained sample
    sizes, t = [], 0
    while t < len(X) - 1:
        n = min(rng.randint(1, 5), len(X) - t)
        node.train(X[t:t + n])
        t += n
        m = rng.randint(1, 5)
        blk = X[t - 1:t - 1 + m]
        y = node.execute(blk)
        prev = X[t - 2] if t > 1 else np.zeros(d)
        close(rec, y, np.diff(np.vstack([prev[None], blk]), axis=0), 'block',
              '%s, trained blocks %s, executed %d samples from the last trained one' % (kind, sizes + [n], m), 1e-12)
        sizes.append((n, m))
    rec.case(('blocks', kind, d, tuple(sizes)))


@CHECK.scenario(quick=12, thorough=60)
def convergence(rng, rec):
    """The incremental components of a stationary signal approach the batch ones."""
    d, k = 5, 3
    Q = np.linalg.qr(rng.randn(d, d))[0]
    sd = np.array([6, 3.5, 2., 1, .5])
    X = rng.randn(4000, d).dot((Q * sd).T)
    whiten = rng.rand() < 0.5
    cls = mn.CCIPCAWhiteningNode if whiten else mn.CCIPCANode
    node = cls(amn_params=(20, 200, 2000, 3), output_dim=k, numx_rng=np.random.RandomState(rng.randint(10 ** 6)))
    for c in chunks_of(rng, X, 400):
        node.train(c)
    E = node.get_eigenvectors() if whiten else node.v
    cos = np.abs((E * Q[:, :k]).sum(axis=0))
    rec.require(cos.min() > 0.9, 'no-convergence', lambda: 'cosines to the true axes %s' % cos)
    ratio = np.sqrt(np.ravel(node.d)) / sd[:k]
    rec.require(ratio.min() > 0.7 and ratio.max() < 1.4, 'variances', lambda: 'deviations relative to the truth %s' % ratio)
    if whiten:
        s = node.execute(X).std(axis=0)
        rec.require(s.min() > 0.7 and s.max() < 1.4, 'not-white', lambda: 'deviations %s' % s)
    rec.case((whiten, round(float(cos.min()), 5)))


@CHECK.scenario(quick=15, thorough=60)
def minor_convergence(rng, rec):
    """The minor component node finds the directions of least variance."""
    d = 4
    Q = np.linalg.qr(rng.randn(d, d))[0]
    sd = np.array([.1, 1., 1.3, 1.6])
    X = rng.randn(3000, d).dot((Q * sd).T)
    node = mn.MCANode(eps=0.01, output_dim=2, numx_rng=np.random.RandomState(rng.randint(10 ** 6)))
    node.train(X)
    v = node.v[:, 0] / np.linalg.norm(node.v[:, 0])
    rec.require(abs(v.dot(Q[:, 0])) > 0.8, 'no-minor-component', lambda: 'cosine to the true axis %s' % v.dot(Q[:, 0]))
    rec.case((round(float(abs(v.dot(Q[:, 0]))), 6),))


# ---------------------------------------------------------------- base class with user nodes

class Acc(mdp.OnlineNode):
    """User node: position dependent sum; output depends on everything learned so far."""

    def __init__(self, tag=0, log=None, gain=0.5, **k):
        super(Acc, self).__init__(**k)
        self.tag, self.log, self.gain = tag, log if log is not None else [], gain
        self.sums, self.stopped = None, 0

    def _check_params(self, x):
        if self.sums is None:
            self.sums = np.zeros((1, self.input_dim), dtype=self.dtype)

    def _train(self, x):
        self.log.append(('train', self.tag, x.copy()))
        self.sums = 0.9 * self.sums + x.sum(axis=0, keepdims=True) + self.tag

    def _stop_training(self):
        self.stopped += 1

    def _execute(self, x):
        self.log.append(('execute', self.tag, x.copy()))
        m = max(1, self.get_current_train_iteration())
        r = np.tanh(x + self.gain * self.sums / m)
        k = self.output_dim
        reps = -(-k // self.input_dim)
        return np.hstack([r * (1 + 0.1 * i) for i in range(reps)])[:, :k]

    @staticmethod
    def is_invertible():
        return False


class Lin(mdp.PreserveDimOnlineNode):
    """Invertible user node."""

    def __init__(self, tag=0, log=None, **k):
        super(Lin, self).__init__(**k)
        self.tag, self.log, self.n = tag, log if log is not None else [], 0.

    def _train(self, x):
        self.log.append(('train', self.tag, x.copy()))
        self.n = 0.7 * self.n + float(np.abs(x).sum())

    def _execute(self, x):
        self.log.append(('execute', self.tag, x.copy()))
        return x + self.n

    def _inverse(self, y):
        return y - self.n


class Fails(mdp.PreserveDimOnlineNode):
    def __init__(self, fail=False, **k):
        super(Fails, self).__init__(**k)
        self.fail = fail

    def _train(self, x):
        if self.fail:
            raise ValueError('broken here')


class Sup(Acc):
    """User node with training arguments."""

    def _train(self, x, a, b):
        super(Sup, self)._train(x * a + b)


class Phases(Acc):
    """User node with two active phases and an execution phase between them."""

    def _train2(self, x):
        self.log.append(('train2', self.tag, x.copy()))
        self.second = getattr(self, 'second', 0.) + float(x.sum())

    def _between(self, x):
        return x * 2 + 1

    def _stop2(self):
        self.stopped += 10

    def _get_train_seq(self):
        return [(self._train, self._stop_training, self._between), (self._train2, self._stop2, lambda x: x)]


@CHECK.scenario(quick=60, thorough=400)
def base(rng, rec):
    """OnlineNode: which pieces reach the training methods, iteration counts, phases, type and rng handling."""
    d = rng.randint(1, 4)
    kind = ['incremental', 'batch', None][rng.randint(3)]
    log = []
    cls = [Acc, Phases, Lin][rng.randint(3)]
    n = cls(log=log)
    rec.require(n.training_type is None, 'type-preset', 'training type before use')
    if kind:
        n.set_training_type(kind)
    raises(rec, mdp.OnlineNodeException, lambda: n.set_training_type('bogus'), 'bogus-type', cls.__name__)
    raises(rec, mdp.OnlineNodeException, lambda: cls(numx_rng=3), 'bogus-rng', cls.__name__)
    r = np.random.RandomState(3)
    rec.require(cls(numx_rng=r).numx_rng is r, 'rng', 'generator not used')
    parts = chunks_of(rng, rng.randn(rng.randint(1, 14), d), 5)
    exp, total = [], 0
    first_exec = rng.rand() < 0.3
    for i, p in enumerate(parts):
        if i == 0 and first_exec:
            n.execute(p.copy())        # an untrained node is trained with what it executes
        else:
            n.train(p.copy())
        for piece in ([p] if kind == 'batch' else [p[j:j + 1] for j in range(len(p))]):
            exp.append(('train', piece))
            if cls is Phases:
                exp.append(('train2', piece * 2 + 1))
        if i == 0 and first_exec:
            exp.append(('execute', p))
        total += len(p)
        rec.require(n.get_current_train_iteration() == total, 'iteration-count',
                    lambda: '%d samples, iteration %s' % (total, n.get_current_train_iteration()))
        rec.require(n.is_training() and n.get_current_train_phase() == 0, 'phase', 'after a chunk')
        if rng.rand() < 0.3:
            n.execute(p.copy())
            exp.append(('execute', p))
    ok = [(a, x.shape) for a, _, x in log] == [(a, x.shape) for a, x in exp] and \
        all(np.array_equal(x, y) for (_, _, x), (_, y) in zip(log, exp))
    rec.require(ok, 'wrong-pieces', lambda: '%s %s: got %s, expected %s' % (
        cls.__name__, kind, [(a, x.shape) for a, _, x in log], [(a, x.shape) for a, x in exp]))
    rec.require(n.training_type == (kind or 'incremental'), 'type', lambda: 'type %s' % n.training_type)
    rec.event('node_calls', len(log))
    n.stop_training()
    if cls is not Lin:
        rec.require(n.stopped == (11 if cls is Phases else 1), 'stop-calls', lambda: 'stops %s' % n.stopped)
    rec.require(not n.is_training() and n.get_remaining_train_phase() == 0, 'not-stopped', cls.__name__)
    rec.case((cls.__name__, kind, d, tuple(len(p) for p in parts), first_exec))


# ---------------------------------------------------------------- flows

def trained(rng, d, kind):
    n = [mn.PCANode, mn.WhiteningNode][rng.randint(2)](input_dim=d, output_dim=d)
    n.train(rng.randn(40, d).dot(np.diag(np.arange(1., d + 1))))
    n.stop_training()
    return n


def make_nodes(rng, d, log, size, args=True, same_dim=False, terminal=False):
    """Random compatible node list, all with fixed dimensions."""
    nodes, cur, desc = [], d, []
    for i in range(size):
        opts = ['acc', 'lin', 'centering', 'trained', 'identity', 'timediff', 'phases']
        if args:
            opts += ['sup', 'sup']
        if not same_dim:
            opts += ['acc+', 'ccipca', 'expansion', 'incsfa', 'layer']
        k = opts[rng.randint(len(opts))]
        rs = np.random.RandomState(rng.randint(10 ** 6))
        if k == 'acc':
            n = Acc(i, log, input_dim=cur, output_dim=cur)
        elif k == 'acc+':
            n = Acc(i, log, input_dim=cur, output_dim=rng.randint(1, 5))
        elif k == 'phases':
            n = Phases(i, log, input_dim=cur, output_dim=cur)
        elif k == 'lin':
            n = Lin(i, log, input_dim=cur)
        elif k == 'sup':
            n = Sup(i, log, input_dim=cur, output_dim=cur)
        elif k == 'centering':
            n = mn.OnlineCenteringNode(avg_n=[None, 3][rng.randint(2)], input_dim=cur, numx_rng=rs)
        elif k == 'timediff':
            n = mn.OnlineTimeDiffNode(input_dim=cur, numx_rng=rs)
        elif k == 'ccipca':
            n = mn.CCIPCANode(input_dim=cur, output_dim=rng.randint(1, cur + 1), numx_rng=rs)
        elif k == 'incsfa':
            n = mn.IncSFANode(input_dim=cur, output_dim=cur, whitening_output_dim=cur, numx_rng=rs)
        elif k == 'trained':
            n = trained(rng, cur, k)
        elif k == 'layer':
            n = hinet.OnlineLayer([Acc(i, log, input_dim=1, output_dim=2),
                                   mn.IdentityNode(input_dim=1, output_dim=1)]) if cur == 2 else \
                hinet.CloneOnlineLayer(Acc(i, log, input_dim=1, output_dim=1), n_nodes=cur)
        elif k == 'identity':
            n = mn.IdentityNode(input_dim=cur, output_dim=cur)
        else:
            if cur > 3:
                n = mn.IdentityNode(input_dim=cur, output_dim=cur)
            else:
                n = mn.QuadraticExpansionNode(input_dim=cur)
        if isinstance(n, mdp.OnlineNode) and k in ('acc', 'lin', 'acc+', 'timediff') and rng.rand() < 0.2:
            n.set_training_type('batch')
        nodes.append(n)
        desc.append(k)
        cur = n.output_dim
    return nodes, desc


def relog(nodes):
    """Private copies with a log of their own."""
    log = []
    out = []

    def fix(n):
        if hasattr(n, 'log'):
            n.log = log
        for m in list(getattr(n, 'nodes', [])) + list(getattr(n, '_flow', [])):
            fix(m)
        return n
    for n in nodes:
        out.append(fix(n.copy()))
    return out, log


def needs_args(n):
    return isinstance(n, Sup)


def same_log(rec, log, ref, key, where):
    rec.event('node_calls', len(ref))
    a = [(x[0], x[1], x[2].shape) for x in log]
    b = [(x[0], x[1], x[2].shape) for x in ref]
    rec.require(a == b, key, lambda: '%s: calls %s, expected %s' % (where, a[:30], b[:30]))
    rec.require(all(np.allclose(x[2], y[2], rtol=1e-9, atol=1e-9) for x, y in zip(log, ref)), key + '-data', where)


def manual(nodes, x, args):
    for i, n in enumerate(nodes):
        if n.is_training():
            n.train(x.copy(), *(args[i] if needs_args(n) else ()))
        if isinstance(n, mdp.OnlineNode) or not n.is_training():
            x = n.execute(x.copy())
    return x


@CHECK.scenario(quick=90, thorough=700)
def flows(rng, rec):
    """OnlineFlow.train equals nested train / execute calls, chunk by chunk, node by node."""
    d = rng.randint(1, 4)
    log = []
    term = rng.rand() < 0.3
    nodes, desc = make_nodes(rng, d, log, rng.randint(1, 5))
    cur = nodes[-1].output_dim
    if term:
        tk = ['pca', 'sfa', 'gauss', 'twophase'][rng.randint(4)]
        t = {'pca': lambda: mn.PCANode(input_dim=cur), 'sfa': lambda: mn.SFANode(input_dim=cur),
             'gauss': lambda: mn.NearestMeanClassifier(input_dim=cur), 'twophase': lambda: TwoPass(input_dim=cur)}[tk]()
        nodes.append(t)
        desc.append(tk)
    ref, rlog = relog(nodes)
    nodes, log = relog(nodes)
    flow = mdp.OnlineFlow(nodes)
    nargs = any(needs_args(n) for n in nodes) or (term and tk == 'gauss')
    where = 'OnlineFlow %s' % desc
    for rnd in range(rng.randint(1, 3)):
        n_ch = rng.randint(1, 5)
        form = ['list', 'generator', 'array2', 'array3'][rng.randint(4)]
        size = rng.randint(4, 8) if term else rng.randint(1, 5)
        if term and form == 'array2':
            form = 'array3'
        if term and tk == 'twophase' and form == 'generator':
            form = 'list'
        if nargs and form.startswith('array'):
            form = 'list'
        if form == 'array2':
            chunks = [rng.randn(1, d) for _ in range(n_ch * 3)]
        elif form == 'array3':
            chunks = [rng.randn(size, d) for _ in range(n_ch)]
        else:
            chunks = [rng.randn(rng.randint(4 if term else 1, 8), d) for _ in range(n_ch)]
        args = [[((float(rng.rand()), float(rng.rand())) if needs_args(n) else
                  ((rng.randint(0, 2, len(c)),) if n is nodes[-1] and term and tk == 'gauss' else
                   [None, (), (1, 2)][rng.randint(3)])) for n in nodes] for c in chunks]
        tup = nargs or (rng.rand() < 0.3 and not form.startswith('array'))
        data = [tuple([c.copy()] + a) for c, a in zip(chunks, args)] if tup else [c.copy() for c in chunks]
        if tup and rng.rand() < 0.5:
            data = [list(x) for x in data]
        if form == 'array2':
            data = np.vstack(data)
        elif form == 'array3':
            data = np.array(data)
        elif form == 'generator':
            data = (x for x in data)
        try:
            flow.train(data)
        except Exception as e:
            if term and isinstance(e, mdp.FlowException) and tk == 'gauss' and 'singular' in str(e):
                raise Skip('classifier data')
            if term and tk == 'sfa' and isinstance(e, mdp.FlowException) and ('singular' in str(e) or 'negative' in str(e)):
                raise Skip('singular data')
            raise
        was = ref[-1].is_training()
        for i, c in enumerate(chunks):
            x = c
            for j, n in enumerate(ref):
                if n.is_training():
                    a = args[i][j] if needs_args(n) or (n is ref[-1] and term and tk == 'gauss') else ()
                    n.train(x.copy(), *a)
                if isinstance(n, mdp.OnlineNode) or not n.is_training():
                    x = n.execute(x.copy())
        if term and was:
            if tk == 'twophase':
                ref[-1].stop_training()
                rec.require(nodes[-1].log2 == ref[-1].log2 * 1 or True, 'never', '')
                got = [e for e in nodes[-1].log2 if e[0] == 2]
                rec.require(len(got) == len(chunks), 'second-phase', lambda: '%s: second phase saw %d of %d chunks' % (
                    where, len(got), len(chunks)))
                rec.require([e[1] for e in got] == [len(c) for c in chunks], 'second-phase', where)
                rec.require([e[1] for e in nodes[-1].log2 if e[0] == 1] == [len(c) for c in chunks], 'first-phase', where)
            else:
                ref[-1].stop_training()
            rec.require(not nodes[-1].is_training(), 'terminal-not-closed', where)
            rec.event('terminal_nodes')
        elif not term:
            rec.require(nodes[-1].is_training() == ref[-1].is_training(), 'training-ended',
                        '%s: the last node %s' % (where, 'stopped training' if was else 'trains'))
        if not (term and tk == 'twophase'):
            same_log(rec, log, rlog, 'call-order', '%s form %s' % (where, form))
        if term and tk in ('pca', 'sfa'):       # the vectors themselves may be arbitrary for degenerate data
            for k in ('tlen', 'd'):
                a, b = getattr(nodes[-1], k), getattr(ref[-1], k)
                close(rec, a, b, 'terminal-state', where, 1e-6)
        for j in range(len(nodes) - (1 if term and tk != 'gauss' else 0)):
            same_state(rec, nodes[j], ref[j], 'node-state', '%s form %s node %d' % (where, form, j), 1e-9)
        if term and tk == 'twophase':
            break
        if term and tk == 'gauss':
            continue
        # executing does not learn
        T = rng.randn(3, d)
        before = snap(flow)
        y = flow.execute(T.copy())
        dd = diff(before, snap(flow), 0.)
        rec.require(dd is None, 'execution-changes-state', lambda: '%s: %s' % (where, dd))
        x = T
        for n in ref:
            x = n.execute(x.copy())
        if not term:
            close(rec, y, x, 'output', where, 1e-9)
        same_log(rec, log, rlog, 'execution-order', where)
        if all(n.is_invertible() for n in nodes) and not term:
            x = y
            for n in ref[::-1]:
                x = n.inverse(x)
            close(rec, flow.inverse(y.copy()), x, 'inverse', where, 1e-9)
    rec.event('flows_replayed')
    rec.case((tuple(desc), d, form, tup, term))


class TwoPass(mdp.Node):
    """Ordinary node with two phases."""

    def __init__(self, **k):
        super(TwoPass, self).__init__(**k)
        self.log2 = []

    def _train(self, x):
        self.log2.append((1, len(x)))

    def _stop_training(self):
        pass

    def _train2(self, x):
        self.log2.append((2, len(x)))

    def _get_train_seq(self):
        return [(self._train, self._stop_training), (self._train2, self._stop_training)]

    @staticmethod
    def is_invertible():
        return False


@CHECK.scenario(quick=40, thorough=200)
def flow_refusals(rng, rec):
    """Misuse of online flows, layers and flow nodes is refused."""
    d = rng.randint(1, 4)
    kind = rng.randint(10)
    A = lambda **k: Acc(0, [], input_dim=d, output_dim=d, **k)
    S = lambda: Sup(0, [], input_dim=d, output_dim=d)
    if kind == 0:
        raises(rec, TypeError, lambda: mdp.OnlineFlow([mn.PCANode(input_dim=d), A()]), 'trainable-not-last', '')
    elif kind == 1:
        raises(rec, TypeError, lambda: mdp.CircularOnlineFlow([A(), mn.PCANode(input_dim=d)]), 'circular-trainable', '')
    elif kind == 2:
        cls = [hinet.OnlineLayer, hinet.SameInputOnlineLayer][rng.randint(2)]
        raises(rec, TypeError, lambda: cls([A(), mn.PCANode(input_dim=d, output_dim=d)]), 'layer-trainable', cls.__name__)
    elif kind == 3:
        f = mdp.OnlineFlow([A(), mn.PCANode(input_dim=d)])
        raises(rec, TypeError, lambda: hinet.OnlineFlowNode(f), 'flownode-trainable', '')
        raises(rec, TypeError, lambda: hinet.OnlineFlowNode(mdp.Flow([A()])), 'flownode-flow', '')
        raises(rec, TypeError, lambda: hinet.CircularOnlineFlowNode(mdp.OnlineFlow([A()])), 'circular-flownode', '')
    elif kind == 4:
        f = mdp.OnlineFlow([A(), S()])
        n = rng.choice([0, 1, 3])
        raises(rec, mdp.MDPException, lambda: f.train([(rng.randn(2, d),) + (None,) * n]), 'argument-tuples', str(n))
        log = []
        f = mdp.OnlineFlow([Acc(0, log, input_dim=d, output_dim=d), Sup(1, log, input_dim=d, output_dim=d)])
        bad = (rng.randn(2, d), None, (1, 2)) + (None,) * int(rng.randint(1, 3))
        raises(rec, mdp.MDPException, lambda: f.train([bad]), 'argument-tuples', 'too many tuples')
        rec.require(not log, 'argument-tuples', lambda: 'nodes saw refused data: %s' % (log,))
        # one generator for all the nodes inside
        r = np.random.RandomState(int(rng.randint(1 << 30)))
        inner = [A(), A()]
        l = [lambda: hinet.OnlineLayer(inner, numx_rng=r), lambda: hinet.SameInputOnlineLayer(inner, numx_rng=r),
             lambda: hinet.OnlineFlowNode(mdp.OnlineFlow(inner), numx_rng=r),
             lambda: hinet.CircularOnlineFlowNode(mdp.CircularOnlineFlow(inner), numx_rng=r),
             lambda: hinet.CloneOnlineLayer(inner[0], 2, numx_rng=r)][rng.randint(5)]()
        seen = inner[:1] if isinstance(l, hinet.CloneOnlineLayer) else inner
        rec.require(l.numx_rng is r and all(m.numx_rng is r for m in seen), 'generator', lambda: type(l).__name__)
        # a failing node is named
        k = int(rng.randint(2))
        nodes = [Fails(i == k) for i in range(2)]
        f = mdp.OnlineFlow(nodes)
        try:
            f.train([rng.randn(3, d)])
            rec.fail('failure', 'error of a node got lost')
        except mdp.FlowException as e:
            rec.require('#%d' % k in str(e) and 'broken here' in str(e), 'failure', lambda: 'error of node %d reported as %s' % (k, e))
            rec.event('refused')
    elif kind == 5:
        f = mdp.OnlineFlow([A(), S()])
        bad = tuple(range(rng.choice([0, 1, 3])))
        raises(rec, mdp.MDPException, lambda: f.train([(rng.randn(2, d), None, bad)]), 'argument-count', str(bad))
    elif kind == 6:
        f = mdp.OnlineFlow([A(), A()])
        raises(rec, mdp.FlowException, lambda: f.train([]), 'empty', '')
        raises(rec, mdp.FlowException, lambda: f.train(3), 'not-iterable', '')
    elif kind == 7:
        f = mdp.CircularOnlineFlow([A(), A()])
        for m in (f.set_input_node, f.set_output_node):
            raises(rec, mdp.CircularOnlineFlowException if hasattr(mdp, 'CircularOnlineFlowException') else Exception,
                   lambda: m(rng.choice([-1, 2, 7])), 'position', '')
        raises(rec, Exception, lambda: f.set_stored_input(rng.randn(2, d + 1)), 'stored-dim', '')
    elif kind == 8:
        n = A()
        n.set_training_type('batch')
        l = [lambda: hinet.OnlineLayer([n, A()]), lambda: hinet.OnlineFlowNode(mdp.OnlineFlow([n, A()])),
             lambda: hinet.CloneOnlineLayer(n, 2)][rng.randint(3)]()
        rec.require(l.training_type == 'batch', 'inferred-type', lambda: '%s' % l.training_type)
        raises(rec, mdp.OnlineNodeException, lambda: l.set_training_type('incremental'), 'type-change', '')
    else:
        f = mdp.CircularOnlineFlow([A(), A()])
        f.ignore_input(True)
        raises(rec, Exception, lambda: f.train(rng.randn(2, d)), 'no-stored-input', '')
        n = hinet.CircularOnlineFlowNode(f)
        raises(rec, mdp.TrainingException, lambda: n.train(rng.randn(2, d)), 'no-stored-input-node', '')
    rec.case((kind, d))


@CHECK.scenario(quick=90, thorough=700)
def circular(rng, rec):
    """CircularOnlineFlow against a model: feedback, stored input, iterations, rotation, output position."""
    d = rng.randint(1, 4)
    nodes, desc = make_nodes(rng, d, [], rng.randint(1, 5), args=False, same_dim=True)
    ref, rlog = relog(nodes)
    nodes, log = relog(nodes)
    flow = mdp.CircularOnlineFlow(nodes)
    model = list(ref)
    out, stored, ignore, iters = len(nodes) - 1, None, False, 1
    names = list(desc)
    hist = []
    for step in range(rng.randint(3, 9)):
        op = ['train', 'train', 'train', 'execute', 'inverse', 'input', 'output', 'ignore', 'iters', 'stored', 'reset',
              'copy'][rng.randint(12)]
        where = 'circular %s after %s: %s' % (names, hist, op)
        if op == 'train':
            if ignore and stored is None:
                continue
            n = rng.randint(1, 4)
            b = rng.randint(1, 4)
            form = rng.randint(3)
            chunks = [rng.randn(1 if form == 0 else b, d) for _ in range(n)]
            flow.train(np.vstack(chunks) if form == 0 else np.array(chunks) if form == 1 else (c.copy() for c in chunks))
            for c in chunks:
                x = stored if ignore else c
                for _ in range(iters):
                    x = manual(model, x, None)
                    stored = x
            hist.append('train%d' % n)
        elif op == 'execute':
            T = rng.randn(rng.randint(1, 4), d)
            before = None if any(m.is_training() and not m._train_phase_started for m in model) else snap(flow)
            y = flow.execute(T.copy())
            x = T
            for n in model[:out + 1]:
                x = n.execute(x.copy())
            close(rec, y, x, 'output', where, 1e-9)
            if before is not None:
                dd = diff(before, snap(flow), 0.)
                rec.require(dd is None, 'execution-changes-state', lambda: '%s: %s' % (where, dd))
            nr = rng.randint(len(model))
            x = T
            for n in model[:nr + 1]:
                x = n.execute(x.copy())
            close(rec, flow.execute(T.copy(), nr), x, 'output-nodenr', where, 1e-9)
            hist.append('execute')
        elif op == 'inverse':
            if not all(m.is_invertible() for m in model[:out + 1]) or \
                    any(m.is_training() and not m._train_phase_started for m in model):
                continue
            y = rng.randn(3, d)
            x = y
            for n in model[:out + 1][::-1]:
                x = n.inverse(x.copy())
            close(rec, flow.inverse(y.copy()), x, 'inverse', where, 1e-9)
            hist.append('inverse')
        elif op == 'input':
            k = rng.randint(len(model))
            flow.set_input_node(k)
            keep = model[out]
            model = model[k:] + model[:k]
            names = names[k:] + names[:k]
            out = [i for i, m in enumerate(model) if m is keep][0]
            hist.append('input%d' % k)
        elif op == 'output':
            out = rng.randint(len(model))
            flow.set_output_node(out)
            hist.append('output%d' % out)
        elif op == 'ignore':
            ignore = bool(rng.rand() < 0.6)
            flow.ignore_input(ignore)
            hist.append('ignore%s' % ignore)
        elif op == 'iters':
            iters = rng.randint(1, 4)
            flow.set_flow_iterations(iters)
            hist.append('iters%d' % iters)
        elif op == 'stored':
            stored = rng.randn(rng.randint(1, 4), d)
            flow.set_stored_input(stored.copy())
            hist.append('stored')
        elif op == 'reset':
            flow.reset_output_node()
            out = len(model) - 1
            hist.append('reset')
        else:
            flow = flow.copy()
            _, log2 = [], []
            for n in flow:
                if hasattr(n, 'log'):
                    n.log = log2
            log = log2
            rlog[:] = []
            hist.append('copy')
        rec.require([type(n).__name__ for n in flow] == [type(n).__name__ for n in model], 'positions', where)
        for i, (a, b) in enumerate(zip(flow, model)):
            same_state(rec, a, b, 'node-state', '%s node %d' % (where, i))
        got = flow.get_stored_input()
        rec.require((got is None) == (stored is None), 'stored-input', where)
        if stored is not None:
            close(rec, got, stored, 'stored-input', where, 1e-9)
        same_log(rec, log, rlog, 'call-order', where)
    rec.event('circular_replayed')
    rec.case((tuple(desc), d, tuple(hist)))


# ---------------------------------------------------------------- layers and flow nodes

@CHECK.scenario(quick=70, thorough=500)
def layers(rng, rec):
    """Online layers: every node learns its own columns, step by step, and stays executable."""
    log = []
    kind = ['layer', 'clone', 'same'][rng.randint(3)]
    batch = rng.rand() < 0.3
    nodes = []
    if kind == 'clone':
        d = rng.randint(1, 4)
        k = rng.randint(1, 4)
        n0 = [Acc(0, log, input_dim=d, output_dim=rng.randint(1, 5)), Lin(0, log, input_dim=d),
              mn.OnlineCenteringNode(input_dim=d)][rng.randint(3)]
        proto = [n0]
    else:
        d = rng.randint(1, 4)
        proto = []
        for i in range(rng.randint(1, 4)):
            dd = d if kind == 'same' else rng.randint(1, 4)
            c = rng.randint(6)
            rs = np.random.RandomState(rng.randint(10 ** 6))
            proto.append([lambda: Acc(i, log, input_dim=dd, output_dim=rng.randint(1, 5)), lambda: Lin(i, log, input_dim=dd),
                          lambda: mn.OnlineCenteringNode(input_dim=dd, numx_rng=rs), lambda: trained(rng, dd, 0),
                          lambda: mn.IdentityNode(input_dim=dd, output_dim=dd),
                          lambda: mn.CCIPCANode(input_dim=dd, output_dim=dd, numx_rng=rs)][c]())
    if batch and 'incremental' and isinstance(proto[0], (Acc, Lin)):
        proto[0].set_training_type('batch')
    else:
        batch = False
    ref, rlog = relog(proto)
    nodes, log = relog(proto)
    L = {'layer': lambda: hinet.OnlineLayer(nodes), 'same': lambda: hinet.SameInputOnlineLayer(nodes),
         'clone': lambda: hinet.CloneOnlineLayer(nodes[0], k)}[kind]()
    models = ref * k if kind == 'clone' else ref
    trainable = any(n.is_training() for n in models)
    rec.require(L.is_training() == trainable, 'trainable', kind)
    din = d if kind == 'same' else sum(n.input_dim for n in models)
    rec.require(L.input_dim == din, 'input-dim', kind)
    where = '%s %s' % (kind, [type(n).__name__ for n in ref])

    def cols(x):
        if kind == 'same':
            return [x] * len(models)
        out, p = [], 0
        for n in models:
            out.append(x[:, p:p + n.input_dim])
            p += n.input_dim
        return out
    sizes = []
    for _ in range(rng.randint(1, 5)):
        x = rng.randn(rng.randint(1, 6), din)
        if trainable:
            L.train(x.copy())
            for piece in ([x] if batch else [x[i:i + 1] for i in range(len(x))]):
                for n, c in zip(models, cols(piece)):
                    if n.is_training():
                        n.train(c.copy())
        sizes.append(len(x))
        if rng.rand() < 0.5 or not trainable:
            T = rng.randn(3, din)
            before = snap(L)
            y = L.execute(T.copy())
            dd = diff(before, snap(L), 0.) if trainable else None
            rec.require(dd is None, 'execution-changes-state', lambda: '%s: %s' % (where, dd))
            close(rec, y, np.hstack([n.execute(c.copy()) for n, c in zip(models, cols(T))]), 'output', where, 1e-9)
            rec.require(L.is_training() == trainable, 'execution-ends-training', where)
        for i, (a, b) in enumerate(zip(nodes, ref)):
            same_state(rec, a, b, 'node-state', '%s node %d' % (where, i), 1e-12)
        if kind == 'clone':          # clones may be executed together
            same_log(rec, [e for e in log if e[0] == 'train'], [e for e in rlog if e[0] == 'train'], 'call-order', where)
        else:
            same_log(rec, log, rlog, 'call-order', where)
    if trainable:
        rec.require(L.get_current_train_iteration() == sum(sizes), 'iteration-count', where)
        L.stop_training()
        rec.require(not L.is_training() and not any(n.is_training() for n in nodes), 'not-stopped', where)
        rec.require(all(n.stopped == 1 for n in nodes if isinstance(n, Acc)), 'stop-calls', where)
    rec.event('layers')
    rec.case((kind, tuple(type(n).__name__ for n in ref), tuple(sizes), batch))


@CHECK.scenario(quick=90, thorough=700)
def flow_nodes(rng, rec):
    """OnlineFlowNode and CircularOnlineFlowNode behave like the flow they wrap."""
    d = rng.randint(1, 4)
    circ = rng.rand() < 0.5
    proto, desc = make_nodes(rng, d, [], rng.randint(1, 5), args=False, same_dim=circ)
    ref, rlog = relog(proto)
    nodes, log = relog(proto)
    flow = (mdp.CircularOnlineFlow if circ else mdp.OnlineFlow)(nodes)
    iters, ignore, stored = 1, False, None
    out = len(nodes) - 1
    if circ:
        iters = rng.randint(1, 4)
        ignore = bool(rng.rand() < 0.4)
        flow.set_flow_iterations(iters)
        flow.ignore_input(ignore)
        if rng.rand() < 0.3:
            out = rng.randint(len(nodes))
            flow.set_output_node(out)
        if ignore and rng.rand() < 0.5:
            stored = rng.randn(1, d)
            flow.set_stored_input(stored.copy())
        N = hinet.CircularOnlineFlowNode(flow)
        if ignore and stored is None:
            stored = rng.randn(1, d)
            N.set_stored_input(stored.copy())
    else:
        N = hinet.OnlineFlowNode(flow)
    # batch as soon as one node is a batch node
    batch = any(getattr(n, 'training_type', None) == 'batch' for n in ref)
    rec.require(N.training_type == ('batch' if batch else None), 'inferred-type', lambda: '%s %s' % (desc, N.training_type))
    if not batch and rng.rand() < 0.3:
        N.set_training_type('batch')
        batch = True
    where = '%s %s iterations=%d ignore=%s %s' % (type(N).__name__, desc, iters, ignore, 'batch' if batch else 'incremental')
    trainable = any(n.is_training() for n in ref)
    rec.require(N.is_training() == trainable, 'trainable', where)
    last = max([i for i, n in enumerate(ref) if n.is_training()] or [-1])
    sizes = []
    rounds = rng.randint(1, 4) if trainable else 1
    for rnd in range(rounds):
        x = rng.randn(rng.randint(1, 5), d)
        sizes.append(len(x))
        if trainable:
            if rnd == 0 and rng.rand() < 0.2:
                N.execute(x.copy())       # trains the untrained node with x first
                ex = x
            else:
                N.train(x.copy())
                ex = None
            for piece in ([x] if batch else [x[i:i + 1] for i in range(len(x))]):
                z = stored if ignore else piece
                for _ in range(iters):
                    for i, n in enumerate(ref):
                        if n.is_training():
                            n.train(z.copy())
                        if circ or i < last:
                            z = n.execute(z.copy())
                    if circ:
                        stored = z
            if ex is not None:
                for n in ref[:out + 1]:
                    ex = n.execute(ex.copy())
            if circ:
                close(rec, N.get_stored_input(), stored, 'stored-input', where, 1e-9)
        for i, (a, b) in enumerate(zip(nodes, ref)):
            if type(b).__name__ in ('IdentityNode', 'QuadraticExpansionNode', 'PCANode', 'WhiteningNode'):
                continue
            same_state(rec, a, b, 'node-state', '%s node %d' % (where, i), 1e-12)
        same_log(rec, log, rlog, 'call-order', where)
        T = rng.randn(3, d)
        y = N.execute(T.copy())
        before = snap(N)
        N.execute(T.copy())
        x = T
        for n in ref[:out + 1]:
            x = n.execute(x.copy())
        dd = diff(before, snap(N), 0.)
        rec.require(dd is None, 'execution-changes-state', lambda: '%s: %s' % (where, dd))
        close(rec, y, x, 'output', where, 1e-9)
        for n in ref[:out + 1]:
            T = n.execute(T.copy())
        rec.require(N.is_training() == trainable, 'execution-ends-training', where)
        if rng.rand() < 0.3:
            c = N.copy()
            close(rec, c.execute(rng.randn(2, d) * 0), N.execute(np.zeros((2, d))), 'copy', where, 1e-12)
            x = np.zeros((2, d))
            for n in ref[:out + 1]:
                x = n.execute(x)
            if circ:
                c.flow.set_input_node(0)     # the copy holds a working circular flow
    rec.require(isinstance(N.get_remaining_train_phase(), int), 'phases', where)
    if trainable:
        rec.require(N.get_current_train_iteration() == sum(sizes), 'iteration-count', where)
        N.stop_training()
        rec.require(not N.is_training() and not any(n.is_training() for n in nodes), 'not-stopped', where)
        rec.require(all(n.stopped == (11 if isinstance(n, Phases) else 1) for n in nodes if isinstance(n, Acc)),
                    'stop-calls', where)
        raises(rec, mdp.TrainingFinishedException, lambda: N.train(rng.randn(1, d)), 'train-after-stop', where)
    rec.event('flows_replayed')
    rec.case((circ, tuple(desc), d, iters, ignore, tuple(sizes), batch))
