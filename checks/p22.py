"""P22 graph-based SFA against the explicitly written-out training graph."""
import contextlib
import io
import importlib
import numpy as np
import scipy.linalg as sl
import mdp
import mdp.nodes as mn
from harness.core import Check, Skip

CHECK = Check('P22', 'A case trains one graph-based SFA node in one training mode (or a list of modes) on random chunks with '
              'random weights, labels and block sizes; the monitor writes out the node and edge list of the training graph, '
              'computes the weighted moments edge by edge and judges features, constraints, order and optimality. iGSFA cases '
              'judge the slow and the reconstructive part. Distinct by mode, sizes and options.')
CHECK.expect_events(graphs=400, edges=20000, multi_chunk=120, multi_mode=20, refusals=60, igsfa=150, inverses=100)


class Graph(object):
    def __init__(self):
        self.v, self.x, self.D, self.R, self.edges = [], [], 0., 0., 0

    def nodes(self, x, v):
        self.x.append(np.asarray(x, 'd'))
        self.v.append(np.ones(len(x)) * v)

    def edge(self, x, i, j, w):
        x = np.asarray(x, 'd')
        i, j = np.asarray(i, int), np.asarray(j, int)
        w = np.ones(len(i)) * w
        d = x[j] - x[i]
        self.D = self.D + np.dot(d.T * w, d)
        self.R += w.sum()
        self.edges += len(i)

    def moments(self):
        x, v = np.concatenate(self.x), np.concatenate(self.v)
        m = np.dot(v, x) / v.sum()
        C = np.dot((x - m).T * v, x - m) / v.sum()
        return m, C, self.D / self.R


def pairs(a, b):
    i, j = np.meshgrid(a, b, indexing='ij')
    return i.ravel(), j.ravel()


def complete(g, x, idx, weight):
    """Complete graph over idx, every sample with weight, total edge weight weight * len."""
    g.nodes(x[idx], weight)
    i, j = pairs(idx, idx)
    g.edge(x, i, j, weight / float(len(idx)))


def chain(g, x, weight=1.):
    g.nodes(x, weight)
    g.edge(x, range(len(x) - 1), range(1, len(x)), weight)


def serial(g, x, bs, weight=1.):
    nb = len(x) // bs
    v = np.ones(len(x)) * 2
    v[:bs] = 1
    v[-bs:] = 1
    g.nodes(x, v * weight)
    for b in range(nb - 1):
        i, j = pairs(np.arange(b * bs, (b + 1) * bs), np.arange((b + 1) * bs, (b + 2) * bs))
        # both directions
        g.edge(x, i, j, weight / float(bs))
        g.edge(x, j, i, weight / float(bs))


def window(g, x, w):
    N = len(x)
    deg = np.zeros(N)
    for o in range(1, w + 1):
        g.edge(x, range(N - o), range(o, N), 1.)
        deg[:N - o] += 1
        deg[o:] += 1
    g.nodes(x, deg / (2. * w))


def mirror(g, x, w):
    N = len(x)
    g.nodes(x, 1.)
    def at(k):
        return -1 - k if k < 0 else (2 * N - 1 - k if k >= N else k)
    for o in range(-w, w + 1):
        if o:
            g.edge(x, range(N), [at(i + o) for i in range(N)], 1.)


def data(rng, N, d, dt):
    x = np.dot(rng.randn(N, d) + np.cumsum(rng.randn(N, d), axis=0) * 0.2, rng.randn(d, d) + 2 * np.eye(d))
    x = x + rng.randn(d) * x.std() * rng.choice([0, 1, 5])
    if rng.rand() < 0.3:
        x = x * 10. ** rng.randint(-2, 3)
    return x.astype(dt)


def quiet(f, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = f(*a, **k)
    return r, buf.getvalue()


def judge(rec, n, g, out, dt, key, probe):
    m, C, D = g.moments()
    w = np.linalg.eigvalsh(C)
    if w[0] <= 0 or w[-1] / w[0] * max(1., np.abs(m).max() ** 2 / w[-1]) > (1e3 if dt == 'f' else 1e9):
        raise Skip('numeric')
    tol = (1e-5 if dt == 'f' else 1e-13) * w[-1] / w[0] * max(1., np.abs(m).max() ** 2 / w[-1]) * 100
    if tol > 0.02:
        raise Skip('numeric')
    ref = sl.eigh(D, C)[0]
    k = out or len(ref)
    d, sf = np.asarray(n.d, 'd'), np.asarray(n.sf, 'd')
    rec.require(d.shape == (k,) and sf.shape == (len(ref), k) and n.output_dim == k, key + ':count',
                lambda: '%s slowness values, filters %s, output_dim %s, expected %d' % (d.shape, sf.shape, n.output_dim, k))
    rec.require((np.diff(d) >= -tol * ref[-1]).all(), key + ':order', lambda: 'not in order of slowness: %s' % d)
    e = np.abs(np.asarray(n.avg, 'd') - m).max() / (np.abs(m).max() + np.sqrt(w[-1]))
    rec.require(e <= tol, key + ':avg', lambda: 'weighted mean off by %g' % e)
    e = np.abs(d - ref[:k]).max() / ref[-1]
    rec.require(e <= tol, key + ':d', lambda: 'slowness values %s, explicit graph %s' % (d, ref[:k]))
    y = np.asarray(n.execute(probe), 'd')
    z = np.dot(np.asarray(probe, 'd') - m, sf)
    rec.require(y.shape == z.shape and np.abs(y - z).max() <= tol * (1 + np.abs(z).max()), key + ':execute', 'execution is not (x-avg)*sf')
    q = np.dot(sf.T, np.dot(C, sf))
    e = np.abs(q - np.eye(k)).max()
    rec.require(e <= tol, key + ':white', lambda: 'weighted covariance of the features off by %g:\n%s' % (e, q))
    q = np.dot(sf.T, np.dot(D, sf))
    e = np.abs(q - np.diag(ref[:k])).max() / ref[-1]
    rec.require(e <= tol, key + ':delta', lambda: 'weighted squared differences over the edges\n%s\nexpected diagonal %s' % (q, ref[:k]))
    if k == len(ref):
        b = n.inverse(n.execute(probe))
        e = np.abs(np.asarray(b, 'd') - probe).max() / (np.abs(probe).max() + 1e-300)
        rec.require(e <= tol * 10, key + ':inverse', lambda: 'inverse off by %g' % e)
        rec.event('inverses')
    if k > 1 and dt == 'd':
        c = int(rng_int(d, k))
        y1 = n.execute(probe, c)
        rec.require(np.array_equal(np.asarray(y1), n.execute(probe)[:, :c]) or np.abs(y1 - y[:, :c]).max() <= tol * (1 + np.abs(y).max()),
                    key + ':n', 'execution with n features')
    rec.event('graphs')
    rec.event('edges', g.edges)


def rng_int(d, k):
    return 1 + int(abs(d[0]) * 1e6) % (k - 1) if k > 1 else 1


def one_mode(rng, mode, dim, dt, shared=None):
    """(x, train kwargs, function adding to the graph)"""
    weight = 1.
    lo = 3 * dim + 4
    if shared is None:
        if mode in ('clustered', 'serial', 'mixed'):
            bs = int(rng.randint(1 if mode != 'clustered' else 2, 9))
            nb = max(int(rng.randint(2, 8)), -(-lo // bs))
            N = nb * bs
        elif mode == 'compact':
            J = int(rng.randint(1, 4))
            bs = max(int(rng.randint(2, 6)), -(-lo // 2 ** J))
            N = bs * 2 ** J
        else:
            N = int(rng.randint(lo, lo + 40))
            bs = None
        x = data(rng, N, dim, dt)
    else:
        x, bs = shared
        N = len(x)
    kw = {'train_mode': mode}
    if mode == 'regular':
        if rng.rand() < 0.3:
            kw = {} if rng.rand() < 0.5 else {'train_mode': None}
        add = lambda g: chain(g, x)
    elif mode == 'unlabeled':
        add = lambda g: g.nodes(x, 1.)
    elif mode == 'clustered':
        if shared is None and rng.rand() < 0.5:
            sizes, left = [], N
            while left:
                s = int(rng.randint(1, min(left, 2 * bs) + 1))
                sizes.append(s)
                left -= s
            kw['block_size'] = sizes if rng.rand() < 0.6 else np.array(sizes)
        else:
            sizes = [bs] * (N // bs)
            kw['block_size'] = bs if rng.rand() < 0.8 else np.int64(bs)
        def add(g):
            a = 0
            for s in sizes:
                complete(g, x, np.arange(a, a + s), 1.)
                a += s
    elif mode == 'serial':
        kw['block_size'] = bs if rng.rand() < 0.8 else [bs] * (N // bs)
        add = lambda g: serial(g, x, bs)
    elif mode == 'mixed':
        kw['block_size'] = bs
        def add(g):
            for b in range(N // bs):
                complete(g, x, np.arange(b * bs, (b + 1) * bs), 2. if b in (0, N // bs - 1) else 1.)
            serial(g, x, bs)
    elif mode == 'classification':
        nl = int(rng.randint(2, 6))
        lab = rng.randint(0, nl, size=N)
        names = rng.permutation(100)[:nl] - 50 if rng.rand() < 0.7 else np.array(['a', 'bb', 'c', 'ddd', 'e'])[:nl]
        labels = names[lab]
        weight = float(rng.choice([1., 0.5, 3.]))
        kw['train_mode'] = ('classification', labels if rng.rand() < 0.8 else list(labels), weight)
        def add(g):
            for k in range(nl):
                idx = np.where(lab == k)[0]
                if len(idx):
                    complete(g, x, idx, weight)
    elif mode == 'serial_regression':
        divs = [b for b in range(1, N // 2 + 1) if N % b == 0]
        b = int(rng.choice(divs))
        labels = rng.permutation(N) * 0.37 - 3
        weight = float(rng.choice([1., 0.25, 2.]))
        kw['train_mode'] = ('serial_regression%d' % b, labels if rng.rand() < 0.8 else list(labels), weight)
        add = lambda g: serial(g, x[np.argsort(labels)], b, weight)
    elif mode == 'compact':
        extra = int(rng.randint(0, 2)) if J > 1 else 0
        kw = {'train_mode': 'compact_classes%d' % (J + extra),
              'block_size': bs if rng.rand() < 0.6 else [bs] * 2 ** J}
        cls = np.arange(N) // bs
        bits = [(cls >> (J - 1 - j)) & 1 for j in range(J)]
        ev = np.array([1.] * J + ([.5] if extra else []))
        if extra:
            bits.append(np.bitwise_xor.reduce(np.array(bits), axis=0))
        ev /= ev.sum()
        def add(g):
            for e, b in zip(ev, bits):
                for s in (0, 1):
                    complete(g, x, np.where(b == s)[0], e)
    elif mode in ('window', 'fwindow', 'mirror_window', 'smirror_window'):
        w = int(rng.randint(1, min((N - 1) // 2, 12) + 1))
        if rng.rand() < 0.2:
            w = (N - 1) // 2
        kw['train_mode'] = '%s%d' % (mode, w)
        add = (lambda g: mirror(g, x, w)) if 'mirror' in mode else (lambda g: window(g, x, w))
    elif mode in ('graph', 'graph_old'):
        v = None if rng.rand() < 0.25 else rng.rand(N) + 0.1
        kind = rng.choice(['dict', 'full', 'symmetric', 'sparse', 'consistent'])
        E = rng.rand(N, N)
        if kind in ('sparse', 'dict'):
            E *= rng.rand(N, N) < 0.3
            E[0, 1] = 1.
        if kind == 'symmetric':
            E = E + E.T
        if kind == 'consistent':
            E = E + E.T
            v = E.sum(axis=1)
        if kind == 'dict':
            kw['edge_weights'] = dict(((int(i), int(j)), float(E[i, j])) for i, j in zip(*np.nonzero(E)))
        else:
            kw['edge_weights'] = E
        if v is not None:
            kw['node_weights'] = v
        def add(g):
            g.nodes(x, 1. if v is None else v)
            i, j = np.nonzero(E)
            g.edge(x, i, j, E[i, j])
    else:
        raise AssertionError(mode)
    return x, kw, add


MODES = ['regular', 'clustered', 'serial', 'mixed', 'classification', 'serial_regression', 'compact', 'window', 'fwindow',
         'mirror_window', 'smirror_window', 'graph', 'graph_old', 'unlabeled+']


@CHECK.each([(m, m) for m in MODES], quick=50, thorough=600)
def modes(rng, rec, mode):
    """One training mode over one or several chunks."""
    dt = 'f' if rng.rand() < 0.15 else 'd'
    dim = int(rng.randint(1, 7))
    out = int(rng.randint(1, dim + 1)) if rng.rand() < 0.6 else None
    kw0 = {'output_dim': out} if out else {}
    if rng.rand() < 0.2:
        kw0['dtype'] = dt
    verbose = rng.rand() < 0.1
    if verbose:
        kw0['verbose'] = True
    seq = [mode] * int(rng.choice([1, 1, 2, 3])) if mode != 'unlabeled+' else \
        [str(rng.choice(['clustered', 'regular', 'serial']))] + ['unlabeled'] * int(rng.randint(1, 3))
    steps = [one_mode(rng, m, dim, dt) for m in seq]
    ctor = False
    if len(steps) == 1 and rng.rand() < 0.3 and 'edge_weights' not in steps[0][1]:
        # the same options given to the constructor
        kw0.update(steps[0][1])
        ctor = True
    n = mn.GSFANode(**kw0)
    g = Graph()
    for x, kw, add in steps:
        c = x.copy()
        quiet(n.train, c, **({} if ctor else kw))
        rec.require(np.array_equal(c, x), 'input', 'training changed the data')
        c[...] = 99.
        add(g)
    if len(steps) > 1:
        rec.event('multi_chunk')
    if rng.rand() < 0.8:
        quiet(n.stop_training)
    elif n.is_training():
        quiet(n.execute, steps[0][0])
    judge(rec, n, g, out, dt, mode, steps[-1][0][:9])
    rec.case(mode, dt, dim, out, len(steps), [len(s[0]) for s in steps], ctor)


@CHECK.scenario(quick=40, thorough=400)
def several(rng, rec):
    """A list of training modes superposes the graphs."""
    dim = int(rng.randint(1, 6))
    bs = int(rng.randint(2, 6))
    N = bs * int(rng.randint(max(2, (3 * dim + 4) // bs + 1), 30))
    x = data(rng, N, dim, 'd')
    pool = ['regular', 'clustered', 'serial', 'mixed', 'classification', 'serial_regression', 'window', 'mirror_window']
    ms = [str(m) for m in rng.choice(pool, size=int(rng.randint(2, 5)))]
    g = Graph()
    modes_, block = [], None
    for m in ms:
        _, kw, add = one_mode(rng, m, dim, 'd', shared=(x, bs))
        modes_.append(kw.get('train_mode') or 'regular')
        add(g)
    n = mn.GSFANode()
    n.train(x.copy(), train_mode=modes_, block_size=bs)
    n.stop_training()
    judge(rec, n, g, None, 'd', 'several', x[:7])
    rec.event('multi_mode')
    rec.case(dim, bs, N, ms)


@CHECK.scenario(quick=40, thorough=300)
def equivalences(rng, rec):
    """Modes documented as equal give equal features; regular mode is standard SFA up to the output scale."""
    dim = int(rng.randint(2, 6))
    bs = int(rng.randint(2, 7))
    x = data(rng, bs * (4 * dim), dim, 'd')
    a = mn.GSFANode()
    b = mn.GSFANode()
    kind = str(rng.choice(['class', 'regress', 'sfa']))
    N = len(x)
    if kind == 'class':
        a.train(x, train_mode='clustered', block_size=bs)
        lab = np.arange(N) // bs
        p = rng.permutation(N)
        b.train(x[p], train_mode=('classification', lab[p], 1.))
    elif kind == 'regress':
        a.train(x, train_mode='serial', block_size=bs)
        p = rng.permutation(N)
        b.train(x[p], train_mode=('serial_regression%d' % bs, p * 1.5, 1.))
    else:
        a.train(x, train_mode='regular')
        b = mn.SFANode()
        b.train(x)
    a.stop_training()
    b.stop_training()
    if kind == 'sfa':
        # standard SFA divides both moments by one sample less
        f = (N / (N - 1.)) / ((N - 1.) / (N - 2.))
        da, db, ya, yb = a.d, b.d * f, a.execute(x), b.execute(x)
        r = np.sqrt((N - 1.) / N)
        yb = yb / r
    else:
        da, db, ya, yb = a.d, b.d, a.execute(x), b.execute(x)
    gap = np.diff(a.d).min() / a.d.max() if dim > 1 else 1.
    if gap < 1e-4:
        raise Skip('close slowness values')
    s = np.sign((ya * yb).sum(axis=0))
    rec.require(np.abs(da - db).max() <= 1e-7 * a.d.max(), 'equal:' + kind + ':d', lambda: '%s and %s' % (da, db))
    rec.require(np.abs(ya - yb * s).max() <= 1e-6 / gap * np.abs(ya).max(), 'equal:' + kind + ':y', lambda: 'features differ by %g' % np.abs(ya - yb * s).max())
    rec.event('graphs')
    rec.case(kind, dim, bs, N)


@CHECK.scenario(quick=60, thorough=300)
def refusals(rng, rec):
    """Inconsistent graphs are refused with a documented error."""
    dim = int(rng.randint(1, 5))
    bs = int(rng.randint(2, 6))
    nb = int(rng.randint(3, 6))
    x = data(rng, bs * nb, dim, 'd')
    N = len(x)
    E = rng.rand(N, N)
    cases = {
        'no block': dict(train_mode=str(rng.choice(['clustered', 'serial', 'compact_classes2']))),
        'wrong sum': dict(train_mode='clustered', block_size=[bs] * (nb - 1)),
        'not a multiple': dict(train_mode=str(rng.choice(['clustered', 'serial'])), block_size=N - 1),
        'different sizes': dict(train_mode='serial', block_size=[bs - 1, bs + 1] + [bs] * (nb - 2)),
        'one block': dict(train_mode='serial', block_size=N),
        'window': dict(train_mode='%s%d' % (rng.choice(['window', 'fwindow', 'mirror_window', 'smirror_window']), N)),
        'unknown': dict(train_mode='bogus'),
        'unknown method': dict(train_mode=('bogus', np.arange(N), 1.)),
        'unknown type': dict(train_mode=3.5),
        'node weights': dict(train_mode=str(rng.choice(['graph', 'graph_old'])), edge_weights=E, node_weights=np.ones(N - 1)),
        'no edge weights': dict(train_mode=str(rng.choice(['graph', 'graph_old'])), node_weights=np.ones(N)),
        'edge weights': dict(train_mode=str(rng.choice(['graph', 'graph_old'])), edge_weights=E[:-1]),
        'not a power': dict(train_mode='compact_classes2', block_size=bs) if nb not in (4,) else dict(train_mode='bogus'),
    }
    what = str(rng.choice(sorted(cases)))
    n = mn.GSFANode()
    try:
        n.train(x, **cases[what])
    except (ValueError, mdp.TrainingException) as e:
        rec.require(len(str(e)) > 10, 'refusal:message', 'empty message')
    else:
        rec.require(False, 'refusal:' + what, 'accepted without an error: %s' % what)
    # refused data have no effect
    n.train(x, train_mode='regular')
    n.stop_training()
    g = Graph()
    chain(g, x)
    if dim * 3 + 2 < N:
        judge(rec, n, g, None, 'd', 'refusal:after', x[:5])
    rec.event('refusals')
    rec.case(what, dim, bs, nb)


# ---------------------------------------------------------------------------

def identity(x):
    return x


def squares(x):
    return x ** 2


def pairsum(x):
    return x[:, 1:] * x[:, :-1]


@CHECK.each([('plain', False), ('reconstruct', True)], quick=100, thorough=800)
def igsfa(rng, rec, reconstruct):
    """Information-preserving GSFA: slow part, reconstructive part, inverse."""
    dim = int(rng.randint(2, 7))
    bs = int(rng.randint(2, 5))
    mode = str(rng.choice(['regular', 'serial', 'clustered', 'mixed']))
    funcs = [None, [identity], [identity, squares], [identity, pairsum]][int(rng.randint(4))]
    edim = dim if funcs is None else sum(f(np.zeros((1, dim))).shape[1] for f in funcs)
    out = int(rng.randint(1, dim + 1)) if rng.rand() < 0.7 else dim
    scaling = [None, 'data_dependent'][int(rng.randint(2))] if not reconstruct else \
        [None, 'data_dependent', 'sensitivity_based', 'QR_decomposition'][int(rng.randint(4))]
    kw = {'reconstruct_with_sfa': True} if reconstruct else {}
    if scaling or rng.rand() < 0.5:
        kw['slow_feature_scaling_method'] = scaling
    if out != dim or rng.rand() < 0.5:
        kw['output_dim'] = out
    if funcs:
        kw['expansion_funcs'] = funcs
    ml = int(rng.randint(1, edim + 2)) if rng.rand() < 0.5 else None
    if ml:
        kw['max_length_slow_part'] = ml
    sdim = min(edim, out, ml or edim)
    if rng.rand() < 0.5:
        thr = int(rng.randint(1, sdim + 1))
        kw['delta_threshold'] = thr
    else:
        thr = float(rng.choice([0.05, 0.2, 0.6, 1.999, 3.])) if rng.rand() < 0.8 else 1.999
        if thr != 1.999:
            kw['delta_threshold'] = thr
    if reconstruct and funcs and rng.rand() < 0.3:
        kw['pre_expansion_node_class'] = mn.GSFANode
        kw['pre_expansion_out_dim'] = dim
    pre = 'pre_expansion_node_class' in kw
    nchunks = 1 if reconstruct else int(rng.choice([1, 1, 2, 3]))
    n = mn.iGSFANode(**kw)
    g = Graph()
    xs = []
    tk = {} if mode == 'regular' and rng.rand() < 0.3 else {'train_mode': mode}
    if mode != 'regular':
        tk['block_size'] = bs
    x_mean = None
    for k in range(nchunks):
        N = bs * int(rng.randint((4 * edim) // bs + 2, (4 * edim) // bs + 30))
        x = data(rng, N, dim, 'd')
        x = (x - x.mean(axis=0)) / x.std() + rng.randn(dim)
        xs.append(x)
        quiet(n.train, x.copy(), **tk)
        if reconstruct:
            x_mean = x.mean(axis=0)
            xx = x - x_mean
            if pre:
                p = mn.GSFANode(output_dim=dim)
                p.train(xx, **tk)
                p.stop_training()
                if np.diff(p.d).min() < 1e-4 * p.d.max():
                    raise Skip('close slowness values')
                # signs of the pre-expansion features are arbitrary
                xx = n.pre_expansion_node.execute(xx)
                q = p.execute(x - x_mean)
                rec.require(np.abs(np.abs(q) - np.abs(xx)).max() < 1e-5, 'igsfa:pre', 'pre-expansion features')
        else:
            xx = x
        ex = xx if funcs is None else np.concatenate([f(xx) for f in funcs], axis=1)
        if mode == 'regular':
            chain(g, ex)
        elif mode == 'serial':
            serial(g, ex, bs)
        else:
            for b in range(N // bs):
                end = b in (0, N // bs - 1)
                complete(g, ex, np.arange(b * bs, (b + 1) * bs), 2. if end and mode == 'mixed' else 1.)
            if mode == 'mixed':
                serial(g, ex, bs)
    m, C, D = g.moments()
    w = np.linalg.eigvalsh(C)
    if w[0] <= w[-1] * 1e-7:
        raise Skip('numeric')
    ref, U = sl.eigh(D, C)
    if isinstance(thr, float) and np.abs(ref - thr).min() < 1e-6:
        raise Skip('threshold')
    ns = thr if isinstance(thr, int) else int((ref[:sdim] <= thr).sum())
    gaps = np.diff(ref[:ns + 1]) / ref[-1]
    if len(gaps) and gaps.min() < 1e-6:
        raise Skip('close slowness values')
    if rng.rand() < 0.7 and n.is_training():
        quiet(n.stop_training)
    x = np.concatenate(xs)
    (y, _) = quiet(n.execute, x)
    rec.require(y.shape == (len(x), out) and n.output_dim == out, 'igsfa:dim', lambda: '%s columns instead of %d' % (y.shape, out))
    rec.require(n.num_sfa_features_preserved == ns, 'igsfa:slow', lambda: '%s slow features instead of %d (slowness %s, threshold %r)' % (
        n.num_sfa_features_preserved, ns, ref[:sdim], thr))
    # slow part
    xz = x - x_mean if reconstruct else x
    xx = n.pre_expansion_node.execute(xz) if pre else xz
    ex = xx if funcs is None else np.concatenate([f(xx) for f in funcs], axis=1)
    slow = np.dot(ex - m, U[:, :ns])
    if reconstruct and ns:
        slow = (slow - slow.mean(axis=0)) / slow.std(axis=0)
    cond = w[-1] / w[0]
    tol = 1e-12 * cond * 100 / (gaps.min() if len(gaps) else 1.) + 1e-9
    if tol > 1e-3:
        raise Skip('numeric')
    got = y[:, :ns]
    npc = out - ns
    if reconstruct and ns:
        S = np.concatenate([np.ones((len(x), 1)), slow], axis=1)
        beta = np.linalg.lstsq(S, xz, rcond=None)[0]
        resid = xz - np.dot(S, beta)
    else:
        beta = None
        resid = xz
    if reconstruct and not ns:
        resid = xz - xz.mean(axis=0)
    cr = np.cov(resid, rowvar=False).reshape(dim, dim)
    ev, V = np.linalg.eigh(cr)
    ev, V = ev[::-1], V[:, ::-1]
    sc = xz.var(axis=0).max()
    if ns:
        if scaling == 'QR_decomposition':
            # an orthogonal change of the regression's image: same geometry
            M = beta[1:]
            e = np.abs(np.dot(got, got.T)[:60, :60] - np.dot(np.dot(slow, M), np.dot(slow, M).T)[:60, :60]).max()
            rec.require(e <= tol * 100 * max(1, np.abs(np.dot(slow, M)).max() ** 2), 'igsfa:qr', lambda: 'scaled slow part off by %g' % e)
        else:
            if scaling == 'sensitivity_based':
                f = np.sqrt((beta[1:] ** 2).sum(axis=1))
            elif scaling == 'data_dependent':
                f = np.sqrt(np.median(ev[:npc])) if npc else 1.
            else:
                f = 1.
            s = np.sign((got * slow).sum(axis=0))
            e = np.abs(got - slow * s * f).max()
            rec.require(e <= tol * 10 * max(1, np.abs(slow * f).max()), 'igsfa:slowpart', lambda: 'slow part (scaling %s) off by %g of %g' % (
                scaling, e, np.abs(slow * f).max()))
    # reconstructive part
    if npc:
        pc = y[:, ns:]
        e = np.abs(np.cov(pc, rowvar=False).reshape(npc, npc) - np.diag(ev[:npc])).max() / sc
        rec.require(e <= tol * 10, 'igsfa:pca', lambda: 'reconstructive part is not the principal components: covariance off by %g, variances %s' % (e, ev[:npc]))
        e = np.abs(pc.mean(axis=0)).max() / np.sqrt(sc)
        rec.require(e <= tol * 10, 'igsfa:pcmean', lambda: 'mean of the reconstructive part %g' % e)
    # inversion: linear estimate from both parts, best in the least squares sense
    (b, _) = quiet(n.inverse, y)
    best = (x_mean if reconstruct else 0) + (xz - resid) + resid.mean(axis=0) + \
        np.dot(np.dot(resid - resid.mean(axis=0), V[:, :npc]), V[:, :npc].T)
    if npc == 0:
        # no reconstructive part: the estimate comes from the slow part alone
        best = (x_mean if reconstruct else 0) + (xz - resid)
    pgap = (ev[npc - 1] - ev[npc]) / sc if 0 < npc < dim else 1.
    if pgap > 1e-4 or ev[npc - 1] < 1e-9 * sc:
        e = np.abs(b - best).max() / np.sqrt(sc)
        lim = tol * 100 / (pgap if pgap > 1e-4 else 1.)
        rec.require(b.shape == x.shape and e <= lim + 1e-7, 'igsfa:inverse', lambda: 'reconstruction off by %g (slow %d, principal %d)' % (e, ns, npc))
        if reconstruct and (npc >= dim - ns and funcs is None):
            e = np.abs(b - x).max() / np.sqrt(sc)
            rec.require(e <= 1e-6 + tol * 100, 'igsfa:lossless', lambda: 'full output does not reconstruct the data: %g' % e)
        rec.event('inverses')
    # consistent on new data: linear in the stored parts, row by row
    z = rng.randn(5, dim)
    yz, _ = quiet(n.execute, z)
    y1 = np.concatenate([quiet(n.execute, z[i:i + 1])[0] for i in range(5)])
    rec.require(np.abs(yz - y1).max() <= 1e-9 * (1 + np.abs(yz).max()), 'igsfa:rows', 'rows depend on each other')
    rec.event('igsfa')
    rec.case(reconstruct, dim, out, scaling, mode, ns, nchunks, edim, pre)


# ------------------------------------------------------------------ the accumulator itself

def add_graph(rng, kind, c, g, x, weight):
    """Add the same weighted graph over x to the accumulator and to the explicit graph."""
    N = len(x)
    every = np.arange(N)
    if kind == 'unlabeled':
        c.update_unlabeled(x, weight=weight)
        g.nodes(x, weight)
    elif kind == 'regular':
        c.update_regular(x, weight=weight)
        chain(g, x, weight)
    elif kind in ('graph', 'graph_old'):
        v = rng.rand(N) + .1
        E = rng.rand(N, N) * (rng.rand(N, N) < .4)
        E[0, N - 1] = .7
        e = E if rng.rand() < .5 else dict(((int(i), int(j)), float(E[i, j])) for i, j in zip(*np.nonzero(E)))
        getattr(c, 'update_' + kind)(x, node_weights=v, edge_weights=e, weight=weight)
        g.nodes(x, v * weight)
        i, j = np.nonzero(E)
        g.edge(x, i, j, E[i, j] * weight)
    elif kind in ('mirroring_sliding_window', 'slow_mirroring_sliding_window'):
        w = int(rng.randint(1, (N - 1) // 2 + 1))
        getattr(c, 'update_' + kind)(x, weight=weight, window_halfwidth=w)
        h = Graph()
        mirror(h, x, w)
        g.nodes(x, weight)
        g.D, g.R, g.edges = g.D + h.D * weight, g.R + h.R * weight, g.edges + h.edges
    elif kind in ('sliding_window', 'fast_sliding_window'):
        w = int(rng.randint(1, (N - 1) // 2 + 1))
        getattr(c, 'update_' + kind)(x, weight=weight, window_halfwidth=w)
        h = Graph()
        window(h, x, w)
        g.nodes(x, h.v[0] * weight)
        # the fast version counts every edge in both directions (as implemented; not documented)
        both = 2 if kind == 'fast_sliding_window' else 1
        g.D, g.R, g.edges = g.D + h.D * weight * both, g.R + h.R * weight * both, g.edges + h.edges
    elif kind == 'slow_truncating_sliding_window':
        w = int(rng.randint(1, (N - 1) // 2 + 1))
        c.update_slow_truncating_sliding_window(x, weight=weight, window_halfwidth=w)
        g.nodes(x, weight)
        for o in range(1, w + 1):
            g.edge(x, every[:N - o], every[o:], 2 * weight)
    elif kind == 'serial':
        bs = int(rng.choice([b for b in range(1, N // 2 + 1) if N % b == 0]))
        c.update_serial(x, bs, weight=weight)
        serial(g, x, bs, weight)
    else:
        loops = rng.rand() < .5
        sizes, left = [], N
        while left:
            s = int(rng.randint(2, left + 1)) if left > 3 else left
            s = left if left - s == 1 else s
            sizes.append(s)
            left -= s
        if rng.rand() < .4 and N % 2 == 0:
            sizes = [N // 2] * 2
        c.update_clustered(x, block_sizes=sizes[0] if len(set(sizes)) == 1 and rng.rand() < .6 else sizes, weight=weight, include_self_loops=loops)
        a = 0
        for s in sizes:
            idx = every[a:a + s]
            g.nodes(x[idx], weight)
            i, j = pairs(idx, idx)
            if loops:
                g.edge(x, i, j, weight / float(s))
            else:
                k = i != j
                g.edge(x, i[k], j[k], weight / float(s - 1))
            a += s


ACC = getattr(importlib.import_module('mdp.nodes.gsfa_nodes'), 'CovDCovMatrix', None)


KINDS_OF_UPDATE = ['unlabeled', 'regular', 'graph', 'graph_old', 'mirroring_sliding_window', 'slow_mirroring_sliding_window', 'sliding_window',
                   'fast_sliding_window', 'slow_truncating_sliding_window', 'serial', 'clustered']


@CHECK.each([(k, k) for k in KINDS_OF_UPDATE], quick=20, thorough=200)
def accumulators(rng, rec, first):
    """Weighted updates of the covariance accumulator in any sequence, merged from parts."""
    dim = int(rng.randint(1, 5))
    if ACC is None:
        raise Skip('the accumulator is not where it was')
    parts, log = [], []
    for p in range(int(rng.choice([1, 1, 2, 3]))):
        c, g = ACC(), Graph()
        kinds = [first if p == 0 else str(rng.choice(KINDS_OF_UPDATE))] + [str(k) for k in rng.choice(KINDS_OF_UPDATE, size=rng.randint(0, 3))]
        if not set(kinds) - set(['unlabeled']):
            kinds.append('regular')
        for k in kinds:
            x = data(rng, int(rng.randint(5, 24)), dim, 'd')
            x0, weight = x.copy(), float(rng.choice([1., .25, 2., 7.]))
            h = Graph()
            add_graph(rng, k, c, h, x, weight)
            g.x += [a.copy() for a in h.x]
            g.v += h.v
            g.D, g.R, g.edges = g.D + h.D, g.R + h.R, g.edges + h.edges
            rec.require(np.array_equal(x, x0), 'input', 'update_%s changed the data' % k)
            x[...] = np.nan
            log.append((k, weight))
        parts.append((c, g))
    c, g = parts[0]
    for c2, g2 in parts[1:]:
        wa, wo = float(rng.choice([1., .5, 3.])), float(rng.choice([1., 1., .5, 2.]))
        c.add_cov_dcov_matrix(c2, adding_weight=wa, own_weight=wo)
        g.v = [v * wo for v in g.v] + [v * wa for v in g2.v]
        g.x = g.x + g2.x
        g.D, g.R, g.edges = g.D * wo + g2.D * wa, g.R * wo + g2.R * wa, g.edges + g2.edges
        log.append(('merge', wa, wo))
    m, C, D = g.moments()
    got = c.fix()
    sc = (np.concatenate(g.x) ** 2).max()
    for name, a, b, s in (('covariance', got[0], C, sc), ('mean', got[1], m, np.sqrt(sc)), ('differences', got[2], D, sc)):
        rec.require(np.shape(a) == np.shape(b) and np.abs(a - b).max() <= 1e-9 * (s + 1e-300), 'accumulator:' + name,
                    lambda: 'CovDCovMatrix after %s: %s is\n%s\nexplicit graph\n%s' % (log, name, a, b))
    rec.require(got[0] is c.cov_mtx and got[1] is c.avg and got[2] is c.dcov_mtx, 'accumulator:fields', 'fix() returns something else than it stores')
    rec.event('accumulators')
    rec.event('edges', g.edges)
    rec.case(tuple(log), dim)
