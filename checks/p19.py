"""P19 PCA, whitening and NIPALS return the principal subspace in order."""
import numpy as np
import mdp
import bimdp  # noqa
import mdp.nodes as mn
from harness.core import Check, Skip

CHECK = Check('P19', 'A case trains one principal component node with random options (count, fraction, reduction thresholds, '
              'solver, number type, chunking) on random data of known spectrum (tall, wide, rank deficient, badly scaled), '
              'and judges directions, variances, counts and projections against the covariance of the data. '
              'Distinct by node, data kind, sizes and options.')
CHECK.expect_events(trained=700, residuals=700, count_rules=700, whitened=200, deficient=150, wide=60, projections=700)

CC = np.ascontiguousarray


def orth(rng, n, k):
    q, _ = np.linalg.qr(rng.randn(n, k))
    return q


def data(rng, T, d, kind, dt):
    """Data with well separated variances (ratio >= 1.5)."""
    r = min(T - 1, d)
    if kind == 'deficient':
        r = int(rng.randint(1, max(2, r)))
    top = 0.5
    sd = np.cumprod(np.r_[1., 1. / (1.25 + top * rng.rand(max(r - 1, 0)))])
    if kind == 'diagonal':
        # exactly uncorrelated columns of different size in any order
        base = np.zeros((4 * d, d))
        for j in range(d):
            base[4 * j:4 * j + 4, j] = [1, 1, -1, -1]
        s = (np.arange(1, d + 1) * 2.)[rng.permutation(d)]
        x = base * s
        return x[rng.permutation(len(x))].astype(dt)
    left = rng.randn(T, r)
    left -= left.mean(axis=0)
    left, _ = np.linalg.qr(left)
    x = np.dot(left * sd[:r] * np.sqrt(T - 1), orth(rng, d, r).T)
    if kind == 'constant-column':
        x[:, int(rng.randint(d))] = 0
    if kind == 'scaled':
        x *= 10. ** rng.randint(-3, 4)
    x = x + rng.randn(d) * np.abs(x).max()
    if kind == 'constant-column' and rng.rand() < 0.5:
        x[:, np.abs(x - x.mean(axis=0)).max(axis=0) < 1e-12] = float(rng.randint(0, 3))
    return x.astype(dt)


KINDS = ['tall', 'deficient', 'wide', 'scaled', 'diagonal', 'constant-column']


def sizes(rng, kind):
    d = int(rng.randint(2, 9))
    if kind == 'wide':
        d = max(d, 3)
        return int(rng.randint(3, d + 1)), d + int(rng.randint(1, 6))
    if kind == 'diagonal':
        d = int(rng.randint(2, 6))
        return 4 * d, d
    return int(d + 2 + rng.randint(0, 60)), d


def train(rng, rec, n, x, **kw):
    T = len(x)
    pts = sorted(set(int(p) for p in rng.randint(1, T, size=int(rng.randint(0, 4))))) if T > 3 else []
    last = 0
    for p in pts + [T]:
        c = x[last:p].copy()
        n.train(c)
        rec.require(np.array_equal(c, x[last:p]), 'input-changed', 'training changed the data')
        c[...] = 1e4
        last = p
    n.stop_training(**kw)
    rec.event('trained')


def reference(x):
    X = x.astype('d')
    m = X.mean(axis=0)
    c = np.dot((X - m).T, X - m) / (len(X) - 1)
    w, u = np.linalg.eigh(c)
    return m, c, w[::-1], u[:, ::-1]


def judge(rec, n, x, dt, key, white=False):
    """Directions, variances, mean and projections of a trained node."""
    m, c, w, u = reference(x)
    wmax = w[0]
    k = n.output_dim
    scale2 = float(np.abs(x.astype('d')).max()) ** 2
    eps = 2e-4 if dt == 'f' else 1e-9
    te = eps * max(wmax, (1e-2 if dt == 'f' else 1e-5) * scale2)
    dd = np.asarray(n.d, 'd')
    rec.require(dd.shape == (k,), key + ':d-shape', lambda: '%s for %d components' % (dd.shape, k))
    rec.require(np.isfinite(dd).all(), key + ':d-finite', lambda: str(dd))
    rec.require((np.diff(dd) <= te).all(), key + ':order', lambda: 'variances not descending: %s' % dd)
    rec.require(np.abs(dd - w[:k]).max() <= te, key + ':variances', lambda: 'variances %s instead of %s' % (dd, w[:k]))
    v = np.asarray(n.get_eigenvectors() if white else n.v, 'd')
    rec.require(v.shape == (x.shape[1], k), key + ':v-shape', lambda: str(v.shape))
    rec.require(np.isfinite(v).all(), key + ':v-finite', 'directions are not finite')
    e = np.abs(np.dot(v.T, v) - np.eye(k)).max()
    rec.require(e < (1e-3 if dt == 'f' else 1e-7), key + ':orthonormal', lambda: 'off by %g' % e)
    e = np.abs(np.dot(c, v) - v * dd).max()
    rec.require(e <= te, key + ':eigenvectors', lambda: 'residual %g (largest variance %g)' % (e, wmax))
    rec.event('residuals')
    avg = np.asarray(n.avg, 'd').reshape(-1)
    rec.require(np.abs(avg - m).max() <= (1e-4 if dt == 'f' else 1e-11) * np.sqrt(scale2), key + ':avg', lambda: '%s instead of %s' % (avg, m))
    tot = np.trace(c)
    rec.require(abs(float(n.total_variance) - tot) <= te * len(w), key + ':total', lambda: '%s instead of %s' % (n.total_variance, tot))
    rec.require(abs(float(n.get_explained_variance()) - dd.sum() / tot) <= 10 * te / tot + eps, key + ':explained',
                lambda: 'explained variance %s, but %s' % (n.explained_variance, dd.sum() / tot))
    rec.require(n.tlen == len(x), key + ':tlen', str(n.tlen))
    return m, c, w, dd, v, te


def projections(rng, rec, n, x, m, v, dd, dt, key, white):
    z = x[:int(rng.randint(1, len(x) + 1))] + np.array(0, x.dtype)
    k = v.shape[1]
    tolx = (3e-3 if dt == 'f' else 1e-6) * float(np.abs(x).max())
    p = np.dot(z.astype('d') - m, v)
    s = np.sqrt(dd) if white else np.ones(k)
    if white and (dd <= 0).any():
        raise Skip('no variance')
    y = n.execute(z)
    rec.require(y.shape == (len(z), k), key + ':exec-shape', str(y.shape))
    t = tolx / (s.min() if white else 1)
    rec.require(np.abs(y - p / s).max() <= t, key + ':execute', lambda: 'off by %g' % np.abs(y - p / s).max())
    r = n.inverse(y)
    want = np.dot(p, v.T) + m
    rec.require(np.abs(r - want).max() <= 3 * tolx, key + ':inverse', lambda: 'off by %g' % np.abs(r - want).max())
    j = int(rng.randint(1, k + 1))
    yj = n.execute(z, n=j) if rng.rand() < 0.5 else n.execute(z, j)
    rec.require(yj.shape == (len(z), j) and np.abs(yj - y[:, :j]).max() <= t, key + ':execute-n', 'first components differ')
    rj = n.inverse(y, n=j)
    want = np.dot(p[:, :j], v[:, :j].T) + m
    rec.require(np.abs(rj - want).max() <= 3 * tolx, key + ':inverse-n', lambda: 'off by %g' % np.abs(rj - want).max())
    rj = n.inverse(y[:, :j])
    rec.require(np.abs(rj - want).max() <= 3 * tolx, key + ':inverse-few', lambda: 'off by %g' % np.abs(rj - want).max())
    # the two matrices
    P, R = np.asarray(n.get_projmatrix(), 'd'), np.asarray(n.get_recmatrix(), 'd')
    rec.require(np.array_equal(P.T, n.get_projmatrix(transposed=0)) and np.array_equal(R.T, n.get_recmatrix(transposed=0)),
                key + ':transposed', 'transposed matrices differ')
    rec.require(np.abs(P - v / s).max() <= 1e-3 * np.abs(P).max() + 1e-9 if dt == 'f' else np.abs(P - v / s).max() <= 1e-7 * np.abs(P).max(),
                key + ':projmatrix', 'wrong projection matrix')
    e = np.abs(np.dot(R, P) - np.eye(k)).max()
    rec.require(e < (1e-2 if dt == 'f' else 1e-6), key + ':recmatrix', lambda: 'reconstruction times projection differs from one by %g' % e)
    rec.event('projections')


def options(rng, kind, dt, w, T, d):
    """Options and the number of components they must give (None: any)."""
    rank = int((w > w[0] * (1e-5 if dt == 'f' else 1e-11)).sum())
    how = str(rng.choice(['all', 'count', 'fraction', 'one']))
    kw, want = {}, d
    if how == 'count':
        want = int(rng.randint(1, d + 1))
        kw['output_dim'] = want
    elif how == 'one':
        kw['output_dim'] = 1.
        want = None
    elif how == 'fraction':
        f = float(rng.rand() * 0.98 + 0.01)
        cum = np.cumsum(w) / w.sum()
        if np.abs(cum - f).min() < (1e-3 if dt == 'f' else 1e-7):
            raise Skip('at the threshold')
        kw['output_dim'] = f if rng.rand() < 0.7 else np.float64(f)
        want = int(np.searchsorted(cum, f) + 1)
    if rng.rand() < 0.4:
        kw['svd'] = True
    reduce_ = rng.rand() < 0.5 or (how == 'all' and kind in ('wide', 'deficient', 'constant-column') and 'svd' not in kw)
    if reduce_:
        kw['reduce'] = True
        rel = 1e-5 if dt == 'f' else 1e-12
        ab = 1e-15
        part = None
        if dt == 'f':
            kw['var_rel'] = rel
        pos = [float(np.sqrt(w[i] * w[i + 1])) for i in range(rank - 1)]
        if pos and rng.rand() < 0.3:
            ab = pos[rng.randint(len(pos))]
            kw['var_abs'] = ab
        if pos and rng.rand() < 0.3:
            rel = pos[rng.randint(len(pos))] / w[0]
            if rel > (1e-5 if dt == 'f' else 1e-11):
                kw['var_rel'] = rel
            else:
                rel = kw.get('var_rel', 1e-12)
        if pos and rng.rand() < 0.3:
            part = pos[rng.randint(len(pos))] / w.sum()
            kw['var_part'] = part
        noise = w[0] * (1e-6 if dt == 'f' else 1e-12)
        if ((w > noise / 100) & (w < noise * 100)).any() and rank < d:
            raise Skip('rank not clear')
        ok = (w > ab) & (w / w[0] > rel) & (w > noise)
        if part:
            ok &= w / w.sum() > part
        n = int(ok.sum())
        if n == 0:
            return how, kw, 0, rank
        want = n if want is None else min(want, n)
        if how == 'one':
            # all components with any variance, then reduced
            want = n
    elif want is None:
        want = rank if rank == d else None
    return how, kw, want, rank


def pca_case(rng, rec, kind, cls, white):
    dt = str(rng.choice(['d', 'd', 'f']))
    T, d = sizes(rng, kind)
    x = data(rng, T, d, kind, dt)
    T, d = x.shape
    m, c, w, u = reference(x)
    if dt == 'f' and np.abs(x).max() ** 2 > 300 * w[0]:
        raise Skip('cancellation')
    how, kw, want, rank = options(rng, kind, dt, w, T, d)
    full = rank == d
    if dt == 'f' and not full and np.abs(x).max() ** 2 > 20 * w[0]:
        raise Skip('cancellation')
    if not full:
        rec.event('deficient')
    if T <= d:
        rec.event('wide')
    if rng.rand() < 0.3:
        kw['dtype'] = dt
    if rng.rand() < 0.3:
        kw['input_dim'] = d
    n = cls(**kw)
    stop = {'debug': True} if rng.rand() < 0.1 else {}
    key = ('white' if white else 'pca')
    try:
        train(rng, rec, n, x, **stop)
    except mdp.NodeException as e:
        # documented: negative eigenvalues without reduce/svd/fraction, nothing above the thresholds
        if want == 0 and 'No eigenvalues' in str(e):
            rec.event('count_rules')
            return
        rec.require(not full and not n.reduce and not n.svd and n.desired_variance is None and 'negative' in str(e),
                    key + ':refused', lambda: 'refused a solvable problem (%s): %s' % (kw, e))
        rec.event('documented_refusals')
        return
    k = n.output_dim
    if want == 0:
        # all below the thresholds: kept by none of the rules
        rec.require(k == 0, key + ':nothing', lambda: '%s components, none expected (%s)' % (k, kw))
        return
    if want is not None:
        rec.require(k == want, key + ':count', lambda: '%s components instead of %s for %s, variances %s' % (k, want, kw, w))
    else:
        rec.require(rank <= k <= d, key + ':count-one', lambda: '%s of %s components for everything' % (k, d))
    rec.event('count_rules')
    if white and k > rank:
        # directions without variance cannot be whitened; keeping them was requested
        rec.event('unwhitenable')
        return
    m, c, w, dd, v, te = judge(rec, n, x, dt, key, white)
    if white:
        y = n.execute(x).astype('d')
        cond = w[0] / dd.min()
        lim = (5e-4 if dt == 'f' else 1e-9) * (10 + cond) * max(1, np.abs(x).max() ** 2 / w[0])
        if lim < 0.05:
            e = np.abs(y.mean(axis=0)).max()
            rec.require(e <= lim, key + ':zero-mean', lambda: 'mean %g' % e)
            cy = np.dot((y - y.mean(axis=0)).T, y - y.mean(axis=0)) / (len(y) - 1)
            e = np.abs(cy - np.eye(k)).max()
            rec.require(e <= lim, key + ':unit-covariance', lambda: 'covariance off by %g' % e)
            rec.event('whitened')
    if not white or dd.min() > (1e-4 if dt == 'f' else 1e-10) * dd.max():
        projections(rng, rec, n, x, m, v, dd, dt, key, white)
    rec.case(key, kind, dt, T, d, how, sorted(kw), k)


@CHECK.each([(k, k) for k in KINDS], quick=60, thorough=1000)
def pca(rng, rec, kind):
    pca_case(rng, rec, kind, mn.PCANode, False)


@CHECK.each([(k, k) for k in KINDS], quick=60, thorough=1000)
def whitening(rng, rec, kind):
    pca_case(rng, rec, kind, mn.WhiteningNode, True)


@CHECK.each([(k, k) for k in KINDS], quick=40, thorough=600)
def nipals(rng, rec, kind):
    dt = str(rng.choice(['d', 'd', 'd', 'f']))
    T, d = sizes(rng, kind)
    x = data(rng, T, d, kind, dt)
    T, d = x.shape
    m, c, w, u = reference(x)
    if dt == 'f' and np.abs(x).max() ** 2 > 300 * w[0]:
        raise Skip('cancellation')
    rank = int((w > w[0] * (1e-5 if dt == 'f' else 1e-11)).sum())
    how = str(rng.choice(['all', 'count', 'fraction', 'one']))
    kw = {'conv': (1e-9 if dt == 'f' else 1e-20) * T * w[0]}
    want = d
    if how == 'count':
        want = kw['output_dim'] = int(rng.randint(1, d + 1))
    elif how == 'one':
        kw['output_dim'] = 1.
        want = rank if kind in ('wide', 'deficient') or rank == d else None
        if dt == 'f' or rank == d:
            want = None
    elif how == 'fraction':
        f = float(rng.rand() * 0.98 + 0.01)
        cum = np.cumsum(w) / w.sum()
        if np.abs(cum - f).min() < (1e-3 if dt == 'f' else 1e-7):
            raise Skip('at the threshold')
        kw['output_dim'] = f
        want = int(np.searchsorted(cum, f) + 1)
    if rank < d:
        rec.event('deficient')
    if T <= d:
        rec.event('wide')
    if dt == 'f':
        kw['max_it'] = 3000
    n = mn.NIPALSNode(**kw)
    try:
        train(rng, rec, n, x)
    except mdp.NodeException as e:
        rec.require(dt == 'f' and 'no convergence' in str(e), 'nipals:refused', lambda: '%s: %s' % (kw, e))
        raise Skip('float32 does not reach the threshold')
    k = n.output_dim
    if want is not None:
        rec.require(k == want, 'nipals:count', lambda: '%s components instead of %s for %s, variances %s' % (k, want, kw, w))
    else:
        rec.require(1 <= k <= d, 'nipals:count', str(k))
    rec.event('count_rules')
    judge(rec, n, x, dt, 'nipals')
    v, dd = np.asarray(n.v, 'd'), np.asarray(n.d, 'd')
    projections(rng, rec, n, x, m, v, dd, dt, 'nipals', False)
    rec.case('nipals', kind, dt, T, d, how, k)


@CHECK.scenario(quick=40, thorough=400)
def impossible(rng, rec):
    """More components than variables cannot be delivered."""
    d = int(rng.randint(2, 6))
    x = rng.randn(40, d)
    cls = [mn.PCANode, mn.WhiteningNode, mn.NIPALSNode][rng.randint(3)]
    kw = {'svd': bool(rng.randint(2))} if cls is not mn.NIPALSNode else {}
    n = cls(output_dim=d + int(rng.randint(1, 6)), **kw)
    try:
        n.train(x)
        n.stop_training()
    except mdp.NodeException:
        rec.event('documented_refusals')
        rec.case(cls.__name__, d, n.output_dim, kw)
        return
    rec.require(False, 'impossible', '%d components of %d-dimensional data: %s' % (n.output_dim, d, n.execute(x).shape))


@CHECK.scenario(quick=30, thorough=300)
def agree(rng, rec):
    """The solvers agree with each other on regular data."""
    T, d = sizes(rng, 'tall')
    x = data(rng, T, d, 'tall', 'd')
    m, c, w, u = reference(x)
    k = int(rng.randint(1, d + 1))
    nodes = [mn.PCANode(output_dim=k), mn.PCANode(output_dim=k, svd=True), mn.PCANode(output_dim=k, reduce=True),
             mn.NIPALSNode(output_dim=k, conv=1e-20 * T * w[0])]
    for n in nodes:
        train(rng, rec, n, x)
        e = np.abs(np.abs((np.asarray(n.v) * u[:, :k]).sum(axis=0)) - 1).max()
        rec.require(e < 1e-6, 'agree', lambda: '%s: directions off by %g' % (n, e))
        rec.event('residuals')
    mdp_y = mdp.pca(x, output_dim=k)
    rec.require(np.abs(np.abs(mdp_y) - np.abs(nodes[0](x))).max() < 1e-6 * np.abs(x).max(), 'agree:helper', 'mdp.pca differs')
    mdp_w = mn.WhiteningNode(output_dim=k)(x)
    rec.require(np.abs(mdp_w.std(axis=0, ddof=1) - 1).max() < 1e-6, 'agree:helper', 'mdp.whitening differs')
    rec.case(T, d, k)
