"""P36 locally linear embeddings: weights, embedding matrix and mapping recomputed from their definitions."""
import warnings
import numpy as np
import mdp
from mdp.nodes import LLENode, HLLENode
from harness.core import Check, Skip

CHECK = Check('P36', 'A case is one trained embedding (point set, neighbours, dimension or variance fraction, '
              'regularization, eigensolver, number type, chunking) with its query points. The monitor recomputes the '
              'local least-squares weights and the embedding matrix, and accepts exactly the unit-norm, mean-free bottom '
              'eigenvectors; queries are compared with the definition one by one. Distinct by node, point set and '
              'settings.')
CHECK.expect_events(embeddings=25, eigenvectors=80, queries=200, hessian=20, recovered=8, refused=15, invariances=4,
                    variances=15)


def points(rng, n=None, d=None):
    n = n or int(rng.randint(18, 70))
    d = d or int(rng.randint(2, 6))
    kind = rng.randint(4)
    if kind == 0:
        x = rng.randn(n, d)
    elif kind == 1:                       # curve or surface with noise
        t = rng.rand(n, min(d, 2)) * 3
        B = rng.randn(min(d, 2), d)
        x = np.sin(t.dot(B)) + t.dot(rng.randn(min(d, 2), d)) + 0.02 * rng.randn(n, d)
    elif kind == 2:
        x = rng.rand(n, d) * rng.uniform(0.1, 4, d)
    else:
        x = rng.laplace(size=(n, d)) + rng.randn(d) * 5
    return x


def fit(cls, x, rng=None, **kw):
    n = cls(**kw)
    if rng is not None and rng.randint(2) and len(x) > 6:
        cuts = np.sort(rng.choice(np.arange(1, len(x)), size=rng.randint(1, 4), replace=False))
        for c in np.split(x, cuts):
            n.train(c)
    else:
        n.train(x)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        n.stop_training()
    return n


def neighbours(x, z, k, skip=None):
    """Indices of the k nearest rows of x to z; None if the choice is ambiguous."""
    d = ((x - z) ** 2).sum(axis=1)
    if skip is not None:
        d[skip] = np.inf
    o = np.argsort(d, kind='mergesort')
    if k < len(x) - (skip is not None) and d[o[k]] - d[o[k - 1]] <= 1e-7 * d[o[k]]:
        return None
    return o[:k]


def local_weights(D, r, d_out):
    Q = D.dot(D.T)
    if r is None:
        s = np.linalg.svd(D, compute_uv=False) ** 2
        reg = s[d_out:].sum()
    else:
        t = np.trace(Q)
        reg = r * t if t > 0 else r
    Q = Q + reg * np.eye(len(D))
    w = np.linalg.solve(Q, np.ones(len(D)))
    return w / w.sum(), np.linalg.cond(Q)


def embedding_matrix(x, k, r, d_out):
    n = len(x)
    W = np.zeros((n, n))
    worst = 1.
    for i in range(n):
        nb = neighbours(x, x[i], k, skip=i)
        if nb is None:
            raise Skip('neighbours ambiguous')
        w, c = local_weights(x[nb] - x[i], r, d_out)
        worst = max(worst, c, np.abs(w).max() ** 2)
        W[i, nb] = w
    I = np.eye(n) - W
    return W, I.T.dot(I), worst


def check_embedding(rec, U, M, d_out, acc, key='lle', scale=1.):
    n = len(M)
    rec.require(U.shape == (n, d_out) and np.isfinite(U).all(), key + '-shape', lambda: U.shape)
    U = U.astype('d') / scale
    lam, V = np.linalg.eigh(M)
    top = lam[-1]
    G = U.T.dot(U)
    rec.require(np.abs(G - np.eye(d_out)).max() < acc, key + '-scale', lambda: 'columns are not orthonormal: %r' % G)
    # exclude the constant direction from the reference spectrum
    c = np.ones((n, 1)) / np.sqrt(n)
    low, _ = np.linalg.eigh(M + top * 2 * c.dot(c.T))
    tol = acc * top
    R = U.T.dot(M).dot(U)
    gap = low[0] / top
    if gap > 100 * acc:
        rec.require(np.abs(c.T.dot(U)).max() < acc / gap + acc, key + '-mean',
                    lambda: 'embedding is not mean-free: %r' % c.T.dot(U))
        rec.require(np.abs(np.diag(R) - low[:d_out]).max() < tol, key + '-bottom',
                    lambda: 'costs %r instead of the smallest %r' % (np.diag(R), low[:d_out]))
        res = np.abs(M.dot(U) - U * np.diag(R)).max()
        rec.require(res < tol * 10, key + '-eigenvectors', lambda: 'residual %g of %g' % (res, top))
    else:
        # several constant-like directions (disconnected neighbourhoods): only the total cost is determined
        rec.require(np.diag(R).sum() <= low[:d_out].sum() + tol * d_out, key + '-bottom',
                    lambda: 'costs %r, smallest %r' % (np.diag(R), low[:d_out]))
    rec.event('eigenvectors', d_out)


def check_queries(rec, rng, n, x, zs, k, r, d_out, acc):
    y = n.execute(zs.astype(n.dtype))
    rec.require(y.shape == (len(zs), d_out) and y.dtype == n.dtype, 'lle-query-shape', lambda: (y.shape, y.dtype))
    T = n.training_projection.astype('d')
    for z, q in zip(zs, y):
        nb = neighbours(x, z, k)
        if nb is None:
            continue
        D = x[nb] - z
        if r is None and (np.linalg.svd(D, compute_uv=False)[d_out:] ** 2).sum() < 1e-9 * (D ** 2).sum():
            continue
        w, c = local_weights(D, r, d_out)
        want = w.dot(T[nb])
        err = np.abs(q - want).max()
        lim = acc * max(1., c * 1e-3) * (1 + np.abs(w).sum()) * np.abs(T).max()
        rec.require(err <= lim, 'lle-query', lambda: 'query off by %g (limit %g, r=%r)' % (err, lim, r))
        rec.event('queries')
    # the answer for a point does not depend on what else is asked
    p = rng.permutation(len(zs))
    y2 = n.execute(zs[p].astype(n.dtype))
    y1 = np.concatenate([n.execute(zs[i:i + 1].astype(n.dtype)) for i in range(len(zs))])
    s = np.abs(y).max() + 1e-300
    rec.require(np.abs(y2 - y[p]).max() <= 1e-3 * acc ** 0.5 * s, 'lle-query-order', lambda: 'order of queries matters')
    rec.require(np.abs(y1 - y).max() <= 1e-3 * acc ** 0.5 * s, 'lle-query-batch', lambda: 'other queries matter: %g'
                % np.abs(y1 - y).max())


def settings(rng, x):
    n, d = x.shape
    k = int(rng.randint(2, min(12, n - 2)))
    r = [1e-3, 1e-3, 1e-2, 0.1, None][rng.randint(5)]
    d_out = int(rng.randint(1, d + 1))
    if r is None:
        d_out = int(rng.randint(1, d)) if d > 1 else 1
        if k <= d_out:
            k = d_out + 1 + int(rng.randint(3))
    return k, r, d_out


@CHECK.scenario(quick=40, thorough=500)
def lle(rng, rec):
    x = points(rng)
    single = rng.randint(6) == 0
    xs = x.astype('f') if single else x
    x = xs.astype('d')
    k, r, d_out = settings(rng, x)
    W, M, worst = embedding_matrix(x, k, r, d_out)
    if worst > (1e3 if single else 1e8):
        raise Skip('ill-conditioned')
    svd = bool(rng.randint(2))
    n = fit(LLENode, xs, rng, k=k, r=r, svd=svd, output_dim=d_out)
    acc = 3e-3 if single else 1e-8 + 1e-15 * worst
    if not single or np.linalg.eigvalsh(M)[1] > 1e-2:
        check_embedding(rec, n.training_projection, M, d_out, acc)
        rec.event('embeddings')
    rec.require(n.training_projection.dtype == xs.dtype, 'lle-dtype', lambda: n.training_projection.dtype)
    zs = np.concatenate([x[rng.choice(len(x), 3)] + 0.1 * x.std(axis=0) * rng.randn(3, x.shape[1]),
                         x.mean(axis=0) + x.std(axis=0) * rng.randn(2, x.shape[1]) * rng.choice([1, 5])])
    if r is not None or k > d_out + 1:
        zs = np.concatenate([zs, x[:1] + 1e-3 * x.std()])
    zs = zs[rng.permutation(len(zs))]
    check_queries(rec, rng, n, x, zs, k, r, d_out, 2e-3 if single else 1e-8)
    rec.case(('lle', x.shape, k, r, d_out, svd, single))


@CHECK.scenario(quick=16, thorough=150)
def training_points(rng, rec):
    """The points themselves as queries: each is its own nearest neighbour, the definition stays the same."""
    x = points(rng)
    k, r, d_out = settings(rng, x)
    r = 1e-3 if r is None else r
    n = fit(LLENode, x, rng, k=k, r=r, output_dim=d_out)
    check_queries(rec, rng, n, x, x, k, r, d_out, 1e-8)
    rec.case(('lle-own', x.shape, k, d_out))


@CHECK.scenario(quick=14, thorough=120)
def duplicates(rng, rec):
    """Repeated points are neighbours of each other, but never of themselves."""
    x = points(rng)
    k, r, d_out = settings(rng, x)
    r = 1e-3
    m = rng.randint(1, 4)
    for _ in range(m):
        i, j = rng.choice(len(x), 2, replace=False)
        x[i] = x[j]
    uniq = np.unique(x, axis=0, return_counts=True)[1].max()
    if k < uniq + 1:
        k = uniq + 1
    W, M, worst = embedding_matrix(x, k, r, d_out)
    n = fit(LLENode, x, rng, k=k, r=r, output_dim=d_out, svd=bool(rng.randint(2)))
    check_embedding(rec, n.training_projection, M, d_out, 1e-8 + 1e-15 * worst)
    rec.event('embeddings')
    rec.case(('lle-dup', x.shape, k, d_out))


@CHECK.scenario(quick=40, thorough=300)
def symmetry(rng, rec):
    """Moving, turning, scaling or reordering the points changes neither embedding nor answers (up to signs)."""
    x = points(rng)
    k, r, d_out = settings(rng, x)
    cls = LLENode
    W, M, worst = embedding_matrix(x, k, r, d_out)
    lam = np.linalg.eigvalsh(M)[:d_out + 2]
    if worst > 1e5 or lam[1] < 1e-6 or np.diff(lam[1:]).min() < 1e-5:
        raise Skip('embedding not unique')
    q = np.linalg.qr(rng.randn(x.shape[1], x.shape[1]))[0]
    s = rng.choice([1., 0.01, 30., 1000.])
    t = rng.randn(x.shape[1]) * s * 3
    p = rng.permutation(len(x))
    z = x[rng.choice(len(x), 4)] + 0.3 * x.std(axis=0) * rng.randn(4, x.shape[1])
    a = fit(cls, x, None, k=k, r=r, output_dim=d_out)
    b = fit(cls, (x.dot(q) * s + t)[p], rng, k=k, r=r, output_dim=d_out, svd=bool(rng.randint(2)))
    A, B = a.training_projection[p], b.training_projection
    sg = np.sign((A * B).sum(axis=0))
    rec.require(np.abs(A * sg - B).max() < 1e-5, 'lle-symmetry', lambda: 'embeddings differ by %g' % np.abs(A * sg - B).max())
    if all(neighbours(x, v, k) is not None for v in z):
        ya, yb = a.execute(z), b.execute(z.dot(q) * s + t)
        rec.require(np.abs(ya * sg - yb).max() < 1e-4 * (1 + np.abs(ya).max()), 'lle-symmetry',
                    lambda: 'answers differ by %g after scaling by %g (r=%r)' % (np.abs(ya * sg - yb).max(), s, r))
    rec.event('invariances')
    rec.case(('lle-sym', x.shape, k, r, d_out, s))


@CHECK.scenario(quick=20, thorough=200)
def variance(rng, rec):
    """Fractional dimensions: the median local dimensionality needed for the fraction, rounded up."""
    x = points(rng)
    n, d = x.shape
    k = int(rng.randint(2, min(12, n - 2)))
    v = float(rng.choice([0.05, 0.3, 0.5, 0.8, 0.95, 0.99, 1.0]))
    cls = rng.choice([LLENode, LLENode, HLLENode])
    est = []
    for i in range(n):
        nb = neighbours(x, x[i], k, skip=i)
        if nb is None:
            raise Skip('neighbours ambiguous')
        s = np.linalg.svd(x[nb] - x[i], compute_uv=False) ** 2
        s = s / s.sum()
        c = np.concatenate([[0], s.cumsum()])
        j = min(int(np.searchsorted(c[1:], v * (1 - 1e-12))), len(s) - 1)
        est.append(j + (v - c[j]) / s[j])
    med = np.median(est)
    if abs(med - round(med)) < 1e-9 and v < 1:
        raise Skip('fraction met exactly')
    want = int(np.ceil(med - 1e-6))
    if cls is HLLENode and k <= want:
        raise Skip('too few neighbours for the Hessian')
    r = None if rng.randint(3) == 0 and cls is LLENode and want < d and k > want else 1e-3
    node = fit(cls, x, rng, k=k, r=r, output_dim=v)
    rec.require(node.output_dim == want, 'lle-variance', lambda: 'output_dim %r, need %r dimensions for %g of the variance'
                % (node.output_dim, med, v))
    rec.event('variances')
    if cls is LLENode:
        W, M, worst = embedding_matrix(x, k, r, want)
        if worst < 1e8:
            check_embedding(rec, node.training_projection, M, want, 1e-8 + 1e-15 * worst)
            rec.event('embeddings')
    rec.case(('lle-var', x.shape, k, v, cls.__name__))


def hessian_matrix(x, k, d_out):
    n = len(x)
    H = np.zeros((n, n))
    dp = d_out * (d_out + 1) // 2
    for i in range(n):
        nb = neighbours(x, x[i], k, skip=i)
        if nb is None:
            raise Skip('neighbours ambiguous')
        P = x[nb] - x[nb].mean(axis=0)
        U, s, _ = np.linalg.svd(P, full_matrices=False)
        if s[d_out - 1] < 1e-6 * s[0] or (d_out < len(s) and s[d_out] > 0.999 * s[d_out - 1]):
            raise Skip('tangent space ambiguous')
        U = U[:, :d_out]
        quad = np.stack([U[:, a] * U[:, b] for a in range(d_out) for b in range(a, d_out)], axis=1)
        B = np.concatenate([np.ones((k, 1)), U], axis=1)
        q0 = np.linalg.qr(B)[0]
        quad = quad - q0.dot(q0.T.dot(quad))
        q1, s1, _ = np.linalg.svd(quad, full_matrices=False)
        if s1[dp - 1] < 1e-6:
            raise Skip('quadratic terms dependent')
        q1 = q1 - q0.dot(q0.T.dot(q1))
        H[np.ix_(nb, nb)] += q1.dot(q1.T)
    return H


@CHECK.scenario(quick=20, thorough=200)
def hessian(rng, rec):
    d = int(rng.randint(2, 5))
    x = points(rng, n=int(rng.randint(40, 90)), d=d)
    d_out = int(rng.randint(1, min(d, 3) + 1))
    k = 1 + d_out + d_out * (d_out + 1) // 2 + int(rng.randint(0, 6))
    H = hessian_matrix(x, k, d_out)
    n = fit(HLLENode, x, rng, k=k, output_dim=d_out, svd=bool(rng.randint(2)))
    U = n.training_projection
    sc = np.sqrt((U[:, 0] ** 2).sum())
    check_embedding(rec, U, H, d_out, 1e-7, key='hlle', scale=sc)
    zs = x[rng.choice(len(x), 3)] + 0.1 * x.std(axis=0) * rng.randn(3, d)
    check_queries(rec, rng, n, x, zs, k, 1e-3, d_out, 1e-8)
    rec.event('hessian')
    rec.case(('hlle', x.shape, k, d_out))


@CHECK.scenario(quick=8, thorough=60)
def recovery(rng, rec):
    """A rolled-up sheet (locally isometric, not linear) is unrolled up to an affine map."""
    n = 400
    k = int(rng.choice([12, 15]))
    cls = HLLENode
    for attempt in range(3):                          # an unlucky sample may not show the shape of the sheet
        u = rng.rand(n, 2) * 2
        c = rng.uniform(0.8, 1.4)                     # arc of radius c
        x = np.stack([c * np.cos(u[:, 0] / c), c * np.sin(u[:, 0] / c), u[:, 1]], axis=1)
        x = x.dot(np.linalg.qr(rng.randn(4, 3))[0].T) + rng.randn(4)
        node = fit(cls, x, rng, k=k, output_dim=2, svd=bool(rng.randint(2)))
        A = np.c_[node.training_projection / np.abs(node.training_projection).max(), np.ones(n)]
        res = u - A.dot(np.linalg.lstsq(A, u, rcond=None)[0])
        rel = np.sqrt((res ** 2).mean(axis=0)) / u.std(axis=0)
        if rel.max() < 0.1:
            break
    rec.require(rel.max() < 0.1, 'hlle-recovery', lambda: 'parameters recovered with relative error %r' % rel)
    rec.event('recovered')
    # a flat sheet is recovered exactly
    x = u.dot(np.linalg.qr(rng.randn(3, 2))[0].T)
    node = fit(cls, x, rng, k=k, output_dim=2, svd=bool(rng.randint(2)))
    A = np.c_[node.training_projection / np.abs(node.training_projection).max(), np.ones(n)]
    res = u - A.dot(np.linalg.lstsq(A, u, rcond=None)[0])
    rec.require(np.abs(res).max() < 1e-5, 'hlle-flat', lambda: 'flat sheet recovered with error %g' % np.abs(res).max())
    rec.event('recovered')
    rec.case(('recovery', k, float(c)))


@CHECK.each([('LLE', LLENode), ('HLLE', HLLENode)], quick=12, thorough=60)
def refusals(rng, rec, cls):
    x = points(rng, d=3)
    n = len(x)
    k = int(rng.choice([0, -1, -3, n, n, n + 1, 3 * n]))
    node = cls(k=k, output_dim=1)
    node.train(x)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            node.stop_training()
    except mdp.TrainingException:
        rec.event('refused')
    else:
        rec.require(False, 'lle-refusal', lambda: '%d neighbours of %d points accepted' % (k, n))
    # more dimensions than the points can span
    m = int(rng.randint(4, 7))
    x = rng.randn(m, 9)
    node = cls(k=m - 1, output_dim=m)
    node.train(x)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            node.stop_training()
    except mdp.TrainingException:
        rec.event('refused')
    else:
        rec.require(node.training_projection.shape[1] == node.output_dim, 'lle-too-many',
                    lambda: 'output_dim %d of %d points: %r' % (m, m, node.training_projection.shape))
    # the largest valid count works
    x = points(rng, n=12, d=2)
    node = fit(cls, x, rng, k=11, output_dim=1)
    rec.require(node.training_projection.shape == (12, 1), 'lle-shape', 'k = N-1')
    rec.case(('refuse', cls.__name__, n, k))
