"""P23 Independent component nodes recover the sources, white, and report failures."""
import itertools
import numpy as np
import mdp
import bimdp  # noqa
import mdp.nodes as mn
from harness.core import Check, Skip

CHECK = Check('P23', 'A case trains one source separation node with random options and chunking on a random linear mixture. The '
              'sources are exactly independent in the sample (every combination of a set of values of each source), so that '
              'the unmixed sources are the exact solution, or have different spectra (delay methods). Output, filters, '
              'projections, inverse and reported convergence are judged against the sources. Distinct by method, options, '
              'source shapes and sizes.')
CHECK.expect_events(recovered=240, white=420, projections=420, reported=40, stationary=90, contrast=60, xsfa_decorrelated=60, xsfa_sources=100)


def shape(rng, k, skewed=False):
    """k values of one source, zero mean, unit variance, and a description."""
    p = (np.arange(k) + 0.5) / k
    kind = str(rng.choice(['exp', 'gamma'])) if skewed else str(rng.choice(['uniform', 'laplace', 'exp', 'bimodal']))
    if kind == 'uniform':
        v = p - 0.5
    elif kind == 'laplace':
        v = np.sign(p - .5) * -np.log(1 - 2 * np.abs(p - .5))
    elif kind == 'exp':
        v = -np.log(1 - p)
    elif kind == 'gamma':
        v = np.log(1 - p) ** 2 * .5 - np.log(1 - p)
    else:
        v = np.where(p < .5, -1., 1.) + 0.4 * (p - .5)
    v = v - v.mean()
    v /= v.std()
    if rng.rand() < .5:
        v = -v
    return v, kind


def product_sources(rng, m, skewed=False):
    k = {1: 200, 2: 40, 3: 14, 4: 8}[m]
    vs, kinds = zip(*[shape(rng, k, skewed) for _ in range(m)])
    s = np.array(list(itertools.product(*vs)))
    return s[rng.permutation(len(s))], vs, kinds


def mixture(rng, s, d, cond=20.):
    m = s.shape[1]
    while True:
        a = rng.randn(m, d)
        sv = np.linalg.svd(a, compute_uv=False)
        if sv[0] / sv[-1] < cond and sv[-1] > .05:
            break
    return np.ascontiguousarray(np.dot(s, a) * 10. ** rng.randint(-1, 2) + rng.randn(d) * 3)


def feed(rng, rec, n, x):
    T = len(x)
    pts = sorted(set(int(p) for p in rng.randint(1, T, size=int(rng.randint(0, 4)))))
    last = 0
    for p in pts + [T]:
        c = x[last:p].copy()
        n.train(c)
        rec.require(np.array_equal(c, x[last:p]), 'input-changed', 'training changed the data')
        c[...] = 77.
        last = p


def crosstalk(s, y):
    """Largest entry of the source/output correlations away from a signed permutation."""
    s = (s - s.mean(0)) / s.std(0)
    c = np.dot(s.T, (y - y.mean(0)) / y.std(0)) / len(s)
    ab = np.abs(c)
    best = ab.argmax(axis=0)
    if sorted(best) != list(range(s.shape[1])):
        return 1.0
    o = ab.copy()
    o[best, np.arange(y.shape[1])] = 0
    return float(max(o.max(), np.abs(ab.max(axis=0) - 1).max()))


def judge_white(rng, rec, n, x, m, key, dt='d', whitened=False, projections=True, lossy=False):
    """Whiteness, matrices, inverse; returns the outputs."""
    tol = 5e-3 if dt == 'f' else 1e-7
    rec.require(n.output_dim == m, key + ':output-dim', lambda: 'announces %s outputs for %d components' % (n.output_dim, m))
    keep = x.copy()
    y = n.execute(x)
    rec.require(np.array_equal(keep, x), key + ':exec-input', 'execution changed the data')
    rec.require(y.shape == (len(x), m), key + ':shape', lambda: '%s instead of %s' % (y.shape, (len(x), m)))
    rec.require(np.isfinite(y).all(), key + ':finite', 'outputs are not finite')
    Y = y.astype('d')
    rec.require(np.abs(Y.mean(0)).max() <= tol, key + ':mean', lambda: 'mean %s' % Y.mean(0))
    c = np.dot(Y.T, Y) / len(Y)
    # unit variance with either normalization of the sample variance
    e = np.abs(c * (len(Y) / (len(Y) - 1.)) - np.eye(m)).max()
    e = min(e, np.abs(c - np.eye(m)).max())
    rec.require(e <= tol, key + ':white', lambda: 'covariance of the outputs off by %g' % e)
    rec.event('white')
    f = np.asarray(n.filters if hasattr(n, 'filters') else n.RP, 'd')
    e = np.abs(np.dot(f.T, f) - np.eye(f.shape[1])).max()
    rec.require(e <= tol, key + ':rotation', lambda: 'filters are off from orthonormal by %g' % e)
    mean = x.astype('d').mean(0) if not whitened else np.zeros(x.shape[1])
    scale = np.abs(x).max()
    z = x[:7] + (0.1 * rng.randn(*x[:7].shape)).astype(x.dtype) * x.std(0)
    yz = n.execute(z).astype('d')
    if projections:
        P = np.asarray(n.get_projmatrix(), 'd')
        rec.require(P.shape == (x.shape[1], m), key + ':proj-shape', lambda: str(P.shape))
        rec.require(np.array_equal(P.T, n.get_projmatrix(transposed=0)), key + ':proj-transposed', 'differ')
        e = np.abs(np.dot(z - mean, P) - yz).max()
        rec.require(e <= tol * 10 * (1 + np.abs(P).max() * scale), key + ':projmatrix', lambda: 'projection differs from execution by %g' % e)
        R = np.asarray(n.get_recmatrix(), 'd')
        rec.require(R.shape == (m, x.shape[1]), key + ':rec-shape', lambda: str(R.shape))
        rec.require(np.array_equal(R.T, n.get_recmatrix(transposed=0)), key + ':rec-transposed', 'differ')
        e = np.abs(np.dot(R, P) - np.eye(m)).max()
        rec.require(e <= tol * 30, key + ':recmatrix', lambda: 'reconstruction times projection off from one by %g' % e)
        e = np.abs(np.dot(Y, R) + mean - x).max() if not lossy else np.abs(np.dot(Y, R) + mean - n.inverse(y)).max()
        rec.require(e <= tol * 10 * scale, key + ':reconstruct', lambda: 'back projection differs from the data by %g' % e)
    e = np.abs(n.inverse(y) - x).max() if not lossy else np.abs(n.execute(n.inverse(y)) - y).max() / 10
    rec.require(e <= tol * 10 * scale, key + ':inverse', lambda: 'inverse of the outputs differs from the data by %g' % e)
    rec.event('projections')
    return Y


def whiten(x):
    mu = x.mean(0)
    w, u = np.linalg.eigh(np.cov(x.T, bias=False).reshape(x.shape[1], x.shape[1]))
    return np.ascontiguousarray(np.dot(x - mu, u / np.sqrt(w)))


def g_of(name, t, a):
    if name == 'pow3':
        return t ** 3, 3 * t ** 2
    if name == 'tanh':
        h = np.tanh(a[0] * t)
        return h, a[0] * (1 - h * h)
    if name == 'gaus':
        ex = np.exp(-a[1] * t * t / 2)
        return t * ex, (1 - a[1] * t * t) * ex
    return t * t, 2 * t


def contrast_ok(vs, name, a):
    """The nonlinearity tells every source (but one) clearly from a gaussian one."""
    d = []
    for v in vs:
        g, gp = g_of(name, v, a)
        d.append(abs((v * g).mean() - gp.mean()))
    d = sorted(d)
    lim = {'pow3': 0.3, 'tanh': 0.05, 'gaus': 0.03, 'skew': 0.5}[name]
    return all(x > lim for x in d)


def one_step(y, approach, name, a):
    """How far one fixed point step of the unmixed outputs moves (1 - |cos| or norm)."""
    g, gp = g_of(name, y, a)
    q = np.dot(y.T, g) / len(y) - np.diag(gp.mean(0))
    if approach == 'symm':
        u, _, vt = np.linalg.svd(q)
        return float(1 - np.abs(np.diag(np.dot(u, vt))).min())
    ch = 0.
    for i in range(q.shape[1]):
        w = q[:, i].copy()
        w[:i] = 0
        w /= np.linalg.norm(w)
        e = np.eye(len(w))[i]
        ch = max(ch, min(np.linalg.norm(w - e), np.linalg.norm(w + e)))
    return float(ch)


def recovered(rec, s, Y, t, limit, approach, name, a, key, text):
    e = crosstalk(s, Y)
    if e > t:
        # the iteration may legitimately stop at a saddle point of its contrast
        ch = one_step(Y, approach, name, a)
        rec.require(ch <= max(30 * limit, .3), key + ':recovery', lambda: 'outputs mix the sources by %g, one more step moves by %g (limit %g), %s' % (
            e, ch, limit, text))
        rec.event('saddle')
    else:
        rec.event('recovered')


def setup(rng, m, skewed=False, dt='d'):
    s, vs, kinds = product_sources(rng, m, skewed)
    kw, d = {}, m
    how = str(rng.choice(['plain', 'plain', 'more-inputs', 'whitened', 'svd', 'reduce']))
    if dt == 'f' and how == 'reduce':
        how = 'plain'
    if how in ('more-inputs', 'reduce') and m < 4:
        d = m + int(rng.randint(1, 4))
    x = mixture(rng, s, d, 20. if dt == 'd' else 5.)
    if dt == 'f':
        x = (x - x.mean(0)) / x.std() + 0.3
    if how == 'whitened':
        x = whiten(x)
        kw['whitened'] = True
    elif how == 'more-inputs' and d > m:
        kw['white_comp'] = m
    elif how == 'svd':
        kw['white_parm'] = {'svd': True}
    elif how == 'reduce':
        kw['white_parm'] = {'reduce': True, 'var_rel': 1e-8}
    if rng.rand() < .3:
        kw['input_dim'] = d
    if rng.rand() < .3:
        kw['dtype'] = dt
    return s, vs, kinds, x.astype(dt), kw, how


@CHECK.each([(k, k) for k in ['CuBICA', 'JADE', 'FastICA-defl', 'FastICA-symm']], quick=60, thorough=800)
def exact(rng, rec, which):
    m = int(rng.choice([1, 2, 2, 3, 3, 4]))
    dt = 'f' if rng.rand() < 0.15 and which != 'JADE' else 'd'
    s, vs, kinds, x, kw, how = setup(rng, m, dt=dt)
    kurt = np.array([(v ** 4).mean() - 3 for v in vs])
    if np.abs(kurt).min() < .3:
        raise Skip('a source is too close to gaussian')
    limit = float(10. ** rng.randint(-6, -2)) if dt == 'd' else 1e-3
    if which == 'CuBICA':
        n = mn.CuBICANode(limit=limit, **kw)
    elif which == 'JADE':
        n = mn.JADENode(limit=limit, **kw)
    else:
        n = mn.FastICANode(approach=which[-4:], limit=limit, **kw)
    feed(rng, rec, n, x)
    try:
        n.stop_training()
    except mdp.NodeException as e:
        # the pure errors of the algorithm; an exact solution exists, so they must stay rare
        rec.event('reported')
        rec.case(('error', which, m, how))
        return
    Y = judge_white(rng, rec, n, x, m, which, dt, 'whitened' in kw)
    if which == 'CuBICA' and float(n.convergence) > limit:
        rec.event('reported')
    else:
        t = max(30 * limit, 1e-5) if dt == 'd' else 2e-2
        if which.startswith('Fast'):
            recovered(rec, s, Y, t, limit, which[-4:], 'pow3', None, which, (kinds,))
        else:
            e = crosstalk(s, Y)
            rec.require(e <= t, which + ':recovery', lambda: 'outputs mix the sources by %g (limit %g), sources %s' % (e, limit, (kinds,)))
            rec.event('recovered')
    rec.case((which, m, how, dt, tuple(sorted(kinds)), limit))


@CHECK.scenario(quick=200, thorough=2500)
def fastica_options(rng, rec):
    m = int(rng.choice([1, 2, 2, 3]))
    g = str(rng.choice(['pow3', 'tanh', 'gaus', 'skew']))
    skewed = g == 'skew'
    s, vs, kinds, x, kw, how = setup(rng, m, skewed)
    fine = g if rng.rand() < .3 else [None, 'pow3', 'tanh', 'gaus', 'skew'][rng.randint(5)]
    if skewed:
        fine = None if rng.rand() < .5 else 'skew'
    elif fine == 'skew':
        fine = None
    a = [1., 1.]
    if rng.rand() < .3:
        a = [float(rng.uniform(.7, 1.5)), float(rng.uniform(.7, 1.5))]
        kw.update(fine_tanh=a[0], fine_gaus=a[1])
    if not contrast_ok(vs, g, a) or (fine and not contrast_ok(vs, fine, a)):
        raise Skip('contrast too weak for these sources')
    approach = str(rng.choice(['defl', 'symm']))
    mu = 1 if rng.rand() < .6 else float(rng.choice([0.999, 0.9]))
    ssize = 1 if rng.rand() < .75 else float(rng.uniform(.7, 1))
    limit = float(10. ** rng.randint(-5, -2)) if ssize == 1 else 1e-2
    if rng.rand() < .4:
        kw['coarse_limit'] = 10 * limit
    guess = None
    if rng.rand() < .3 and x.shape[1] == m:
        guess = rng.randn(m, m)
        if np.linalg.cond(guess) > 50:
            guess = None
        else:
            kw['guess'] = guess
            kept = guess.copy()
    n = mn.FastICANode(approach=approach, g=g, fine_g=fine, mu=mu, sample_size=ssize, limit=limit,
                       max_it=400, max_it_fine=40, **kw)
    feed(rng, rec, n, x)
    key = 'fastica-' + approach
    try:
        n.stop_training()
    except mdp.NodeException:
        rec.event('reported')
        if guess is not None:
            rec.require(np.array_equal(guess, kept), key + ':guess-changed', 'the initial guess of the user was overwritten')
        rec.case(('error', approach, g, fine, mu != 1, ssize != 1, m))
        return
    if guess is not None:
        rec.require(np.array_equal(guess, kept), key + ':guess-changed', 'the initial guess of the user was overwritten')
    Y = judge_white(rng, rec, n, x, m, key, 'd', 'whitened' in kw)
    if ssize == 1:
        if g == (fine or g) and mu == 1:
            recovered(rec, s, Y, max(200 * limit, 1e-4), limit, approach, g, a, key, (g, fine, kw.get('coarse_limit'), mu, kinds))
        elif crosstalk(s, Y) <= max(200 * limit, 1e-4):
            rec.event('recovered')
        else:
            rec.event('other-optimum')
    rec.case((approach, g, fine, mu, ssize != 1, how, m, 'coarse_limit' in kw, guess is not None))


def random_data(rng, m, d, T):
    kinds = [str(rng.choice(['uniform', 'laplace', 'exp', 'gauss', 'binary', 'mixed'])) for _ in range(m)]
    cols = []
    for k in kinds:
        cols.append({'uniform': lambda: rng.rand(T), 'laplace': lambda: rng.laplace(size=T), 'exp': lambda: rng.exponential(size=T),
                     'gauss': lambda: rng.randn(T), 'binary': lambda: rng.randint(0, 2, T) + .2 * rng.randn(T),
                     'mixed': lambda: rng.randn(T) * rng.choice([.2, 2.], T)}[k]())
    s = np.array(cols).T
    if rng.rand() < .4:
        # dependent sources: nothing to recover, but the filters must still be an optimum
        s[:, 0] += .3 * s[:, -1] ** 2
    return mixture(rng, s - s.mean(0), d), kinds


def cubica_angle(y, i, j):
    """Angle of the 4-fold harmonic optimum of the summed squared 3rd and 4th order cumulants."""
    N = 64
    ph = 2 * np.pi * np.arange(N) / N
    u = np.outer(np.cos(ph), y[:, i]) + np.outer(np.sin(ph), y[:, j])
    v = -np.outer(np.sin(ph), y[:, i]) + np.outer(np.cos(ph), y[:, j])
    f = 0
    for w in (u, v):
        f = f + ((w ** 3).mean(1) ** 2) / 6 + (((w ** 4).mean(1) - 3) ** 2) / 24
    c = np.fft.fft(f)[4] / N
    return -np.angle(c) / 4, 2 * abs(c)


def jade_angle(y, i, j):
    m = y.shape[1]
    R = np.eye(m)
    g = np.zeros((2, 2))
    for p in range(m):
        for q in range(p + 1):
            M = np.dot((y[:, [p]] * y[:, [q]] * y).T, y) / len(y) - np.outer(R[p], R[q]) - np.outer(R[q], R[p])
            if p == q:
                M -= R
            h = np.array([M[i, i] - M[j, j], 2 * M[i, j]])
            g += np.outer(h, h) * (1 if p == q else 2)
    ton, toff = g[0, 0] - g[1, 1], 2 * g[0, 1]
    return .5 * np.arctan2(toff, ton + np.hypot(ton, toff)), np.hypot(ton, toff)


@CHECK.each([(k, k) for k in ['CuBICA', 'JADE', 'FastICA-defl', 'FastICA-symm']], quick=40, thorough=600)
def stationary(rng, rec, which):
    """Any data: what is returned without complaint is an optimum of the method's contrast."""
    m = int(rng.choice([2, 3, 4, 5]))
    T = int(rng.choice([50, 200, 1000]))
    d = m + (int(rng.randint(1, 3)) if rng.rand() < .2 else 0)
    x, kinds = random_data(rng, d, d, T)
    kw = {'white_comp': m} if d > m else {}
    limit = float(10. ** rng.randint(-6, -1))
    g = 'pow3'
    a = [1., 1.]
    if which == 'CuBICA':
        n = mn.CuBICANode(limit=limit, **kw)
    elif which == 'JADE':
        limit = max(limit, 1e-5)
        n = mn.JADENode(limit=limit, max_it=int(rng.choice([3, 1000, 1000])), **kw)
    else:
        g = str(rng.choice(['pow3', 'tanh', 'gaus']))
        n = mn.FastICANode(approach=which[-4:], limit=limit, g=g, fine_g=None if rng.rand() < .5 else g,
                           max_it=int(rng.choice([4, 30, 300])), max_it_fine=30, failures=int(rng.choice([0, 5, 50])),
                           sample_size=1, **kw)
    feed(rng, rec, n, x)
    try:
        n.stop_training()
    except mdp.NodeException as e:
        rec.require(which != 'CuBICA', which + ':error', lambda: str(e))
        rec.event('reported')
        again(rng, rec, n, x, m, which, d > m)
        rec.case(('error', which, m, T, g))
        return
    y = judge_white(rng, rec, n, x, m, which, 'd', lossy=d > m)
    pairs = [(i, j) for i in range(m) for j in range(i + 1, m)]
    z = y
    if which == 'CuBICA':
        if float(n.convergence) > limit:
            rec.event('reported')
        else:
            for i, j in pairs:
                ang, amp = cubica_angle(z, i, j)
                rec.require(abs(ang) <= 20 * m * limit + 1e-6 or amp < 1e-6, which + ':optimum',
                            lambda: 'the contrast of components %d, %d asks for a rotation by %g (limit %g)' % (i, j, ang, limit))
            rec.event('stationary')
    elif which == 'JADE':
        for i, j in pairs:
            ang, amp = jade_angle(z, i, j)
            rec.require(abs(ang) <= 1e-5 + limit ** 2 * 20 or amp < 1e-6, which + ':optimum',
                        lambda: 'the contrast of components %d, %d asks for a rotation by %g (limit %g)' % (i, j, ang, limit))
        rec.event('stationary')
    else:
        gg, gp = g_of(g, z, a)
        if np.abs((z * gg).mean(0) - gp.mean(0)).min() < {'pow3': .2, 'tanh': .03, 'gaus': .02}[g]:
            # the step divides by this number
            raise Skip('a component is almost gaussian for this contrast')
        ch = one_step(z, which[-4:], g, a)
        rec.require(ch <= max(1000 * limit, .3 if which.endswith('symm') else 5e-3), which + ':optimum', lambda: 'one more step of %s moves the filters by %g (limit %g)' % (g, ch, limit))
        rec.event('stationary')
    rec.case((which, m, T, g, d > m, limit))


def again(rng, rec, n, x, m, which, lossy):
    """After a reported failure the node must not pretend to have a solution of other data."""
    try:
        y = n.execute(x)
    except Exception:
        rec.event('refused-after-failure')
        return
    try:
        judge_white(rng, rec, n, x, m, which + ':after-failure', lossy=lossy)
    except mdp.NodeException:
        pass


@CHECK.scenario(quick=60, thorough=600)
def telescope(rng, rec):
    m = int(rng.choice([1, 2, 3]))
    s, vs, kinds = product_sources(rng, m)
    if np.abs(np.array([(v ** 4).mean() - 3 for v in vs])).min() < .3:
        raise Skip('a source is too close to gaussian')
    T = int(rng.choice([m * 4 + 2, m * 10, 40, 300, len(s)]))
    s = s[:T]
    x = mixture(rng, s, m)
    limit = float(10. ** rng.randint(-4, -1))
    n = mn.CuBICANode(limit=limit, telescope=True)
    feed(rng, rec, n, x)
    n.stop_training()
    y = judge_white(rng, rec, n, x, m, 'telescope')
    chunks = [c for c in 2 ** np.arange(30) if c <= len(x) and c > 10 * m / 2]
    # the filters must be an optimum of one of the telescope's chunks (or of all data)
    ok = False
    for c in chunks + [len(x)]:
        z = y[:c]
        if all(abs(cubica_angle(z, i, j)[0]) <= 20 * m * limit + 1e-6 for i in range(m) for j in range(i + 1, m)):
            ok = True
    if float(n.convergence) > limit:
        rec.event('reported')
    else:
        rec.require(ok, 'telescope:optimum', 'the filters are no optimum of any chunk of the data')
        rec.event('stationary')
    rec.case(('telescope', m, T, limit))


def slow_sources(rng, m, T):
    """Sources with clearly different spectra."""
    s = []
    t = np.arange(T)
    freqs = np.sort(rng.permutation(np.arange(3, 40, 3))[:m])
    for k in range(m):
        f = freqs[k]
        c = np.sin(2 * np.pi * f * t / T * (T // 400) + rng.rand() * 6)
        if rng.rand() < .4:
            c = np.sign(c) * np.sqrt(np.abs(c))
        s.append(c)
    s = np.array(s).T
    s -= s.mean(0)
    return s / s.std(0)


def delayed(z, chunks, lags):
    out = []
    for L in lags:
        a = np.concatenate([z[p:q - L] for p, q in chunks])
        b = np.concatenate([z[p + L:q] for p, q in chunks])
        c = np.dot((a - a.mean(0)).T, b - b.mean(0)) / (len(a) - 1)
        out.append((c + c.T) / 2)
    return np.array(out)


def chunks_of(rng, T, lag):
    pts = [0]
    if rng.rand() < .6:
        for p in sorted(rng.randint(lag + 2, T, size=int(rng.randint(1, 4)))):
            if p - pts[-1] > lag + 5 and T - p > lag + 5:
                pts.append(int(p))
    pts.append(T)
    return list(zip(pts[:-1], pts[1:]))


def isfa_contrast(C, R, bica, bsfa, ki, ks):
    sq = C[:, :R, :R] ** 2
    dg = np.einsum('kii->ki', C)[:, :R] ** 2
    return bsfa * (ks * dg.sum(1)).sum() + bica * (ki * (sq.sum((1, 2)) - dg.sum(1))).sum()


def best_pair(C, R, coef):
    """Largest improvement of the contrast any single rotation of two axes can give."""
    N = C.shape[1]
    f0 = isfa_contrast(C, R, *coef)
    best = 0.
    for i in range(R):
        for j in range(i + 1, N):
            for ph in np.r_[np.linspace(-np.pi / 2, np.pi / 2, 41), 1e-3, -1e-3, 1e-2, -1e-2]:
                G = np.eye(N)
                G[i, i] = G[j, j] = np.cos(ph)
                G[i, j], G[j, i] = np.sin(ph), -np.sin(ph)
                best = max(best, f0 - isfa_contrast(np.einsum('ab,kbc,dc->kad', G, C, G), R, *coef))
    return f0, best


@CHECK.each([('TDSEP', 'tdsep'), ('ISFA', 'isfa')], quick=60, thorough=500)
def delays(rng, rec, which):
    m = int(rng.choice([2, 3, 4]))
    T = int(rng.choice([400, 2000]))
    recover = rng.rand() < .5
    if recover:
        s = slow_sources(rng, m, T)
    else:
        s = np.cumsum(rng.randn(T, m), axis=0) * .1 + rng.randn(T, m)
        s = s - s.mean(0)
    kw, d = {}, m
    how = str(rng.choice(['plain', 'plain', 'more-inputs', 'whitened', 'svd', 'reduce']))
    if how in ('more-inputs', 'reduce'):
        d = m + int(rng.randint(1, 3))
    x = mixture(rng, s, d)
    if how == 'whitened':
        x = whiten(x)
        kw['whitened'] = True
    elif how == 'more-inputs':
        kw['white_comp'] = m
    elif how == 'svd':
        kw['white_parm'] = {'svd': True}
    elif how == 'reduce':
        kw['white_parm'] = {'reduce': True, 'var_rel': 1e-8}
    nl = int(rng.randint(1, 8))
    if rng.rand() < .6:
        lags, larg = list(range(1, nl + 1)), nl
    else:
        lags = sorted(set(int(v) for v in rng.randint(1, 12, nl)))
        larg = list(lags) if rng.rand() < .5 else np.array(lags)
    chunks = chunks_of(rng, T, max(lags))
    eps = float(10. ** rng.randint(-9, -4))
    R = m
    if which == 'tdsep':
        n = mn.TDSEPNode(lags=larg, limit=eps, **kw)
        sic, ki, ks = (0., 1.), np.ones(len(lags)), np.r_[1., np.zeros(len(lags) - 1)]
    else:
        sic = (float(rng.rand() * 2), float(rng.rand() * 2))
        ikw = dict(sfa_ica_coeff=sic)
        ki, ks = np.ones(len(lags)), np.r_[1., np.zeros(len(lags) - 1)]
        if rng.rand() < .4:
            ki = rng.rand(len(lags)) + .1
            ikw['icaweights'] = list(ki) if rng.rand() < .5 else ki.copy()
        if rng.rand() < .4:
            ks = rng.rand(len(lags)) + .1
            ikw['sfaweights'] = list(ks)
        if how == 'whitened' and rng.rand() < .6:
            R = int(rng.randint(1, m + 1))
            ikw['output_dim'] = R
        elif how == 'plain' and rng.rand() < .4:
            # the whitening keeps the principal components only
            R = int(rng.randint(1, m + 1))
            ikw['output_dim'] = R
        rp = None
        if rng.rand() < .3 and how == 'whitened':
            rp = np.linalg.qr(rng.randn(m, m))[0]
            ikw['RP'] = rp.copy()
        n = mn.ISFANode(lags=larg, eps_contrast=eps, **dict(kw, **ikw))
    for p, q in chunks:
        c = x[p:q].copy()
        n.train(c)
        rec.require(np.array_equal(c, x[p:q]), 'input-changed', 'training changed the data')
        c[...] = 9.
    try:
        n.stop_training()
    except mdp.NodeException as e:
        rec.require('Failed to converge' in str(e), which + ':error', str(e))
        rec.event('reported')
        rec.case(('error', which))
        return
    full = d == m and R == m or how in ('more-inputs', 'reduce')
    if which == 'tdsep' or full:
        y = judge_white(rng, rec, n, x, R, which, 'd', 'whitened' in kw, projections=which == 'tdsep')
    else:
        y = n.execute(x)
        rec.require(y.shape == (T, R), which + ':shape', str(y.shape))
        cy = np.dot((y - y.mean(0)).T, y - y.mean(0)) / (T - 1)
        rec.require(np.abs(cy - np.eye(R)).max() < 1e-7, which + ':white', 'outputs are not white')
        rec.event('white')
    # the complete rotation
    z = x if 'whitened' in kw else n.white.execute(x)
    Q = n.RPC
    N = z.shape[1]
    rec.require(Q.shape == (N, N) and np.abs(np.dot(Q.T, Q) - np.eye(N)).max() < 1e-7, which + ':RPC', 'the complete rotation is no rotation')
    rec.require(n.RP.shape == (N, R), which + ':RP', str(n.RP.shape))
    used = [any(np.allclose(n.RP[:, k], Q[:, i]) for i in range(R)) for k in range(R)]
    rec.require(all(used), which + ':RP-columns', 'the filters are not the first components of the complete rotation')
    bica = sic[1] / (R * (R - 1)) if R > 1 else 0.
    bsfa = -sic[0] / R if R > 1 else -sic[0]
    coef = (bica, bsfa, ki, ks)
    C = delayed(np.dot(z, Q), chunks, lags)
    rec.require(np.abs(np.asarray(n.covs.covs).transpose(2, 0, 1) - C).max() < 1e-7, which + ':covs', 'the delayed covariances kept are not those of the outputs')
    f0, gain = best_pair(C, R, coef)
    C0 = delayed(z if which == 'tdsep' or rp is None else np.dot(z, rp), chunks, lags)
    start = isfa_contrast(C0, R, *coef)
    rec.require(abs(n.initial_contrast['TOT'] - start) <= 1e-8, which + ':initial-contrast', lambda: '%s instead of %s' % (n.initial_contrast, start))
    rec.require(abs(n.final_contrast['TOT'] - f0) <= 1e-8, which + ':final-contrast', lambda: '%s instead of %s' % (n.final_contrast, f0))
    rec.require(f0 <= start + 1e-9, which + ':worse', lambda: 'the contrast went from %s to %s' % (start, f0))
    rec.require(gain <= 50 * eps * abs(f0) + 1e-9, which + ':optimum', lambda: 'a rotation of two components improves the contrast %g by %g (relative limit %g)' % (f0, gain, eps))
    # ordered by slowness (delay of the first lag)
    cd = np.diag(delayed(np.dot(z, n.RP), chunks, lags[:1])[0])
    rec.require((np.diff(cd) <= 1e-9).all(), which + ':order', lambda: 'not ordered by slowness: %s' % cd)
    rec.event('contrast')
    if which == 'tdsep' and recover:
        # distinct delayed covariances of the sources separate them
        D = np.einsum('kii->ki', delayed(s, chunks, lags))
        gap = min(np.abs(D[:, i] - D[:, j]).max() for i in range(m) for j in range(i))
        off = delayed(s, chunks, lags)
        off = np.abs(off - np.einsum('ki,ij->kij', D, np.eye(m))).max() + np.abs(np.corrcoef(s.T) - np.eye(m)).max()
        if gap > .15:
            e = crosstalk(s, y)
            rec.require(e <= 8 * off / gap + 50 * np.sqrt(eps), 'tdsep:recovery', lambda: 'outputs mix the sources by %g (sources correlated by %g, spectra differ by %g)' % (e, off, gap))
            rec.event('recovered')
    rec.case((which, m, R, how, tuple(lags), len(chunks), eps, recover))


@CHECK.scenario(quick=40, thorough=400)
def given_covariances(rng, rec):
    """stop_training(covs=...) uses the given matrices: list of collected ones or the container."""
    m = int(rng.choice([2, 3, 4]))
    R = int(rng.randint(1, m + 1))
    x = whiten(np.cumsum(rng.randn(500, m), axis=0) * .1 + rng.randn(500, m))
    L = int(rng.randint(1, 5))
    lags = list(range(1, L + 1))
    eps = 1e-8
    sic = (float(rng.rand() * 2), float(rng.rand() * 2))
    n = mn.ISFANode(lags=L, sfa_ica_coeff=sic, whitened=True, output_dim=R, eps_contrast=eps)
    n.train(rng.randn(100, m))
    chunks = chunks_of(rng, 500, L)
    covs = [mdp.utils.DelayCovarianceMatrix(k, dtype='d') for k in lags]
    for p, q in chunks:
        for c in covs:
            c.update(x[p:q])
    if rng.rand() < .5:
        covs = mdp.utils.MultipleCovarianceMatrices([c.fix()[0] for c in covs])
        covs.symmetrize()
    try:
        n.stop_training(covs=covs)
    except mdp.NodeException as e:
        rec.require('Failed to converge' in str(e), 'given:error', str(e))
        rec.event('reported')
        rec.case('error')
        return
    C = delayed(np.dot(x, n.RPC), chunks, lags)
    rec.require(np.abs(np.asarray(n.covs.covs).transpose(2, 0, 1) - C).max() < 1e-7, 'given:covs', 'result does not belong to the given matrices')
    coef = (sic[1] / (R * (R - 1)) if R > 1 else 0., -sic[0] / R, np.ones(L), np.r_[1., np.zeros(L - 1)])
    f0, gain = best_pair(C, R, coef)
    rec.require(gain <= 50 * eps * abs(f0) + 1e-9, 'given:optimum', lambda: 'a rotation improves the contrast %g by %g' % (f0, gain))
    y = n.execute(x)
    rec.require(np.abs(y - np.dot(x, n.RP)).max() < 1e-9, 'given:execute', 'execution differs from the filters')
    rec.event('contrast')
    rec.case((m, R, L, len(chunks)))


@CHECK.each([('%s-%s' % (a, g), (a, g)) for a in ('defl', 'symm') for g in ('pow3', 'tanh', 'gaus', 'skew')], quick=3, thorough=40)
def subsampled(rng, rec, conf):
    """Stochastic and damped variants: most runs on well separated sources must end at these sources."""
    approach, g = conf
    m = int(rng.choice([2, 3]))
    mu = float(rng.choice([1, .95]))
    fine = [None, g] if g == 'skew' else [None, 'pow3', 'tanh', 'gaus']
    good = 0
    runs = []
    nc = 0
    for _ in range(30):
        if len(runs) - nc >= 6 or (len(runs) >= 6 and len(runs) > nc):
            break
        T = 2500
        if g == 'skew':
            s = np.array([rng.exponential(size=T) for _ in range(m)]).T
        else:
            s = np.array([rng.uniform(-1, 1, T) if rng.rand() < .5 else rng.laplace(size=T) for _ in range(m)]).T
        s = (s - s.mean(0)) / s.std(0)
        kw = {}
        a = [1., 1.]
        if rng.rand() < .4:
            a = [float(rng.uniform(.8, 1.3)), float(rng.uniform(.8, 1.3))]
            kw.update(fine_tanh=a[0], fine_gaus=a[1])
        ssize = float(rng.uniform(.7, .95)) if rng.rand() < .7 else 1
        if rng.rand() < .3:
            kw['coarse_limit'] = .05
        n = mn.FastICANode(approach=approach, g=g, fine_g=fine[rng.randint(len(fine))], mu=mu, sample_size=ssize, limit=1e-2,
                           max_it=300, max_it_fine=60, **kw)
        x = mixture(rng, s, m)
        n.train(x)
        try:
            n.stop_training()
        except mdp.NodeException:
            rec.event('reported')
            runs.append('no convergence')
            nc += 1
            continue
        y = n.execute(x)
        e, last = crosstalk(s, y), n.fine_g if n.fine_g else g
        # a saddle point of the contrast is a legitimate end as well
        ch = one_step(y, approach, last, a)
        runs.append((round(e, 2), round(ch, 3)))
        good += e < .3 or ch < (.4 if approach == 'defl' else .05)
    # errors are an honest answer, but not every time; of the runs that claim convergence most have to be right
    rec.require(len(runs) > nc and len(runs) - nc - good <= 3, 'fastica-%s:subsampled' % approach,
                lambda: '%s mu=%s: mixing of the sources and movement %s' % (g, mu, runs))
    rec.event('recovered', good)
    rec.case((approach, g, mu, m, rng.randint(1 << 30)))


def monomials(x, degree):
    """All products of up to `degree` columns."""
    return np.array([np.prod(x[:, list(c)], axis=1) for k in range(1, degree + 1)
                     for c in itertools.combinations_with_replacement(range(x.shape[1]), k)]).T


def whitened_or_skip(x, rel=1e-9):
    x = x - x.mean(0)
    x = x / x.std(0)
    w, u = np.linalg.eigh(np.dot(x.T, x) / (len(x) - 1))
    if w[0] < rel * w[-1]:
        raise Skip('nearly singular expansion')
    return np.dot(x, u) / np.sqrt(w)


def slowest(z, cuts):
    """Slow signals of white data z, in order, with their slowness (derivatives inside the chunks cuts[i]:cuts[i+1])."""
    D = np.concatenate([np.diff(z[p:q], axis=0) for p, q in zip(cuts[:-1], cuts[1:])])
    w, u = np.linalg.eigh(np.dot(D.T, D) / (len(D) - 1))
    return np.dot(z, u), w


def ar_sources(rng, T, m):
    """Independent signals of clearly different time scales; the first one is the slowest."""
    t = np.arange(T)
    s = []
    per = T / (3. + rng.randint(0, 3)) * np.cumprod(np.r_[1., rng.uniform(.06, .12, size=m - 1)])
    for i in range(m):
        # narrow band signal: phase wanders a little so that the bands stay independent
        ph = np.cumsum(rng.randn(T)) * .15 / np.sqrt(per[i])
        s.append(np.sin(2 * np.pi * t / per[i] + ph + rng.rand() * 6))
    s = np.array(s).T
    return (s - s.mean(0)) / s.std(0)


@CHECK.each([('linear', 'linear'), ('square', 'square'), ('random', 'random')], quick=12, thorough=120)
def nonlinear(rng, rec, kind):
    """Extended slow feature analysis: each source is the slowest signal uncorrelated with the expanded earlier ones."""
    m = int(rng.choice([2, 2, 3]))
    T = int(rng.choice([600, 1500, 3000]))
    deg = {'linear': 1, 'square': 2, 'random': int(rng.choice([1, 2]))}[kind]
    ideg = int(rng.choice([1, 2, 3]))
    if kind == 'random':
        x = np.cumsum(rng.randn(T, m), axis=0) * .02 + rng.randn(T, m).cumsum(0) ** 2 * 1e-5 + rng.randn(T, m) * .1
        s = None
    else:
        s = ar_sources(rng, T, m)
        u = s.copy()
        if kind == 'square':
            u[:, 1] += rng.uniform(.3, 1) * s[:, 0] ** 2 * rng.choice([-1, 1])
        x = mixture(rng, u, m)
        x /= x.std()
    R = int(rng.randint(1, m + 1)) if deg == 1 else int(rng.randint(1, 4))
    explicit = deg > 1 or rng.rand() < .5
    if not explicit:
        R = m
    svd = bool(rng.rand() < .3)
    bex = (mn.PolynomialExpansionNode, (deg,), {})
    iex = (mn.PolynomialExpansionNode, (ideg,), {})
    kw = dict(output_dim=R) if explicit else {}
    n = mn.XSFANode(bex if deg != 2 or rng.rand() < .5 else None, iex, svd=svd, **kw)
    # reference
    cuts = [0, T] if rng.rand() < .5 else [0, int(rng.randint(T // 3, 2 * T // 3)), T]
    z = whitened_or_skip(monomials(x, deg))
    ref, gaps, conds = [], [], []
    for i in range(R):
        if z.shape[1] < 1 or (z.shape[1] < 2 and i < R - 1):
            raise Skip('no dimension left')
        y, w = slowest(z, cuts)
        gaps.append(1. if len(w) == 1 else (w[1] - w[0]) / w[-1])
        ref.append(y[:, 0])
        if i == R - 1:
            break
        e = whitened_or_skip(monomials(np.array(ref).T, ideg), 1e-7)
        r = y[:, 1:]
        r = r - np.dot(e, np.dot(e.T, r)) / (len(r) - 1)
        sv = np.linalg.svd(r, compute_uv=False)
        conds.append(sv[0] / sv[-1])
        if sv[-1] < 1e-3 * np.sqrt(T):
            raise Skip('the sources found explain a direction completely')
        z = whitened_or_skip(r)
    ref = np.array(ref).T
    if min(gaps) < 1e-4:
        raise Skip('two signals equally slow')
    # training, by hand or through a flow
    chunks = [x[p:q].copy() for p, q in zip(cuts[:-1], cuts[1:])]
    if rng.rand() < .5:
        f = mdp.Flow([n])
        f.train([chunks])
        n = f[0]
        phases = None
    else:
        phases = 0
        while n.is_training() and phases < 4 * R + 5:
            for c in chunks:
                n.train(c)
            n.stop_training()
            phases += 1
    rec.require(not n.is_training() and n.get_remaining_train_phase() == 0, 'xsfa:phases', 'still training after all phases')
    rec.require(n.output_dim == R and n.input_dim == m, 'xsfa:dims', lambda: '%d -> %d instead of %d -> %d' % (n.input_dim, n.output_dim, m, R))
    y = n.execute(x)
    rec.require(y.shape == (T, R), 'xsfa:shape', str(y.shape))
    if y.shape != (T, R):
        return
    bad = np.abs(y.mean(0)).max()
    rec.require(bad < 1e-6, 'xsfa:mean', lambda: 'mean of the sources %g' % bad)
    v = y.var(0, ddof=1)
    rec.require(np.abs(v - 1).max() < 1e-5, 'xsfa:variance', lambda: 'variances %s' % v)
    for i in range(1, R):
        e = monomials(y[:, :i], ideg)
        e = (e - e.mean(0)) / e.std(0)
        c = np.abs(np.dot(e.T, y[:, i]) / T).max()
        rec.require(c < 1e-5, 'xsfa:decorrelated', lambda: 'source %d has correlation %g with the expanded earlier ones (degree %d)' % (i, c, ideg))
    rec.event('xsfa_decorrelated', R - 1)
    d = np.abs(np.array([np.corrcoef(ref[:, i], y[:, i])[0, 1] for i in range(R)]))
    tol = 1e-7 / min(gaps) * np.prod(conds or [1.]) ** 2 + 1e-6
    if tol < .05:
        rec.require((d > 1 - tol).all(), 'xsfa:slowest', lambda: 'correlation of the sources with the slowest decorrelated signals is %s (degrees %d, %d)' % (d, deg, ideg))
        rec.event('xsfa_sources', R)
    # samples are independent of each other at execution
    k = int(rng.randint(1, T))
    rec.require(np.abs(n.execute(x[k:k + 1]) - y[k:k + 1]).max() < 1e-8 * max(1, np.abs(y).max()), 'xsfa:sample', 'execution of one sample differs')
    if s is not None and T >= 1500:
        c = abs(np.corrcoef(s[:, 0], y[:, 0])[0, 1])
        rec.require(c > .9, 'xsfa:recovery', lambda: 'slowest source recovered with correlation %g (%s mixture)' % (c, kind))
        if kind == 'linear' and R == m and ideg <= 3:
            e = crosstalk(s, y)
            rec.require(e < .35, 'xsfa:recovery', lambda: 'sources mixed by %g' % e)
        rec.event('recovered', 1)
    rec.case((kind, m, T, R, deg, ideg, len(cuts), svd, phases))
