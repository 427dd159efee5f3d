"""P21 slow feature nodes solve the slowness problem in order of slowness."""
import warnings
import numpy as np
import scipy.linalg as sl
import mdp
import bimdp  # noqa
import mdp.nodes as mn
from harness.core import Check, Skip

CHECK = Check('P21', 'A case trains one slow feature node (linear, quadratic, variable time step) or the eta computer on random '
              'time series (full rank, redundant, constant or exactly uncorrelated channels) in random chunks with random '
              'options, and judges constraints, slowness values, order and optimality against moments computed from the data. '
              'Distinct by node, data kind, sizes and options.')
CHECK.expect_events(trained=600, optimal=500, deficient=150, quadratic_forms=60, eta=100, vartime=100, reruns=20)


def series(rng, T, d):
    """A smooth multivariate series with separated slowness."""
    t = np.arange(T)
    cols = []
    for k in range(d):
        f = 0.02 + 0.4 * rng.rand() / d * (k + 1)
        cols.append(np.sin(2 * np.pi * (f * t + rng.rand())) + 0.2 * rng.randn(T))
    s = np.array(cols).T
    a = rng.randn(d, d) + 1.5 * np.eye(d)
    return np.dot(s, a)


def kindof(rng, kind):
    d = int(rng.randint(2, 7))
    T = int(rng.randint(12 * d, 12 * d + 150))
    if kind == 'orthogonal':
        # full periods: exactly uncorrelated channels
        T = int(rng.choice([64, 128, 200]))
        t = np.arange(T) * 2 * np.pi / T
        fr = rng.permutation(10)[:d] + 1
        x = np.array([np.sin(f * t + (np.pi / 2 if rng.rand() < 0.5 else 0)) * (1 + rng.randint(3)) for f in fr]).T
        if d > 2 and rng.rand() < 0.6:
            x[:, 1] += x[:, 2]
        return x, d
    if kind == 'white':
        # independent columns with exactly diagonal covariance
        h = np.array([[1, 1], [1, -1]])
        m = h
        while m.shape[0] < 16:
            m = np.kron(m, h)
        cols = rng.permutation(15)[:d] + 1
        return m[:, cols] * (1. + rng.randint(0, 3, size=d)), d
    x = series(rng, T, d)
    if kind == 'scaled':
        x = x * 10. ** rng.randint(-2, 3)
    if kind == 'offset':
        x = x + rng.randn(d) * 10 * x.std()
    r = d
    if kind == 'redundant':
        r = int(rng.randint(1, d))
        x = np.dot(x[:, :r], rng.randn(r, d))
    elif kind == 'duplicate':
        i, j = rng.permutation(d)[:2]
        x[:, i] = x[:, j]
        r = d - 1
    elif kind == 'constant':
        k = int(rng.randint(1, d))
        idx = rng.permutation(d)[:k]
        x[:, idx] = rng.randint(-2, 3, size=k)
        r = d - k
    elif kind == 'const+dup' and d > 2:
        i, j, k = rng.permutation(d)[:3]
        x[:, i] = 1.
        x[:, j] = x[:, k]
        r = d - 2
    elif kind == 'const+dup':
        x[:, int(rng.randint(d))] = 0
        r = d - 1
    return x, r


def problem(C, D, r):
    """Slowness values reachable in the data's subspace of dimension r."""
    w, u = np.linalg.eigh((C + C.T) / 2)
    u = u[:, ::-1][:, :r] / np.sqrt(w[::-1][:r])
    q = np.dot(u.T, np.dot(D, u))
    return np.linalg.eigvalsh((q + q.T) / 2), float(w[::-1][0] / w[::-1][r - 1])


def cuts(rng, T, least=2):
    n = int(rng.randint(1, 5))
    pts, last = [], 0
    for p in sorted(int(q) for q in rng.randint(least, T, size=n - 1)) if n > 1 else []:
        if p - last >= least and T - p >= least:
            pts.append((last, p))
            last = p
    return pts + [(last, T)]


def moments(chunks, last):
    s = np.concatenate([c if last[k] else c[:-1] for k, c in enumerate(chunks)]).astype('d')
    dd = np.concatenate([np.diff(c.astype('d'), axis=0) for c in chunks])
    m = s.mean(axis=0)
    C = np.dot((s - m).T, s - m) / (len(s) - 1)
    D = np.dot(dd.T, dd) / (len(dd) - 1)
    return m, C, D, s


def judge(rec, n, m, C, D, r, dt, out, key, x, expect_dim=None):
    ref, cond = problem(C, D, r)
    k = min(r, out) if out else r
    tol = (3e-6 if dt == 'f' else 1e-13) * cond * 300
    if getattr(n, '_symeig', None) is mdp.utils.symeig_semidefinite_reg:
        # the regularization term is added to every variance
        tol += 20 * n.rank_threshold * cond / np.linalg.eigvalsh(C)[-1]
    if tol > 0.02:
        raise Skip('numeric')
    sf, d = np.asarray(n.sf, 'd'), np.asarray(n.d, 'd')
    rec.require(sf.shape == (C.shape[0], k) and d.shape == (k,), key + ':count',
                lambda: '%s filters and %s slowness values instead of %d (rank %d)' % (sf.shape, d.shape, k, r))
    rec.require(np.isfinite(sf).all() and np.isfinite(d).all(), key + ':finite', 'not finite')
    rec.require((np.diff(d) >= -tol * d.max()).all(), key + ':order', lambda: 'slowness values not ascending: %s' % d)
    e = np.abs(d - ref[:k]).max() / max(ref[-1], 1e-300)
    rec.require(e <= tol, key + ':optimal', lambda: 'slowness values %s, slowest possible %s' % (d, ref[:k]))
    q = np.dot(sf.T, np.dot(C, sf))
    e = np.abs(q - np.eye(k)).max()
    rec.require(e <= tol, key + ':white', lambda: 'covariance of the outputs off by %g\n%s' % (e, q))
    q = np.dot(sf.T, np.dot(D, sf))
    e = np.abs(q - np.diag(d)).max() / max(ref[-1], 1e-300)
    rec.require(e <= tol, key + ':slowness', lambda: 'mean squared differences of the outputs\n%s\nreported %s' % (q, d))
    e = np.abs(np.asarray(n.avg, 'd').reshape(-1) - m).max()
    rec.require(e <= (1e-4 if dt == 'f' else 1e-11) * (np.abs(m).max() + np.sqrt(np.diag(C).max())), key + ':avg', lambda: 'mean off by %g' % e)
    rec.require(n.output_dim == k, key + ':output_dim', lambda: 'output_dim %s, but %d features' % (n.output_dim, k))
    y = n.execute(x)
    rec.require(y.shape == (len(x), k), key + ':exec-shape', str(y.shape))
    rec.event('optimal')
    if k < C.shape[0] and r < C.shape[0]:
        rec.event('deficient')
    return sf, d, y, tol


FULL = ['regular', 'scaled', 'offset', 'orthogonal', 'white']
DEF = ['redundant', 'duplicate', 'constant', 'const+dup']


def linear_case(rng, rec, kind, method):
    dt = 'f' if rng.rand() < 0.25 else 'd'
    x, r = kindof(rng, kind)
    x = x.astype(dt)
    T, d = x.shape
    scale = float(x.astype('d').var(axis=0).max())
    if dt == 'f' and np.abs(x).max() ** 2 > 30 * scale:
        raise Skip('cancellation')
    out = int(rng.randint(1, d + 1)) if rng.rand() < 0.6 else None
    kw = {} if out is None else {'output_dim': out}
    if method != 'none' or rng.rand() < 0.3:
        kw['rank_deficit_method'] = method
    last0 = bool(rng.rand() < 0.6)
    if not last0:
        kw['include_last_sample'] = False
    if rng.rand() < 0.2:
        kw['dtype'] = dt
    n = mn.SFANode(**kw)
    thr = scale * (1e-5 if dt == 'f' else 1e-12)
    if method != 'none' and (dt == 'f' or scale < 1e-2 or scale > 1e2 or rng.rand() < 0.3):
        n.rank_threshold = thr
    if method == 'reg' and dt == 'f':
        # regularization needs double precision
        raise Skip('float32 regularization')
    chunks, last = [], []
    for a, b in cuts(rng, T):
        c = x[a:b].copy()
        chunks.append(x[a:b])
        if rng.rand() < 0.2:
            l = bool(rng.randint(2))
            n.train(c, include_last_sample=l) if rng.rand() < 0.5 else n.train(c, l)
        else:
            l = last0
            n.train(c)
        last.append(l)
        rec.require(np.array_equal(c, x[a:b]), 'sfa:input', 'training changed the data')
        c[...] = 1e4
    m, C, D, s = moments(chunks, last)
    # rank of the seen samples, well separated or skipped
    w = np.linalg.eigvalsh(C)[::-1]
    if (w[:r] < w[0] * (1e-4 if dt == 'f' else 1e-7)).any():
        raise Skip('rank not clear')
    if kind == 'redundant' and dt == 'f' and r < d and w[r] > w[0] * 1e-7:
        raise Skip('rank not clear')
    if method != 'none':
        t = n.rank_threshold
        if w[r - 1] < 100 * t or (r < d and max(abs(w[r:])) > t / 3):
            raise Skip('threshold')
        if dt == 'f' and w[r - 1] < w[0] * 1e-3:
            raise Skip('threshold')
    rerun = method == 'none' and r < d
    if r == d and problem(C, D, r)[0][0] < (1e-4 if dt == 'f' else 1e-9) * problem(C, D, r)[0][-1]:
        raise Skip('slowness zero up to rounding')
    try:
        n.stop_training()
    except mdp.NodeException as e:
        rec.require(method == 'none' and r < d, 'sfa:refused', lambda: '%s on %s data: %s' % (method, kind, str(e)[:300]))
        # documented: choose a method and stop again
        n.set_rank_deficit_method(str(rng.choice(['pca', 'svd', 'auto'])))
        n.rank_threshold = thr
        if w[r - 1] < 100 * thr or max(abs(w[r:])) > thr / 3:
            raise Skip('threshold')
        n.stop_training()
        rec.event('reruns')
        rerun = False
    if rerun:
        # a singular problem may slip through the strict solver; nothing is promised then
        raise Skip('strict solver on singular data')
    rec.event('trained')
    z = x[:int(rng.randint(2, T))]
    sf, dd, y, tol = judge(rec, n, m, C, D, r, dt, out, 'sfa', z)
    want = np.dot(z.astype('d') - m, sf)
    lim = (1e-3 if dt == 'f' else 1e-8) * np.abs(sf).sum(axis=0).max() * np.abs(x).max()
    rec.require(np.abs(y - want).max() <= lim, 'sfa:execute', 'outputs differ from the filters applied to the centered data')
    j = int(rng.randint(1, y.shape[1] + 1))
    rec.require(np.abs(n.execute(z, n=j) - y[:, :j]).max() <= lim and n.execute(z, j).shape[1] == j, 'sfa:execute-n', 'first n outputs differ')
    t = float(rng.randint(1, 500))
    eta = np.asarray(n.get_eta_values(t=t), 'd')
    rec.require(np.abs(eta - t / (2 * np.pi) * np.sqrt(np.maximum(dd, 0))).max() <= 1e-4 * eta.max() + 1e-12, 'sfa:eta', 'eta values do not follow the documented formula')
    rec.require(np.dtype(y.dtype) == np.dtype(dt), 'sfa:dtype', lambda: '%s data gave %s outputs' % (dt, y.dtype))
    if method != 'none' and not rerun:
        rec.require(n.rank_deficit == d - r, 'sfa:rank_deficit', lambda: 'rank deficit %s reported, %d true (%s)' % (n.rank_deficit, d - r, method))
    if r == d and y.shape[1] == d and dt == 'd':
        back = n.inverse(y)
        rec.require(np.abs(back - z).max() <= 1e-6 * np.abs(x).max(), 'sfa:inverse', 'inverse does not restore the data')
    rec.case(kind, method, dt, T, d, r, out, last0, len(chunks))


@CHECK.each([('%s-%s' % (k, m), (k, m)) for k in FULL for m in ('none', 'pca', 'svd', 'reg', 'ldl', 'auto')], quick=20, thorough=250)
def full_rank(rng, rec, km):
    linear_case(rng, rec, *km)


@CHECK.each([('%s-%s' % (k, m), (k, m)) for k in DEF for m in ('none', 'pca', 'svd', 'reg', 'ldl', 'auto')], quick=20, thorough=250)
def deficient(rng, rec, km):
    linear_case(rng, rec, *km)


@CHECK.scenario(quick=40, thorough=400)
def brute(rng, rec):
    """No random unit-variance projection decorrelated from the earlier outputs is slower."""
    x, r = kindof(rng, 'regular')
    T, d = x.shape
    n = mn.SFANode()
    n.train(x)
    n.stop_training()
    y = n.execute(x)
    k = int(rng.randint(0, d))
    for i in range(30):
        p = rng.randn(d)
        if i > 10:
            # near the reported filter
            p = np.asarray(n.sf)[:, k] + rng.randn(d) * 0.05 * np.abs(n.sf).max()
        z = np.dot(x - x.mean(axis=0), p)
        for j in range(k):
            z = z - y[:, j] * np.dot(y[:, j], z) / np.dot(y[:, j], y[:, j])
        if z.std() < 1e-8:
            continue
        z = z / z.std(ddof=1)
        sl_ = (np.diff(z) ** 2).sum() / (T - 2)
        rec.require(sl_ >= n.d[k] * (1 - 1e-6) - 1e-9, 'brute', lambda: 'a projection with slowness %g beats output %d (%g)' % (sl_, k, n.d[k]))
        rec.event('rivals')
    e = np.abs(np.diag(np.diff(y, axis=0).T.dot(np.diff(y, axis=0))) / (T - 2) - n.d).max()
    rec.require(e < 1e-6 * max(n.d), 'brute:delta', 'values differ from the outputs')
    rec.require(np.abs(y.mean(axis=0)).max() < 1e-8 and np.abs(np.cov(y.T) - np.eye(d)).max() < 1e-7, 'brute:constraints', 'outputs not white')
    rec.event('optimal')
    rec.case(T, d, k)


@CHECK.scenario(quick=40, thorough=400)
def arguments(rng, rec):
    x, r = kindof(rng, 'regular')
    d = x.shape[1]
    n = mn.SFANode(output_dim=d + int(rng.randint(1, 5)))
    try:
        n.train(x[:1])
        ok = False
    except mdp.TrainingException:
        ok = True
    rec.require(ok, 'args:short', 'one sample accepted')
    n.train(x)
    n.stop_training()
    m, C, D, s = moments([x], [True])
    judge(rec, n, m, C, D, d, 'd', None, 'toomany', x)
    try:
        mn.SFANode(rank_deficit_method='nonsense')
        ok = False
    except ValueError:
        ok = True
    rec.require(ok, 'args:method', 'unknown method accepted')
    rec.event('trained')
    rec.case(x.shape)


# ---------------------------------------------------------------- quadratic
def expand(x):
    d = x.shape[1]
    cols = [x[:, i] for i in range(d)] + [x[:, i] * x[:, j] for i in range(d) for j in range(i, d)]
    return np.array(cols).T


@CHECK.each([('none', 'none'), ('pca', 'pca'), ('svd', 'svd')], quick=40, thorough=500)
def quadratic(rng, rec, method):
    d = int(rng.randint(1, 4))
    T = int(rng.randint(120, 300))
    x = series(rng, T, d)
    x = x / np.abs(x).max(axis=0)
    redundant = method != 'none' and d > 1 and rng.rand() < 0.5
    if redundant:
        # binary channels: the squares are constant
        x[:, 0] = np.where(x[:, 0] > 0, 1., -1.)
    e = expand(x)
    out = int(rng.randint(1, e.shape[1] + 1)) if rng.rand() < 0.6 else None
    kw = {} if out is None else {'output_dim': out}
    n = mn.SFA2Node(rank_deficit_method=method, **kw)
    chunks, last = [], []
    for a, b in cuts(rng, T):
        l = bool(rng.rand() < 0.6)
        n.train(x[a:b].copy(), include_last_sample=l)
        chunks.append(e[a:b])
        last.append(l)
    m, C, D, s = moments(chunks, last)
    w = np.linalg.eigvalsh(C)[::-1]
    r = int((w > 1e-9 * w[0]).sum())
    if w[r - 1] < 1e-6 * w[0] or (r < len(w) and abs(w[r:]).max() > 3e-13) or (r < len(w)) != redundant:
        raise Skip('rank not clear')
    n.stop_training()
    rec.event('trained')
    z = x[:int(rng.randint(2, 30))]
    sf, dd, y, tol = judge(rec, n, m, C, D, r, 'd', out, 'sfa2', z)
    want = np.dot(expand(z) - m, sf)
    lim = 1e-8 * (np.abs(sf).sum(axis=0).max() + 1)
    rec.require(np.abs(y - want).max() <= lim, 'sfa2:execute', 'outputs differ from the filters applied to the expanded data')
    j = int(rng.randint(1, y.shape[1] + 1))
    rec.require(np.abs(n.execute(z, n=j) - y[:, :j]).max() <= lim, 'sfa2:execute-n', 'first n outputs differ')
    for k in range(y.shape[1]):
        q = n.get_quadratic_form(k)
        v = 0.5 * np.einsum('ti,ij,tj->t', z, q.H, z) + np.dot(z, q.f) + q.c
        rec.require(np.abs(v - y[:, k]).max() <= lim, 'sfa2:form', lambda: 'feature %d differs from its quadratic form by %g' % (k, np.abs(v - y[:, k]).max()))
        rec.require(np.abs(q.H - q.H.T).max() == 0, 'sfa2:symmetric', 'quadratic form not symmetric')
        rec.require(np.abs(q.apply(z) - v).max() <= lim, 'sfa2:apply', 'apply differs from the definition')
        rec.event('quadratic_forms')
    rec.case(method, d, T, out, redundant, len(chunks))


# ---------------------------------------------------------------- variable time step
def vt_moments(chunks, incs, dep):
    """Weighted moments by the trapezoid rule, written out segment by segment."""
    segs, dsegs, prev, dprev = [], [], None, None
    for k, (c, g) in enumerate(zip(chunks, incs)):
        c = c.astype('d')
        for i in range(len(c)):
            if i == 0:
                if k == 0 or not dep:
                    prev = c[0]
                    dprev = None if (k == 0 or not dep) else dprev
                    continue
                a = prev
            else:
                a = c[i - 1]
            segs.append((a, c[i], g[i]))
            der = (c[i] - a) / g[i]
            if dprev is not None:
                dsegs.append((dprev, der, g[i]))
            dprev = der
        prev = c[-1]
    def mom(ss):
        t = sum(q[2] for q in ss)
        m = sum((q[0] + q[1]) * q[2] / 2 for q in ss) / t
        S = sum((np.outer(q[0], q[0]) + np.outer(q[1], q[1])) * q[2] / 2 for q in ss) / t
        return t, m, S
    t, m, S = mom(segs)
    td, _, D = mom(dsegs)
    return t, m, S - np.outer(m, m), D


@CHECK.scenario(quick=150, thorough=2000)
def vartime(rng, rec):
    kind = str(rng.choice(['regular', 'offset', 'redundant', 'constant']))
    x, r = kindof(rng, kind)
    method = str(rng.choice(['none', 'pca', 'svd', 'ldl'])) if r == x.shape[1] else str(rng.choice(['pca', 'svd', 'ldl']))
    T, d = x.shape
    out = int(rng.randint(1, d + 1)) if rng.rand() < 0.6 else None
    kw = {} if out is None else {'output_dim': out}
    n = mn.VartimeSFANode(rank_deficit_method=method, **kw)
    dep = bool(rng.randint(2))
    form = str(rng.choice(['none', 'const', 'array']))
    chunks, incs = [], []
    warn = False
    for k, (a, b) in enumerate(cuts(rng, T, 3)):
        c = x[a:b].copy()
        if form == 'none':
            g = np.ones(b - a)
            n.train(c, time_dep=dep) if rng.rand() < 0.5 or not dep else n.train(c)
        elif form == 'const':
            v = float(rng.rand() + 0.3)
            g = np.ones(b - a) * v
            n.train(c, v, dep) if rng.rand() < 0.5 else n.train(c, dt=v, time_dep=dep)
        else:
            g = rng.rand(b - a) + 0.3
            if k > 0 and dep:
                arg = g.copy()
            elif rng.rand() < 0.2:
                arg, warn = g.copy(), True
            else:
                arg = g[1:].copy()
            n.train(c, arg, dep) if rng.rand() < 0.5 else n.train(c, dt=arg, time_dep=dep)
        rec.require(np.array_equal(c, x[a:b]), 'vt:input', 'training changed the data')
        c[...] = 1e5
        chunks.append(x[a:b])
        incs.append(g)
    t, m, C, D = vt_moments(chunks, incs, dep)
    w = np.linalg.eigvalsh(C)[::-1]
    if w[r - 1] < 1e-7 * w[0] or w[r - 1] < 1e-9 or (r < d and abs(w[r:]).max() > 3e-13):
        raise Skip('rank not clear')
    n.stop_training()
    rec.event('trained')
    rec.event('vartime')
    z = x[:10]
    sf, dd, y, tol = judge(rec, n, m, C, D, r, 'd', out, 'vt', z)
    rec.require(abs(n.tlen - t) <= 1e-9 * t, 'vt:tlen', lambda: 'length %s instead of %s' % (n.tlen, t))
    want = np.dot(z - m, sf)
    rec.require(np.abs(y - want).max() <= 1e-8 * np.abs(sf).sum(axis=0).max() * np.abs(x).max(), 'vt:execute', 'outputs differ from the filters')
    rec.case(kind, method, form, dep, T, d, out, len(chunks), warn)


@CHECK.scenario(quick=40, thorough=400)
def vartime_equals_sfa(rng, rec):
    """Without time information both nodes find the same slow directions of one long series."""
    x, r = kindof(rng, 'regular')
    x = np.concatenate([x] * 1)
    a, b = mn.VartimeSFANode(), mn.VartimeSFANode()
    a.train(x)
    p = int(rng.randint(3, len(x) - 3))
    b.train(x[:p])
    b.train(x[p:], time_dep=True)
    a.stop_training()
    b.stop_training()
    e = np.abs(np.abs(np.asarray(a.execute(x))) - np.abs(b.execute(x))).max()
    gap = np.diff(a.d).min() / max(a.d)
    cond = np.linalg.cond(np.cov(np.asarray(x, 'd').T)) if x.shape[1] > 1 else 1.
    if gap < 1e-3 or cond > 1e8:
        raise Skip('degenerate')
    # a wrong join changes the outputs by about 1 / len(x)
    rec.require(e < (1e-7 + 1e-14 * cond) / gap + 1e-6, 'vt:concat',
                lambda: 'two connected chunks differ from one by %g (gap %g, condition %g)' % (e, gap, cond))
    rec.event('vartime')
    rec.case(x.shape, p)


# ---------------------------------------------------------------- eta
@CHECK.scenario(quick=150, thorough=1500)
def eta(rng, rec):
    dt = 'f' if rng.rand() < 0.25 else 'd'
    d, T = int(rng.randint(1, 6)), int(rng.randint(20, 200))
    x = series(rng, T, d)
    if rng.rand() < 0.3:
        x = x * 10. ** rng.randint(-3, 4)
    if rng.rand() < 0.3 and dt == 'd':
        x = x + 5 * x.std() * rng.randn(d)
    x = x.astype(dt)
    n = mn.EtaComputerNode()
    chunks = [x[a:b] for a, b in cuts(rng, T, 2)]
    for c in chunks:
        k = c.copy()
        n.train(k)
        rec.require(np.array_equal(k, c), 'eta:input', 'training changed the data')
    s = np.concatenate([c[:-1] for c in chunks]).astype('d')
    dd = np.concatenate([np.diff(c.astype('d'), axis=0) for c in chunks])
    delta = (dd ** 2).mean(axis=0) / s.var(axis=0, ddof=1)
    if rng.rand() < 0.5:
        n.stop_training()
    t = 1 if rng.rand() < 0.3 else int(rng.randint(1, 1000))
    got = np.asarray(n.get_eta(t) if rng.rand() < 0.5 else n.get_eta(t=t), 'd')
    want = t / (2 * np.pi) * np.sqrt(delta)
    rec.require(got.shape == want.shape and np.abs(got - want).max() <= (1e-3 if dt == 'f' else 1e-9) * want.max(), 'eta',
                lambda: 'eta %s instead of %s (%d chunks)' % (got, want, len(chunks)))
    z = rng.randn(4, d).astype(dt)
    rec.require(np.array_equal(n.execute(z), z), 'eta:execute', 'the analysis node changes the data')
    rec.event('eta')
    rec.event('trained')
    rec.case(dt, d, T, len(chunks), t)


@CHECK.scenario(quick=20, thorough=100)
def oscillations(rng, rec):
    """A sine with N oscillations has eta N (documented)."""
    T, N = int(rng.randint(2000, 4000)), int(rng.randint(1, 20))
    s = np.sin(2 * np.pi * N * np.arange(T + 1) / T)[:, None] * rng.rand() * 10
    n = mn.EtaComputerNode()
    n.train(s)
    got = float(n.get_eta(t=T)[0])
    rec.require(abs(got - N) < 0.01 * N, 'eta:sine', lambda: 'eta %g for %d oscillations' % (got, N))
    rec.event('eta')
    rec.case(T, N)
