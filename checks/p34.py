"""P34 probabilistic models: factor analysis and restricted Boltzmann machines against their defining distributions."""
import itertools
import warnings
import numpy as np
import mdp
from mdp.nodes import FANode, RBMNode, RBMWithLabelsNode
from harness.core import Check, Skip

CHECK = Check('P34', 'A case is one trained factor analysis (data set, latent dimension, scale, chunking, stopping rule, '
              'number type) or one Boltzmann machine (parameters, batch, learning rate, momentum, decay, Gibbs steps) '
              'with the calls made on it. The monitor evaluates the data likelihood itself along the prefix histories of '
              'the training, the posterior by its other closed form, and enumerates all hidden/visible states of a small '
              'machine: every observed update must be the documented function of one possible Gibbs path, and paths must '
              'occur as often as the model says. Distinct by node, dimensions, settings and data.')
CHECK.expect_events(fa_models=60, fa_steps=120, posteriors=25, stationary=10, fa_scaled=8, fa_refused=2, generated=10,
                    rbm_steps=200, rbm_probs=80, rbm_energy=40, rbm_freq=50, label_probs=20)


# ---------------------------------------------------------------- factor analysis

def fa_data(rng, n=None, d=None, k=None, noise=(0.2, 1.5)):
    d = d or rng.randint(2, 10)
    k = k or rng.randint(1, max(2, d // 2 + 1))
    n = n or rng.randint(6 * d + 20, 400)
    L = rng.randn(d, k) * rng.uniform(0.5, 2)
    s2 = rng.uniform(noise[0], noise[1], d)
    lat = rng.randn(n, k) if rng.randint(3) else rng.laplace(size=(n, k)) / np.sqrt(2)
    x = lat.dot(L.T) + rng.randn(n, d) * np.sqrt(s2) + rng.randn(d) * rng.choice([0, 1, 10])
    return x, L, s2


def chunks(rng, x):
    c = rng.choice([1, 1, 2, 3, 5])
    cuts = np.sort(rng.choice(np.arange(1, len(x)), size=c - 1, replace=False)) if c > 1 else []
    return np.split(x, cuts)


def loglik(x, mu, C):
    """Mean log density of the rows of x under N(mu, C)."""
    sign, ld = np.linalg.slogdet(C)
    if sign <= 0:
        return -np.inf
    r = x - mu
    return float(-0.5 * (x.shape[1] * np.log(2 * np.pi) + ld + (r * np.linalg.solve(C, r.T).T).sum(axis=1).mean()))


def model_cov(n):
    A = np.asarray(n.A, dtype='d')
    return A.dot(A.T) + np.diag(np.asarray(n.sigma, dtype='d'))


def fit(x_chunks, seed, **kw):
    mdp.numx_rand.seed(seed)
    n = FANode(**kw)
    for c in x_chunks:
        n.train(c)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        n.stop_training()
    n._warned = [str(w.message) for w in ws]
    return n


def posterior(n, x):
    A, s = np.asarray(n.A, 'd'), np.asarray(n.sigma, 'd')
    M = np.eye(A.shape[1]) + (A.T / s).dot(A)
    return np.linalg.solve(M, (A.T / s).dot((x - np.asarray(n.mu, 'd')).T)).T


def em_step(S, A, s):
    B = np.linalg.inv(A.dot(A.T) + np.diag(s))
    W = A.T.dot(B)
    WS = W.dot(S)
    A2 = WS.T.dot(np.linalg.inv(np.eye(A.shape[1]) - W.dot(A) + WS.dot(W.T)))
    return A2, np.diag(S) - (A2 * WS.T).sum(axis=1)


def valid(rec, n, x, k, single):
    d = x.shape[1]
    rec.require(n.A.shape == (d, k) and np.shape(n.sigma) == (d,) and np.size(n.mu) == d, 'fa-shape',
                lambda: (n.A.shape, np.shape(n.sigma), np.shape(n.mu), d, k))
    rec.require(np.isfinite(n.A).all() and np.isfinite(n.sigma).all() and np.all(n.sigma > 0), 'fa-invalid',
                lambda: 'noise variances %r, weights %r' % (n.sigma, n.A))
    tol = 1e-4 if single else 1e-9
    sc = np.abs(x).max()
    rec.require(np.allclose(np.ravel(n.mu), x.mean(axis=0), rtol=tol, atol=tol * sc), 'fa-mean',
                lambda: (n.mu, x.mean(axis=0)))
    rec.event('fa_models')


@CHECK.scenario(quick=24, thorough=400)
def fa_history(rng, rec):
    x, L, s2 = fa_data(rng)
    d = x.shape[1]
    single = rng.randint(5) == 0
    if single:
        x = x.astype('f')
    k = rng.choice([None, 1, L.shape[1], d, rng.randint(1, d + 1)])
    k = None if k is None else int(k)
    seed = rng.randint(1 << 30)
    kk = d if k is None else k
    ch = chunks(rng, x)
    # prefix histories: the same run stopped after 1, 2, 3, ... cycles
    cyc = sorted(set([1, 2, 3, 4, 5, 7, 10, 15, 25, 40]))
    prev, curve = None, []
    x64 = x.astype('d')
    tol = 2e-3 if single else 1e-9
    for m in cyc:
        n = fit(ch, seed, tol=0. if not single else 1e-6, max_cycles=m, output_dim=k)
        valid(rec, n, x64, kk, single)
        L_ = loglik(x64, np.asarray(n.mu, 'd'), model_cov(n))
        if prev is not None:
            rec.require(L_ >= prev - tol * (1 + abs(prev)), 'fa-decrease',
                        lambda: 'data likelihood %.12g after %d cycles, %.12g earlier' % (L_, m, prev))
            rec.event('fa_steps')
        # what the node itself recorded must never decrease either, and cannot exceed the final model
        lh = np.asarray(n.lhood)
        if len(lh) > 1:
            rec.require(np.all(np.diff(lh) >= -tol * (1 + np.abs(lh[:-1]))), 'fa-recorded-decrease', lambda: lh)
        prev = L_
        curve.append(L_)
    # recorded likelihoods are those of the run: parameters after m cycles give entry m
    lh = np.asarray(n.lhood)
    for m, v in zip(cyc, curve):
        if m < len(lh):
            rec.require(abs(lh[m] - v) <= (1e-2 if single else 1e-7) * (1 + abs(v)), 'fa-recorded-lhood',
                        lambda: 'cycle %d recorded %.10g, data likelihood %.10g' % (m, lh[m], v))
    y = n.execute(x)
    want = posterior(n, x64)
    if n.sigma.min() > 1e-6 * np.diag(np.cov(x64.T)).min():
        rec.require(y.shape == want.shape and np.abs(y - want).max() <= (5e-2 if single else 1e-6) * (1 + np.abs(want).max()),
                    'fa-posterior', lambda: 'error %g' % np.abs(y - want).max())
        rec.event('posteriors')
    rec.require(y.dtype == x.dtype, 'fa-dtype', lambda: y.dtype)
    rec.case(('fa', d, kk, len(x), len(ch), single, seed))


@CHECK.scenario(quick=20, thorough=300)
def fa_new_points(rng, rec):
    x, L, s2 = fa_data(rng)
    n = fit(chunks(rng, x), rng.randint(1 << 30), output_dim=int(rng.randint(1, L.shape[1] + 1)))
    z = rng.randn(rng.randint(1, 6), x.shape[1]) * rng.choice([1, 10, 100]) + x.mean(axis=0)
    y = n.execute(z)
    w = posterior(n, z)
    rec.require(np.abs(y - w).max() <= 1e-7 * (1 + np.abs(w).max()) / min(1, n.sigma.min()), 'fa-posterior',
                lambda: 'new points, error %g' % np.abs(y - w).max())
    rec.event('posteriors')
    valid(rec, n, x, n.output_dim, False)
    # default stopping rule: the run stops only when one more step gains little, or cycles are exhausted
    S = np.cov(x.T, bias=True)
    A2, s2_ = em_step(S, n.A, n.sigma)
    C0, C1 = model_cov(n), A2.dot(A2.T) + np.diag(s2_)
    l0, l1 = loglik(x, n.mu, C0), loglik(x, n.mu, C1)
    if len(n.lhood) < n.max_cycles:
        rec.require(l1 - l0 <= 20 * n.tol * (abs(l0 - n.lhood[0]) + 1e-9) + 1e-9, 'fa-stopped-early',
                    lambda: 'one more EM step still gains %g (total gain %g)' % (l1 - l0, l0 - n.lhood[0]))
    rec.case(('fa-new', x.shape, n.output_dim, len(z)))


@CHECK.scenario(quick=14, thorough=150)
def fa_stationary(rng, rec):
    d = rng.randint(4, 10)
    k = rng.randint(1, max(2, (d - 1) // 2))
    x, L, s2 = fa_data(rng, n=rng.randint(600, 2000), d=d, k=int(k))
    S = np.cov(x.T, bias=True)
    best = None
    for _ in range(3):
        n = fit(chunks(rng, x), rng.randint(1 << 30), output_dim=int(k), tol=1e-14, max_cycles=4000)
        valid(rec, n, x, k, False)
        C = model_cov(n)
        l0 = loglik(x, n.mu, C)
        A2, s_ = em_step(S, n.A, n.sigma)
        l1 = loglik(x, n.mu, A2.dot(A2.T) + np.diag(s_))
        rec.require(l1 - l0 < 1e-6, 'fa-not-stationary', lambda: 'a further EM step gains %g' % (l1 - l0))
        dd = np.abs(np.diag(C) / np.diag(S) - 1).max()
        rec.require(dd < 1e-2, 'fa-variances', lambda: 'model variances differ from data variances by %g' % dd)
        # gradient in scale-free coordinates: W.r.t. log sigma and A / sqrt(var)
        B = np.linalg.inv(C)
        G = B.dot(S - C).dot(B)
        v = np.sqrt(np.diag(S))
        gA = (G.dot(n.A) * v[:, None])
        gs = np.diag(G) * n.sigma
        rec.require(max(np.abs(gA).max(), np.abs(gs).max()) < 2e-2, 'fa-gradient',
                    lambda: 'gradient of the likelihood %g / %g' % (np.abs(gA).max(), np.abs(gs).max()))
        rec.event('stationary')
        best = l0 if best is None else max(best, l0)
    lt = loglik(x, x.mean(axis=0), L.dot(L.T) + np.diag(s2))
    rec.require(best >= lt - 1e-4, 'fa-not-ml', lambda: 'best of three runs reaches %.6f; generating model has %.6f' % (best, lt))
    rec.case(('fa-stat', d, k, len(x)))


@CHECK.scenario(quick=14, thorough=120)
def fa_scaling(rng, rec):
    """A change of units rescales the model and nothing else, whatever the number of components."""
    big = rng.randint(3) == 0
    d = int(rng.choice([40, 100, 180, 305])) if big else int(rng.randint(2, 12))
    k = int(rng.randint(1, 4))
    k = min(k, d)
    x, L, s2 = fa_data(rng, n=max(3 * d, 150), d=d, k=k)
    x = x - x.mean(axis=0)
    e = int(rng.choice([-40, -20, -10, -3, 3, 8, 12, 25, 40]))
    f = 2.0 ** e
    seed = rng.randint(1 << 30)
    kw = dict(output_dim=k, tol=0., max_cycles=5)
    a = fit([x], seed, **kw)
    try:
        b = fit([x * f], seed, **kw)
    except mdp.NodeException as exc:
        rec.require(False, 'fa-scale', 'data multiplied by 2**%d (d=%d) refused: %s' % (e, d, exc))
    valid(rec, a, x, k, False)
    valid(rec, b, x * f, k, False)
    rec.require(np.allclose(b.A / f, a.A, rtol=1e-6, atol=1e-7 * np.abs(a.A).max()), 'fa-scale',
                lambda: 'weights differ by %g after scaling by 2**%d' % (np.abs(b.A / f - a.A).max(), e))
    rec.require(np.allclose(b.sigma / f / f, a.sigma, rtol=1e-6, atol=0), 'fa-scale',
                lambda: 'noise differs by %g after scaling by 2**%d' % (np.abs(b.sigma / f / f - a.sigma).max(), e))
    rec.require(np.isfinite(b.lhood).all(), 'fa-scale-lhood', lambda: b.lhood)
    if len(b.lhood) == len(a.lhood):
        rec.require(np.allclose(np.asarray(b.lhood) + d * np.log(f), a.lhood, rtol=1e-7, atol=1e-6), 'fa-scale-lhood',
                    lambda: (b.lhood, a.lhood))
    rec.require(np.allclose(b.execute(x * f), a.execute(x), rtol=1e-6, atol=1e-6), 'fa-scale', 'factors differ')
    rec.event('fa_scaled')
    rec.case(('fa-scale', d, k, e))


@CHECK.each([(m, m) for m in ('duplicate', 'constant', 'combination', 'few')], quick=4, thorough=30)
def fa_singular(rng, rec, mode):
    x, L, s2 = fa_data(rng, d=int(rng.choice([3, 4, 6, 9, 30, 60])), n=200)
    d = x.shape[1]
    if mode == 'duplicate':
        x[:, 0] = x[:, d - 1]
    elif mode == 'constant':
        x[:, rng.randint(d)] = rng.choice([0., 1., 4.])
    elif mode == 'combination':
        x[:, 0] = x[:, 1] - x[:, 2]
    else:
        x = x[:max(2, d // 2)]
    n = FANode(output_dim=1)
    n.train(x)
    try:
        n.stop_training()
    except mdp.NodeException:
        rec.event('fa_refused')
    else:
        # rounding may hide the singularity: then the model has to be a usable one
        rec.require(np.isfinite(n.A).all() and np.isfinite(n.sigma).all() and np.all(n.sigma > 0) and
                    np.isfinite(n.execute(x)).all(), 'fa-singular',
                    lambda: '%s data of %d dimensions accepted; sigma %r' % (mode, d, n.sigma))
        rec.event('fa_accepted')
    rec.case(('fa-singular', mode, d, len(x)))


@CHECK.scenario(quick=14, thorough=200)
def fa_generate(rng, rec):
    x, L, s2 = fa_data(rng)
    n = fit([x], rng.randint(1 << 30), output_dim=int(L.shape[1]))
    d, k = x.shape[1], n.output_dim
    y = rng.randn(rng.randint(1, 5), k)
    g = n.generate_input(y)
    rec.require(np.allclose(g, y.dot(n.A.T) + np.ravel(n.mu), rtol=1e-12, atol=1e-12 * np.abs(x).max()), 'fa-generate',
                'observations of given factors')
    N = 4000
    for noise in (False, True):
        g = n.generate_input(N, noise=noise)
        rec.require(g.shape == (N, d), 'fa-generate', g.shape)
        C = n.A.dot(n.A.T) + (np.diag(n.sigma) if noise else 0)
        sd = np.sqrt(np.diag(C))
        e = np.abs(g.mean(axis=0) - np.ravel(n.mu)) / np.maximum(sd, 1e-12) * np.sqrt(N)
        rec.require(e.max() < 7, 'fa-generate', lambda: 'mean off by %g standard errors (noise=%r)' % (e.max(), noise))
        E = np.abs(np.cov(g.T, bias=True).reshape(d, d) - C) / (np.sqrt(np.outer(sd ** 2, sd ** 2) + C ** 2) / np.sqrt(N))
        rec.require(E.max() < 8, 'fa-generate', lambda: 'covariance off by %g standard errors (noise=%r)' % (E.max(), noise))
        g = n.generate_input(y, noise=noise)
        res = (g - y.dot(n.A.T) - np.ravel(n.mu)) / np.sqrt(n.sigma)
        rec.require((np.abs(res).max() < 7) if noise else (np.abs(res).max() < 1e-6), 'fa-generate', lambda: res)
        rec.event('generated')
    rec.case(('fa-gen', d, k))


# ---------------------------------------------------------------- Boltzmann machines

def sig(a):
    with np.errstate(over='ignore'):
        return 1. / (1. + np.exp(-a))


def states(d):
    return np.array(list(itertools.product([0., 1.], repeat=d)))


def softmax(a):
    e = np.exp(a - a.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


def bern(p, s):
    """P(s) for independent units: p (..., d), s (m, d) -> (..., m)."""
    return np.prod(np.where(s[None, :, :] > 0.5, p[:, None, :], 1 - p[:, None, :]), axis=-1)


def make_rbm(rng, nv, nh, nl=0, dtype='d', scale=None, late=None):
    scale = scale if scale is not None else rng.choice([0.3, 1., 2.])
    if nl:
        n = RBMWithLabelsNode(nh, nl, visible_dim=None if rng.randint(2) else nv, dtype=dtype)
        n.train(np.zeros((1, nv), dtype), np.eye(nl, dtype=dtype)[:1], epsilon=0.)
    else:
        n = RBMNode(nh, visible_dim=None if rng.randint(2) else nv, dtype=dtype)
        n.train(np.zeros((1, nv), dtype), epsilon=0.)
    n.w[...] = rng.randn(nv + nl, nh) * scale
    n.bv[...] = rng.randn(nv + nl) * scale
    n.bh[...] = rng.randn(nh) * scale
    return n


def params(n):
    return np.array(n.w, 'd'), np.array(n.bv, 'd'), np.array(n.bh, 'd')


def onehot(rng, n, nl, dtype='d'):
    return np.eye(nl, dtype=dtype)[rng.randint(nl, size=n)]


def freq(rec, key, count, p, N, what):
    """Observed counts against probabilities: 7 standard errors and a Poisson allowance."""
    count, p = np.asarray(count, 'd'), np.asarray(p, 'd')
    lim = 7 * np.sqrt(N * p * (1 - p)) + 6
    rec.require(np.all(np.abs(count - N * p) <= lim), key,
                lambda: '%s: counts %s, expected %s of %d' % (what, count.ravel()[:12], (N * p).ravel()[:12], N))
    rec.event('rbm_freq')


@CHECK.scenario(quick=30, thorough=400)
def rbm_conditionals(rng, rec):
    nv, nh = rng.randint(1, 7), rng.randint(1, 6)
    dtype = rng.choice(['d', 'd', 'f'])
    n = make_rbm(rng, nv, nh, dtype=dtype, scale=rng.choice([0.3, 1, 3, 60, 900]))
    w, bv, bh = params(n)
    tol = 1e-4 if dtype == 'f' else 1e-10
    N = rng.randint(1, 40)
    v = (rng.rand(N, nv) > .5).astype(dtype)
    h = (rng.rand(N, nh) > .5).astype(dtype)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ph, hs = n.sample_h(v)
        pv, vs = n.sample_v(h)
        ex = n.execute(v)
        exs = n.execute(v, return_probs=False)
    for got, want, what in ((ph, sig(bh + v.dot(w)), 'P(h|v)'), (pv, sig(bv + h.dot(w.T)), 'P(v|h)'),
                            (ex, sig(bh + v.dot(w)), 'execute')):
        rec.require(got.shape == want.shape and np.isfinite(got).all() and np.abs(got - want).max() < tol, 'rbm-probs',
                    lambda: '%s differs by %g' % (what, np.abs(got - want).max()))
        rec.event('rbm_probs')
    for s, p, what in ((hs, ph, 'h'), (vs, pv, 'v'), (exs, ph, 'execute')):
        rec.require(s.shape == p.shape and np.isin(s, (0, 1)).all(), 'rbm-binary', lambda: '%s: %r' % (what, s))
        rec.require(not np.any((s == 1) & (p < 1e-12)) and not np.any((s == 0) & (p > 1 - 1e-12)), 'rbm-binary',
                    '%s: impossible sample' % what)
    rec.require(ex.dtype == exs.dtype == np.dtype(dtype), 'rbm-dtype', lambda: (ex.dtype, exs.dtype))
    # energies, and the conditionals they imply
    e = np.asarray(n.energy(v, h))
    want = -v.dot(bv) - h.dot(bh) - np.einsum('ni,ij,nj->n', v, w, h)
    rec.require(e.shape == (N,) and np.allclose(e, want, rtol=tol, atol=tol * (1 + np.abs(want).max())), 'rbm-energy',
                lambda: (e, want))
    rec.event('rbm_energy')
    H = states(nh)
    q = softmax(-np.array([n.energy(np.repeat(v[:1], len(H), axis=0), H.astype(dtype))], 'd'))[0]
    rec.require(np.abs(q.dot(H) - ph[0]).max() < max(tol, 1e-3 if dtype == 'f' and np.abs(w).max() > 50 else 0),
                'rbm-energy-conditional', 'P(h|v) is not what the energy implies')
    V = states(nv)
    q = softmax(-np.array([n.energy(V.astype(dtype), np.repeat(h[:1], len(V), axis=0))], 'd'))[0]
    rec.require(np.abs(q.dot(V) - pv[0]).max() < max(tol, 1e-3 if dtype == 'f' and np.abs(w).max() > 50 else 0),
                'rbm-energy-conditional', 'P(v|h) is not what the energy implies')
    rec.case(('rbm', nv, nh, dtype, N))


@CHECK.scenario(quick=16, thorough=200)
def rbm_sampling(rng, rec):
    """Sample frequencies, jointly over units (independence given the other layer)."""
    nv, nh = rng.randint(1, 4), rng.randint(1, 4)
    n = make_rbm(rng, nv, nh)
    w, bv, bh = params(n)
    N = 3000
    V, H = states(nv), states(nh)
    v0, h0 = V[rng.randint(len(V))], H[rng.randint(len(H))]
    hs = n.execute(np.repeat(v0[None], N, axis=0), return_probs=False) if rng.randint(2) else \
        n.sample_h(np.repeat(v0[None], N, axis=0))[1]
    freq(rec, 'rbm-frequency', [(hs == s).all(axis=1).sum() for s in H], bern(sig(bh + v0.dot(w))[None], H)[0], N, 'h')
    vs = n.sample_v(np.repeat(h0[None], N, axis=0))[1]
    freq(rec, 'rbm-frequency', [(vs == s).all(axis=1).sum() for s in V], bern(sig(bv + w.dot(h0))[None], V)[0], N, 'v')
    # alternating sampling leaves the Boltzmann distribution exp(-energy)/Z invariant
    E = np.array([[n.energy(a[None], b[None])[0] for b in H] for a in V])
    P = softmax(-E.reshape(1, -1))[0]
    idx = rng.choice(len(P), size=N, p=P)
    h = H[idx % len(H)]
    for _ in range(rng.randint(1, 4)):
        v = n.sample_v(h)[1]
        h = n.sample_h(v)[1]
    cnt = [((v == V[i // len(H)]).all(axis=1) & (h == H[i % len(H)]).all(axis=1)).sum() for i in range(len(P))]
    freq(rec, 'rbm-invariant', cnt, P, N, 'joint after Gibbs steps')
    rec.case(('rbm-sampling', nv, nh, float(w[0, 0])))


def cd_step(w, bv, bh, v, vm, hd, hm, delta, eps, decay, mom, with_ph):
    n = len(v)
    pd, pm = sig(bh + v.dot(w)), sig(bh + vm.dot(w))
    dw, dbv, dbh = delta
    dw = mom * dw + eps * ((v.T.dot(pd) - vm.T.dot(pm)) / n - decay * w)
    dbv = mom * dbv + eps * (v - vm).sum(axis=0) / n
    a, b = (pd, pm) if with_ph else (hd, hm)
    dbh = mom * dbh + eps * (a - b).sum(axis=0) / n
    return dw, dbv, dbh


@CHECK.scenario(quick=30, thorough=400)
def rbm_updates(rng, rec):
    """Every training step is the documented update for one possible Gibbs path; state carries over correctly."""
    nv, nh = rng.randint(1, 4), rng.randint(1, 4)
    dtype = rng.choice(['d', 'd', 'd', 'f'])
    n = make_rbm(rng, nv, nh, dtype=dtype, scale=rng.choice([0.3, 1.]))
    delta = (0., 0., 0.)
    V, H = states(nv), states(nh)
    tol = 3e-5 if dtype == 'f' else 1e-9
    for step in range(rng.randint(3, 12)):
        rows = 1 if rng.randint(3) else 2
        v = (rng.rand(rows, nv) > .5).astype(dtype)
        kw = {}
        if rng.randint(3): kw['epsilon'] = float(rng.choice([0.01, 0.3, 1.]))
        if rng.randint(2): kw['decay'] = float(rng.choice([0.001, 0.1]))
        if rng.randint(2): kw['momentum'] = float(rng.choice([0.1, 0.9]))
        if rng.randint(2): kw['n_updates'] = int(rng.choice([1, 2, 5]))
        ph = True
        if rng.randint(2):
            ph = bool(rng.randint(2))
            kw['update_with_ph'] = ph
        eps, dec, mom = kw.get('epsilon', 0.1), kw.get('decay', 0.), kw.get('momentum', 0.)
        w, bv, bh = params(n)
        n.train(v, **kw)
        w2, bv2, bh2 = params(n)
        got = (w2 - w, bv2 - bv, bh2 - bh)
        best, bd = np.inf, None
        for vm in itertools.product(range(len(V)), repeat=rows):
            vm = V[list(vm)]
            if ph:
                cand = [cd_step(w, bv, bh, v, vm, None, None, delta, eps, dec, mom, True)]
            else:
                diffs = itertools.product(range(-rows, rows + 1), repeat=nh)
                base = cd_step(w, bv, bh, v, vm, np.zeros((1, nh)), np.zeros((1, nh)), delta, eps, dec, mom, False)
                cand = [(base[0], base[1], base[2] + eps * np.array(df, 'd') / rows) for df in diffs]
            for c in cand:
                err = max(np.abs(g - q).max() for g, q in zip(got, c))
                if err < best:
                    best, bd = err, c
        rec.require(best <= tol * (1 + max(np.abs(g).max() for g in got)), 'rbm-update',
                    lambda: 'step %d %r: no Gibbs path explains the update (closest %g)' % (step, kw, best))
        delta = bd
        rec.event('rbm_steps')
    rec.case(('rbm-updates', nv, nh, dtype, step))


def cd_expect(w, bv, bh, x, nl, n_updates):
    """Exact distribution over (h_prev, v_model) at the last half step and the joint with h_data, h_model."""
    nh = len(bh)
    nv = len(bv) - nl
    V, H = states(nv), states(nh)
    ph0 = bern(sig(bh + x.dot(w))[None], H)[0]
    pv_h = bern(sig(bv + H.dot(w.T))[:, :nv], V)          # H x V
    lab = softmax((bv + H.dot(w.T))[:, nv:]) if nl else np.zeros((len(H), 0))
    X = np.concatenate([np.repeat(V[None], len(H), axis=0),
                        np.repeat(lab[:, None, :], len(V), axis=1)], axis=2)     # H x V x D
    ph_x = np.stack([bern(sig(bh + X[i].dot(w)), H) for i in range(len(H))])      # H x V x H'
    T = np.einsum('hv,hvk->hk', pv_h, ph_x)
    J = np.diag(ph0)                                    # h_data x h
    for _ in range(n_updates - 1):
        J = J.dot(T)
    joint = np.einsum('ah,hv,hvk->ahvk', J, pv_h, ph_x)   # h_data, h_prev, v, h_model
    return V, H, X, joint


@CHECK.scenario(quick=16, thorough=200)
def rbm_update_distribution(rng, rec):
    """A large batch of equal rows: the mean update is the expectation under the Gibbs chain."""
    nl = int(rng.choice([0, 0, 2, 3]))
    nv, nh = rng.randint(1, 4), rng.randint(1, 4)
    n = make_rbm(rng, nv, nh, nl=nl)
    w, bv, bh = params(n)
    k = int(rng.choice([1, 1, 2, 3, 6]))
    N = 3000
    v = (rng.rand(nv) > .5).astype('d')
    l = onehot(rng, 1, nl)[0] if nl else np.zeros(0)
    x = np.concatenate([v, l])
    V, H, X, joint = cd_expect(w, bv, bh, x, nl, k)
    rep = lambda a: np.repeat(a[None], N, axis=0)
    ph = bool(rng.randint(2)) if not nl else True
    if nl:
        n.train(rep(v), rep(l), n_updates=k, epsilon=1.)
    else:
        n.train(rep(v), n_updates=k, epsilon=1., update_with_ph=ph)
    w2, bv2, bh2 = params(n)
    P = joint.sum(axis=(0, 3))                            # h_prev x v
    pm = sig(bh + X.dot(w))                               # H x V x nh
    pd = sig(bh + x.dot(w))

    def expect(f, p):
        m = (f * p).sum(axis=tuple(range(p.ndim)))
        s = np.sqrt(np.maximum((f ** 2 * p).sum(axis=tuple(range(p.ndim))) - m ** 2, 0))
        return m, 7 * s / np.sqrt(N) + 12. / N

    for name, got, f in [('bv', [bv2 - bv], None)]:
        m, lim = zip(*[expect(x[i] - X[:, :, i], P) for i in range(len(x))])
        rec.require(np.all(np.abs(bv2 - bv - m) <= lim), 'rbm-expected-update',
                    lambda: 'visible biases: %r expected %r (n_updates=%d)' % (bv2 - bv, m, k))
    for i in range(len(x)):
        for j in range(nh):
            m, lim = expect(x[i] * pd[j] - X[:, :, i] * pm[:, :, j], P)
            rec.require(abs(w2[i, j] - w[i, j] - m) <= lim, 'rbm-expected-update',
                        lambda: 'weight %d,%d: %g expected %g (n_updates=%d)' % (i, j, w2[i, j] - w[i, j], m, k))
    for j in range(nh):
        if ph:
            m, lim = expect(pd[j] - pm[:, :, j], P)
        else:
            D = H[:, j][:, None] - H[:, j][None, :]
            m, lim = expect(D, joint.sum(axis=(1, 2)))
        rec.require(abs(bh2[j] - bh[j] - m) <= lim, 'rbm-expected-update',
                    lambda: 'hidden bias %d: %g expected %g (n_updates=%d, ph=%r)' % (j, bh2[j] - bh[j], m, k, ph))
    rec.event('rbm_freq')
    rec.event('rbm_steps', 3)
    rec.case(('rbm-dist', nv, nh, nl, k, ph))


@CHECK.scenario(quick=24, thorough=300)
def label_updates(rng, rec):
    nv, nh, nl = rng.randint(1, 4), rng.randint(1, 4), rng.randint(2, 5)
    dtype = rng.choice(['d', 'd', 'd', 'f'])
    n = make_rbm(rng, nv, nh, nl=nl, dtype=dtype, scale=rng.choice([0.3, 1.]))
    delta = (0., 0., 0.)
    V, H = states(nv), states(nh)
    tol = 3e-5 if dtype == 'f' else 1e-9
    for step in range(rng.randint(3, 9)):
        v, l = (rng.rand(1, nv) > .5).astype(dtype), onehot(rng, 1, nl, dtype)
        x = np.concatenate([v, l], axis=1).astype('d')
        kw = {}
        if rng.randint(3): kw['epsilon'] = float(rng.choice([0.01, 0.3, 1.]))
        if rng.randint(2): kw['decay'] = float(rng.choice([0.001, 0.1]))
        if rng.randint(2): kw['momentum'] = float(rng.choice([0.1, 0.9]))
        if rng.randint(2): kw['n_updates'] = int(rng.choice([1, 2, 5]))
        w, bv, bh = params(n)
        n.train(v, l, **kw)
        w2, bv2, bh2 = params(n)
        got = (w2 - w, bv2 - bv, bh2 - bh)
        best, bd = np.inf, None
        for vm in V:
            for h in H:
                lm = softmax((bv + w.dot(h))[None, nv:])[0]
                c = cd_step(w, bv, bh, x, np.concatenate([vm, lm])[None], None, None, delta, kw.get('epsilon', .1),
                            kw.get('decay', 0.), kw.get('momentum', 0.), True)
                err = max(np.abs(g - q).max() for g, q in zip(got, c))
                if err < best:
                    best, bd = err, c
        rec.require(best <= tol * (1 + max(np.abs(g).max() for g in got)), 'rbm-label-update',
                    lambda: 'step %d %r: no Gibbs path explains the update (closest %g)' % (step, kw, best))
        delta = bd
        rec.event('rbm_steps')
    rec.case(('label-updates', nv, nh, nl, dtype, step))


@CHECK.scenario(quick=30, thorough=400)
def label_conditionals(rng, rec):
    nv, nh, nl = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 6)
    dtype = rng.choice(['d', 'd', 'f'])
    n = make_rbm(rng, nv, nh, nl=nl, dtype=dtype, scale=rng.choice([0.3, 1, 3, 12, 60, 900]))
    w, bv, bh = params(n)
    tol = (2e-4 if np.abs(w).max() > 30 else 2e-5) if dtype == 'f' else 1e-10
    N = rng.randint(1, 40)
    v, l = (rng.rand(N, nv) > .5).astype(dtype), onehot(rng, N, nl, dtype)
    h = (rng.rand(N, nh) > .5).astype(dtype)
    x = np.concatenate([v, l], axis=1).astype('d')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ph, hs = n.sample_h(v, l)
        pv, pl, vs, ls = n.sample_v(h)
        ex = n.execute(v, l)
        exs = n.execute(v, l, return_probs=False)
    a = bv + h.dot(w.T)
    for got, want, what in ((ph, sig(bh + x.dot(w)), 'P(h|v,l)'), (ex, sig(bh + x.dot(w)), 'execute'),
                            (pv, sig(a[:, :nv]), 'P(v|h)'), (pl, softmax(a[:, nv:]), 'P(l|h)')):
        rec.require(got.shape == want.shape and np.isfinite(got).all() and np.abs(got - want).max() < tol, 'label-probs',
                    lambda: '%s differs by %g' % (what, np.abs(got - want).max()))
        rec.event('rbm_probs')
    rec.require(np.allclose(pl.sum(axis=1), 1, atol=1e-5 if dtype == 'f' else 1e-12) and (pl >= 0).all(),
                'label-normalized', lambda: pl)
    rec.event('label_probs')
    rec.require(ls.shape == (N, nl) and np.isin(ls, (0, 1)).all() and np.all(ls.sum(axis=1) == 1), 'label-onehot',
                lambda: ls)
    for s in (hs, vs, exs):
        rec.require(np.isin(s, (0, 1)).all(), 'rbm-binary', lambda: s)
    e = np.asarray(n.energy(v, h, l))
    want = -x.dot(bv) - h.dot(bh) - np.einsum('ni,ij,nj->n', x, w, h)
    rec.require(e.shape == (N,) and np.allclose(e, want, rtol=1e-4 if dtype == 'f' else 1e-10, atol=tol * (1 + np.abs(want).max())),
                'rbm-energy', lambda: (e, want))
    rec.event('rbm_energy')
    # frequencies of label and visible samples
    M = 2000
    h0 = (rng.rand(nh) > .5).astype(dtype)
    pv, pl, vs, ls = n.sample_v(np.repeat(h0[None], M, axis=0))
    freq(rec, 'label-frequency', ls.sum(axis=0), softmax((bv + w.dot(h0))[None, nv:])[0], M, 'labels')
    with np.errstate(over='ignore'):
        freq(rec, 'label-frequency', vs.sum(axis=0), sig((bv + w.dot(h0))[:nv]), M, 'visible')
    # refusals: wrong widths, training after the end
    for f in (lambda: n.execute(v, np.concatenate([l, l], axis=1)), lambda: n.sample_h(np.concatenate([v, v], axis=1), l),
              lambda: n.sample_v(np.concatenate([h, h], axis=1)), lambda: n.train(v, l)):
        try:
            f()
        except mdp.NodeException:
            pass
        except mdp.TrainingFinishedException:
            pass
        else:
            rec.require(False, 'label-refusal', 'inconsistent widths or finished training accepted')
    rec.require(all(np.array_equal(p, q) for p, q in zip(params(n), (w, bv, bh))), 'rbm-changed',
                'sampling or refused calls changed the parameters')
    rec.case(('labels', nv, nh, nl, dtype, N))


@CHECK.scenario(quick=10, thorough=100)
def rbm_learning(rng, rec):
    """Training raises the exact probability of the training patterns (small machine, partition function enumerated)."""
    nv, nh = 4, int(rng.randint(3, 6))
    pats = states(nv)[rng.choice(16, size=2, replace=False)]
    v = pats[rng.randint(2, size=200)]
    n = RBMNode(nh, nv)
    labels = rng.randint(2)

    def ll():
        V = states(nv)
        F = V.dot(n.bv) + np.logaddexp(0, n.bh + V.dot(n.w)).sum(axis=1)
        Fd = pats.dot(n.bv) + np.logaddexp(0, n.bh + pats.dot(n.w)).sum(axis=1)
        m = F.max()
        return (Fd - m - np.log(np.exp(F - m).sum())).mean()
    n.train(v, epsilon=0.)
    l0 = ll()
    for i in range(150):
        n.train(v, epsilon=0.5, momentum=0.5)
    l1 = ll()
    rec.require(l1 > l0 + 0.3, 'rbm-learning', lambda: 'mean log probability of the patterns %g -> %g' % (l0, l1))
    rec.event('rbm_steps', 2)
    rec.case(('rbm-learn', nh))
