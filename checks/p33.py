"""P33 utilities against their mathematical definitions."""
import collections
import contextlib
import inspect
import io
import itertools
import math
import os
import re
import shutil
import tempfile
import numpy as np
import mdp
from mdp import utils as U
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P33', 'A case is one call (or short history) of a utility on generated arguments. The oracle is the '
              'definition: an independent trust-region solution by eigendecomposition and bracketing for quadratic form '
              'extrema, finite differences along geodesics for invariances, defining identities for matrix helpers, '
              'distribution tests over many draws for random helpers, and replay of the documented behaviour for the '
              'rest. Distinct by utility and arguments.')
CHECK.expect_events(extrema=120, invariances=60, hard_cases=10, degenerate=20, matrices=250, random_draws=2000,
                    helpers=250, progress=40, digs=30, tempdirs=10)


def rot(rng, d):
    q, r = np.linalg.qr(rng.randn(d, d))
    return q * np.sign(np.diag(r))


# ---------------------------------------------------------------- quadratic forms

def sphere_max(H, f, r):
    """True maximum of x'Hx/2 + f'x on the sphere of radius r (value)."""
    E, V = np.linalg.eigh(H)
    a = V.T.dot(f)
    scale = max(np.abs(E).max(), np.linalg.norm(f) / r, 1e-300)
    top = E > E[-1] - 1e-9 * scale
    atop = np.linalg.norm(a[top])

    def norm2(lam):
        with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
            return np.where(a == 0, 0, (a / (lam - E)) ** 2).sum()
    if atop <= 1e-10 * scale * r:
        rest = (a[~top] / (E[-1] - E[~top]))
        if (rest ** 2).sum() <= r * r:
            t2 = r * r - (rest ** 2).sum()
            return 0.5 * (E[~top] * rest ** 2).sum() + a[~top].dot(rest) + 0.5 * E[-1] * t2, True
    lo, hi = E[-1], E[-1] + np.linalg.norm(a) / r
    for _ in range(300):
        m = 0.5 * (lo + hi)
        if norm2(m) > r * r:
            lo = m
        else:
            hi = m
    with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
        x = np.where(a == 0, 0, a / (hi - E))
    x *= r / np.linalg.norm(x)
    return 0.5 * (E * x ** 2).sum() + a.dot(x), False


def form(rng):
    d = int(rng.choice([1, 2, 3, 4, 6, 9]))
    kind = str(rng.choice(['generic', 'generic', 'pos', 'neg', 'degenerate', 'degenerate', 'singular', 'zero', 'identity', 'hard']))
    E = rng.randn(d)
    if kind == 'pos':
        E = np.abs(E) + 0.1
    elif kind == 'neg':
        E = -np.abs(E) - 0.1
    elif kind == 'degenerate':
        E = rng.choice([-1.0, 0.5, 2.0], d)
    elif kind == 'singular':
        E[rng.randint(d)] = 0
        if rng.randint(2):
            E = np.abs(E) * rng.choice([-1, 1])
    elif kind == 'zero':
        E = np.zeros(d)
    elif kind == 'identity':
        E = np.ones(d) * rng.choice([-1, 1])
    E = E * float(rng.choice([1, 1, 0.01, 100]))
    Q = np.eye(d) if rng.randint(3) == 0 or kind == 'hard' else rot(rng, d)
    H = Q.dot(np.diag(E)).dot(Q.T)
    H = (H + H.T) / 2
    f = rng.randn(d) * float(rng.choice([1, 1, 0.05, 20]))
    if kind == 'hard':
        f[np.argmax(E)] = 0
        if rng.randint(2):
            f[np.argmin(E)] = 0
    if rng.randint(8) == 0:
        f = None
    return d, kind, H, f


@CHECK.scenario(quick=500, thorough=15000)
def extrema(rng, rec):
    d, kind, H, f = form(rng)
    c = float(rng.randn()) if rng.randint(2) else None
    dt = 'f' if rng.randint(6) == 0 else 'd'
    q = U.QuadraticForm(H, f, c, dtype=dt) if rng.randint(2) or dt == 'f' else U.QuadraticForm(H, f=f, c=c)
    H, f0 = q.H.astype('d'), (np.zeros(d) if f is None else q.f.astype('d'))
    r = float(rng.choice([1.0, 3.0, 0.3, 0.01, 50.0])) if rng.randint(5) else int(rng.randint(1, 6))
    kw = {} if rng.randint(2) else {'tol': float(rng.choice([1e-3, 1e-6, 1e-8]))}
    if dt == 'f':
        kw = {}
    tol = kw.get('tol', 1e-4)
    what = '%s d=%d norm=%s tol=%s %s' % (kind, d, r, tol, dt)
    res = q.get_extrema(r, **kw)
    xmax, xmin = res
    rec.require(np.array_equal(q.xmax, xmax) and np.array_equal(q.xmin, xmin), 'stored', 'extrema are not stored on the form')
    E = np.linalg.eigvalsh(H)
    eps = np.finfo(dt).eps
    S = max(np.abs(E).max(), np.linalg.norm(f0) / r)

    def value(x):
        x = np.asarray(x, 'd')
        return 0.5 * x.dot(H).dot(x) + f0.dot(x)
    for nm, x, sgn in (('max', xmax, 1), ('min', xmin, -1)):
        rec.require(x.shape == (d,) and np.isfinite(x).all(), 'shape-' + nm, lambda: '%s: %s has shape %s' % (what, nm, x.shape))
        nrm = float(np.linalg.norm(x.astype('d')))
        best, hard = sphere_max(sgn * H, sgn * f0, r)
        if hard:
            rec.event('hard_cases')
        interior = None
        if np.abs(f0).max() >= eps and (sgn * E < 0).all():
            EE, VV = np.linalg.eigh(H)
            x0 = -VV.dot(VV.T.dot(f0) / EE)
            if np.linalg.norm(x0) <= r * (1 + 1e-6):
                interior = sgn * value(x0)
        near_singular = np.abs(E).min() <= 1e-9 * S and (sgn * E <= 1e-9 * S).all()
        # the value can be off by what the norm tolerance allows
        grad = (S * r + np.linalg.norm(f0)) * 2 + 1e-300
        slack = grad * (tol * max(1, 1 / r) / 2 + 1e3 * eps * r)
        on_sphere = abs(nrm ** 2 - r * r) <= tol * (1 + 1e-6) + 1e3 * eps * r * r
        v = sgn * value(x)
        if near_singular:
            # semidefinite up to rounding: an optimum may lie inside or on the sphere
            ok = nrm ** 2 <= r * r + tol * (1 + 1e-6) + 1e3 * eps * r * r
        elif interior is not None:
            ok = (nrm <= r * (1 + 1e-4) + tol and v >= interior - slack - 1e-3 * eps * abs(interior)) or (on_sphere and v >= best - slack and
                                                                              abs(interior - best) <= slack)
        else:
            ok = on_sphere
        rec.require(ok, 'norm-' + nm, lambda: '%s: %s has norm %.9g' % (what, nm, nrm))
        if interior is None or near_singular:
            rec.require(abs(v - best) <= slack + 1e3 * eps * (abs(best) + S * r * r), 'value-' + nm,
                        lambda: '%s: value at the %s is %.9g, the true one %.9g' % (what, nm, sgn * v, sgn * best))
        rec.event('extrema')
    if len(set(np.round(E, 6))) < d:
        rec.event('degenerate')
    # evaluation
    X = rng.randn(int(rng.randint(1, 8)), d).astype(dt)
    got = q.apply(X)
    want = np.array([value(x) for x in X]) + (0 if c is None else c)
    rec.require(got.shape == want.shape and np.allclose(got, want, rtol=1e4 * eps, atol=1e4 * eps * (1 + S)), 'apply', lambda: '%s: evaluation' % what)
    one = q.apply(X[0])
    rec.require(np.shape(one) == (1,) and np.allclose(one[0], want[0], rtol=1e4 * eps, atol=1e4 * eps * (1 + S)), 'apply-1d', 'evaluation of one vector')
    rec.case(('extrema', kind, d, r, tol, dt, f is None))


@CHECK.scenario(quick=200, thorough=6000)
def invariances(rng, rec):
    d, kind, H, f = form(rng)
    if d == 1:
        d, kind, H, f = 3, 'generic', (lambda A: A + A.T)(rng.randn(3, 3)), rng.randn(3)
    q = U.QuadraticForm(H, f)
    f0 = np.zeros(d) if f is None else f
    r = float(rng.choice([0.5, 1, 4]))
    k = rng.randint(3)
    if k == 0:
        x = rng.randn(d)
        x *= r / np.linalg.norm(x)
    elif k == 1:
        x = q.get_extrema(r)[rng.randint(2)]
        r = np.linalg.norm(x)
        if r < 1e-3:
            raise Skip('extremum near the origin')
    else:
        x = np.zeros(d)
        x[rng.randint(d)] = r
    w, nu = q.get_invariances(x.copy())
    S = np.abs(H).max() + np.linalg.norm(f0) / r + 1
    rec.require(w.shape == (d, d - 1) and nu.shape == (d - 1,), 'inv-shape', lambda: 'shapes %s %s' % (w.shape, nu.shape))
    rec.require(np.allclose(w.T.dot(w), np.eye(d - 1), atol=1e-9), 'inv-orthonormal',
                lambda: '%s d=%d: the directions are not orthonormal: %.3g' % (kind, d, np.abs(w.T.dot(w) - np.eye(d - 1)).max()))
    rec.require(np.allclose(w.T.dot(x), 0, atol=1e-9 * r), 'inv-tangent', 'a direction leaves the tangential plane')
    rec.require((np.diff(np.abs(nu)) >= -1e-12 * S).all(), 'inv-order', 'second derivatives are not ordered by size')
    for i in range(d - 1):
        # along the geodesic x cos(t/r) + w r sin(t/r)
        t = 1e-3 * r

        def val(s):
            y = x * np.cos(s / r) + w[:, i] * r * np.sin(s / r)
            return 0.5 * y.dot(H).dot(y) + f0.dot(y)
        num = (-val(2 * t) + 16 * val(t) - 30 * val(0) + 16 * val(-t) - val(-2 * t)) / (12 * t * t)
        rec.require(abs(num - nu[i]) <= 1e-4 * S * max(1, r), 'inv-value',
                    lambda: '%s d=%d: second derivative %.9g, along the sphere it is %.9g' % (kind, d, nu[i], num))
    # no direction of the tangential plane couples two invariances
    B = w.T.dot(H).dot(w)
    rec.require(np.allclose(B - np.diag(np.diag(B)), 0, atol=1e-8 * S), 'inv-coupled', 'the directions are not the principal ones')
    rec.event('invariances')
    rec.case(('inv', kind, d, r, int(k), f is None))


@CHECK.scenario(quick=10, thorough=60)
def form_refusals(rng, rec):
    d = int(rng.randint(2, 6))
    H = rng.randn(d, d)
    H = H + H.T
    i, j = (0, 1) if rng.randint(2) else (d - 1, 0)
    H[i, j] += float(rng.choice([0.1, 1e-3, 1e-6])) * (1 + abs(H[i, j]))
    try:
        U.QuadraticForm(H)
        rec.require(False, 'asymmetric', 'a matrix that is not symmetric was accepted')
    except U.QuadraticFormException:
        pass
    H[i, j] = H[j, i]
    U.QuadraticForm(H)
    rec.case(('asym', d, i, float(H[0, 0])))


# ---------------------------------------------------------------- matrix helpers

@CHECK.scenario(quick=500, thorough=12000)
def matrices(rng, rec):
    d = int(rng.randint(1, 9))
    k = int(rng.randint(14))
    rec.event('matrices')
    if k == 0:
        dt = str(rng.choice(['d', 'f']))
        R = U.random_rot(d, dt) if rng.randint(2) or dt == 'f' else U.random_rot(d)
        t = 1e-10 if dt == 'd' else 1e-4
        rec.require(R.shape == (d, d) and R.dtype == np.dtype(dt), 'rot-type', lambda: '%s %s' % (R.shape, R.dtype))
        rec.require(np.allclose(R.dot(R.T), np.eye(d), atol=t), 'rot-orth', 'not orthogonal')
        rec.require(abs(np.linalg.det(R.astype('d')) - 1) < t, 'rot-det', lambda: 'determinant %g' % np.linalg.det(R))
    elif k in (1, 2):
        dt = str(rng.choice(['d', 'f', 'D', 'F']))
        ev = np.sort(rng.randn(d) * 3) if k == 1 else d
        h = U.symrand(ev, dt)
        t = 1e-10 if dt in 'dD' else 1e-4
        rec.require(h.shape == (d, d) and h.dtype == np.dtype(dt), 'symrand-type', lambda: '%s %s' % (h.shape, h.dtype))
        rec.require(np.allclose(h, h.T.conj(), atol=t), 'symrand-herm', 'not hermitian')
        got = np.linalg.eigvalsh(h)
        if k == 1:
            rec.require(np.allclose(got, ev, atol=10 * t), 'symrand-eig', lambda: '%s: eigenvalues %s, asked for %s' % (dt, got, ev))
        else:
            rec.require(np.abs(got).max() <= 1 + t, 'symrand-range', lambda: '%s: eigenvalues %s' % (dt, got))
        if dt in 'DF' and d > 1 and np.ptp(got) > 1e-3:
            rec.require(np.abs(h.imag).max() > 0, 'symrand-complex', 'complex matrix without imaginary part')
    elif k == 3:
        n = int(rng.randint(1, 9))
        m = rng.randn(n, d + 1)
        i, j = rng.permutation(d + 1)[:2]
        ang = float(rng.uniform(-7, 7))
        M = m.copy()
        if rng.randint(2):
            if d + 1 == 2 and rng.randint(2):
                i, j = 0, 1
                U.rotate(M, ang)
            else:
                U.rotate(M, ang, [i, j])
        else:
            U.rotate(M, ang * 180 / np.pi, columns=(i, j), units='degrees')
        W = m.copy()
        W[:, i] = np.cos(ang) * m[:, i] - np.sin(ang) * m[:, j]
        W[:, j] = np.sin(ang) * m[:, i] + np.cos(ang) * m[:, j]
        rec.require(np.allclose(M, W, atol=1e-10), 'rotate', 'rotated data differ')
    elif k == 4:
        n = d + 1
        m = rng.randn(n, n)
        i, j = int(rng.randint(n)), int(rng.randint(n))
        r, c = int(rng.randint(2)), int(rng.randint(2))
        M = m.copy()
        U.permute(M, [i, j], rows=r, cols=c)
        p = np.arange(n)
        p[i], p[j] = j, i
        W = m[p] if r else m
        W = W[:, p] if c else W
        rec.require(np.array_equal(M, W), 'permute', lambda: 'swap %s rows=%d cols=%d' % ((i, j), r, c))
    elif k == 5:
        x = rng.randn(d, 3) + 1j * rng.randn(d, 3)
        rec.require(np.array_equal(U.hermitian(x), np.conj(np.transpose(x))), 'hermitian', 'conjugate transpose')
        v = rng.randn(d)
        rec.require(np.isclose(U.norm2(v), math.sqrt(math.fsum(v ** 2))), 'norm2', 'norm')
        b = rng.rand(d) > 0.5
        rec.require(np.array_equal(U.bool_to_sign(b), np.where(b, 1, -1)), 'bool-sign', 'signs')
        s = rng.randint(-1, 2, d)
        rec.require(np.array_equal(U.sign_to_bool(s), s >= 0) and np.array_equal(U.sign_to_bool(s, zero=True), s >= 0) and
                    np.array_equal(U.sign_to_bool(s, zero=False), s > 0) and np.array_equal(U.sign_to_bool(list(s)), s >= 0),
                    'sign-bool', 'booleans')
    elif k == 6:
        n = int(rng.randint(2, 40))
        x, y = rng.randn(n, d) + rng.randn(), rng.randn(n, int(rng.randint(1, 6))) * 3
        W = (x - x.mean(0)).T.dot(y - y.mean(0)) / (n - 1)
        rec.require(np.allclose(U.cov2(x, y), W, atol=1e-9 * n), 'cov2', 'covariance')
        xi = rng.randint(-5, 6, (n, d))
        yi = rng.randint(-5, 6, (n, 2))
        Wi = (xi - xi.mean(0)).T.dot(yi - yi.mean(0)) / (n - 1.0)
        rec.require(np.allclose(U.cov2(xi, yi), Wi, atol=1e-9 * n), 'cov2-int', 'covariance of integers')
    elif k == 7:
        c = rng.randn(d, d)
        got = U.cov_maxima(c.copy())
        m = np.abs(c)
        want = []
        rows, cols = list(range(d)), list(range(d))
        while rows:
            a, b = max(((i, j) for i in rows for j in cols), key=lambda p: m[p])
            want.append(m[a, b])
            rows.remove(a)
            cols.remove(b)
        rec.require(np.allclose(got, want), 'cov-maxima', lambda: 'maxima %s, expected %s' % (got, want))
    elif k == 8:
        v, m = rng.randn(d), rng.randn(d, d)
        rec.require(np.allclose(U.mult_diag(v, m), np.diag(v).dot(m)) and np.allclose(U.mult_diag(v, m, left=True), np.diag(v).dot(m)) and
                    np.allclose(U.mult_diag(v, m, left=False), m.dot(np.diag(v))), 'mult-diag', 'diagonal product')
        N, kk = int(rng.randint(0, 60)), int(rng.randint(0, 30))
        rec.require(U.comb(N, kk) == math.comb(N, kk), 'comb', lambda: 'comb(%d, %d) = %s' % (N, kk, U.comb(N, kk)))
    elif k == 9:
        A = rng.randn(d, d + 2)
        if rng.randint(3) == 0:
            A = A + 1j * rng.randn(d, d + 2)
        A = A.dot(A.T.conj())
        lo = int(rng.randint(1, d + 1))
        hi = int(rng.randint(lo, d + 1))
        rg = None if rng.randint(2) else (lo, hi)
        w, z = U.nongeneral_svd(A.copy(), range=rg)
        E = np.linalg.eigvalsh(A)
        E = E if rg is None else E[lo - 1:hi]
        rec.require(np.allclose(w, E, atol=1e-8 * E.max()), 'nsvd-values', 'eigenvalues')
        rec.require(np.allclose(A.dot(z), z * w, atol=1e-7 * E.max()) and np.allclose(z.T.conj().dot(z), np.eye(len(w)), atol=1e-8),
                    'nsvd-vectors', 'eigenvectors')
    elif k == 10:
        A = rng.randn(d, d + 3)
        A = A.dot(A.T)
        s = U.sqrtm(A)
        rec.require(np.allclose(s.dot(s), A, atol=1e-8 * np.abs(A).max()) and np.allclose(s, s.T, atol=1e-8 * np.abs(A).max()) and
                    np.linalg.eigvalsh((s + s.T) / 2).min() >= -1e-8 * np.abs(A).max(), 'sqrtm', 'matrix square root')
    elif k == 11:
        x = rng.randn(*[int(v) for v in rng.randint(1, 4, rng.randint(1, 4))])
        n = int(rng.randint(1, 5))
        a, b = U.lrep(x, n), U.rrep(x, n)
        dim = int(rng.randint(0, x.ndim + 1))
        c = U.irep(x, n, dim)
        rec.require(a.shape == (n,) + x.shape and all(np.array_equal(a[i], x) for i in range(n)), 'lrep', 'left replication')
        rec.require(b.shape == x.shape + (n,) and all(np.array_equal(b[..., i], x) for i in range(n)), 'rrep', 'right replication')
        rec.require(c.shape == x.shape[:dim] + (n,) + x.shape[dim:] and all(np.array_equal(np.take(c, i, axis=dim), x) for i in range(n)),
                    'irep', 'inner replication')
    elif k == 12:
        x = rng.randn(int(rng.randint(1, 9)), d)
        t = U.timediff(x)
        rec.require(t.shape == (len(x) - 1, d) and np.array_equal(t, np.array([x[i + 1] - x[i] for i in range(len(x) - 1)]).reshape(-1, d)),
                    'timediff', 'differences')
        dt = str(rng.choice(['f', 'd', 'i', 'D']))
        y = U.refcast(x, dt)
        rec.require(y.dtype == np.dtype(dt) and (y is x) == (dt == 'd') and np.array_equal(y, x.astype(dt)), 'refcast', 'cast')
        s = U.scast(3.7, dt)
        rec.require(s.shape == () and s.dtype == np.dtype(dt) and s == np.array(3.7).astype(dt), 'scast', 'scalar cast')
        a, b = rng.randn(d, 3), rng.randn(3, d)
        rec.require(np.allclose(U.mult(a, b), a.dot(b)), 'mult', 'product')
        G = rng.randn(d + 2, d)
        P = U.pinv(G)
        rec.require(np.allclose(G.dot(P).dot(G), G, atol=1e-7) and np.allclose(P.dot(G).dot(P), P, atol=1e-7) and
                    np.allclose(P.dot(G), P.dot(G).T, atol=1e-7) and np.allclose(G.dot(P), G.dot(P).T, atol=1e-7), 'pinv', 'pseudo inverse')
        B = rng.randn(d, d) + 4 * np.eye(d)
        if np.linalg.cond(B) < 1e6:
            rec.require(np.allclose(U.inv(B).dot(B), np.eye(d), atol=1e-7), 'inv', 'inverse')
    else:
        h, w = int(rng.randint(3, 14)), int(rng.randint(3, 14))
        alpha, phi, freq = float(rng.uniform(-4, 4)), float(rng.uniform(-4, 4)), float(rng.uniform(0, 0.4))
        s = (float(rng.uniform(0.5, 4)), float(rng.uniform(0.5, 4)))
        res, ampl = float(rng.choice([1, 0.5, 2])), float(rng.choice([1, -2, 0.3]))
        x0 = None if rng.randint(2) else (float(rng.uniform(0, w)), float(rng.uniform(0, h)))
        kw = {} if x0 is None else {'x0': x0}
        im = U.gabor((h, w), alpha, phi, freq, s, res=res, ampl=ampl, **kw)
        cx, cy = x0 if x0 is not None else (w // 2, h // 2)
        rec.require(im.shape == (h, w), 'gabor-shape', lambda: 'shape %s for %s' % (im.shape, (h, w)))
        W = np.empty((h, w))
        for a in range(h):
            for b in range(w):
                u, v = a - cy, b - cx
                xr = u * np.cos(alpha) - v * np.sin(alpha)
                yr = u * np.sin(alpha) + v * np.cos(alpha)
                W[a, b] = ampl * np.exp(-0.5 * ((xr / s[0]) ** 2 + (yr / s[1]) ** 2)) * np.cos(
                    -2 * np.pi * freq * res * (np.sin(alpha) * u + np.cos(alpha) * v) - phi)
        rec.require(np.allclose(im, W, atol=1e-9), 'gabor', lambda: 'wavelet of size %s centre %s differs by %.3g' % ((h, w), x0, np.abs(im - W).max()))
    rec.case(('matrix', k, d, int(rng.randint(10 ** 9))))


@CHECK.scenario(quick=8, thorough=60)
def distributions(rng, rec):
    """Random helpers over many draws (bounds at about seven standard errors)."""
    k = int(rng.randint(3))
    np.random.seed(rng.randint(2 ** 31))
    import random
    random.seed(int(rng.randint(2 ** 31)))
    if k == 0:
        d, n = int(rng.randint(2, 5)), 1200
        R = np.array([U.random_rot(d) for _ in range(n)])
        # Haar: every entry has mean 0 (d>1), variance 1/d; first and last columns alike
        rec.require(np.abs(R.mean(axis=0)).max() < 7 / math.sqrt(d * n), 'haar-mean', lambda: 'mean rotation %s' % R.mean(axis=0))
        rec.require(np.abs((R ** 2).mean(axis=0) - 1.0 / d).max() < 7 / math.sqrt(n) / d * 1.5, 'haar-var',
                    lambda: 'variances %s' % (R ** 2).mean(axis=0))
    elif k == 1:
        n = 4000
        w = dict((key, float(rng.uniform(0.1, 3))) for key in 'abcd'[:rng.randint(2, 5)])
        if rng.randint(2):
            w = dict((key, int(rng.randint(1, 6))) for key in w)
        norm = True
        if rng.randint(3) == 0:
            t = sum(w.values())
            w = dict((key, v / float(t)) for key, v in w.items())
            norm = bool(rng.randint(2))
        before = dict(w)
        cnt = collections.Counter(U.weighted_choice(w, normalize=norm) for _ in range(n))
        rec.require(w == before, 'weights-changed', 'the weights were changed')
        t = float(sum(w.values()))
        for key in set(cnt) | set(w):
            p = w.get(key, 0) / t
            rec.require(abs(cnt[key] - n * p) <= 7 * math.sqrt(n * p * (1 - p)) + 1e-9 + (0.5 if key is not None else 0), 'weights',
                        lambda: 'weights %s: key %r drawn %d times of %d' % (w, key, cnt[key], n))
    else:
        n, d = 800, int(rng.randint(2, 5))
        E = np.array([np.linalg.eigvalsh(U.symrand(d)) for _ in range(n)]).ravel()
        rec.require(np.abs(E).max() <= 1 + 1e-9 and abs(E.mean()) < 7 * 0.58 / math.sqrt(n * d) and
                    abs((E ** 2).mean() - 1 / 3.) < 7 * 0.3 / math.sqrt(n * d), 'symrand-uniform',
                    lambda: 'eigenvalues of random matrices: mean %g, mean square %g' % (E.mean(), (E ** 2).mean()))
    rec.event('random_draws', n)
    rec.case(('dist', k, int(rng.randint(10 ** 9))))


# ---------------------------------------------------------------- other helpers

@CHECK.scenario(quick=60, thorough=1000)
def helpers(rng, rec):
    k = int(rng.randint(6))
    rec.event('helpers', 5)
    if k == 0:
        dic = dict((key, list(range(rng.randint(0 if rng.randint(4) == 0 else 1, 4)))) for key in 'pqrs'[:rng.randint(0, 5)])
        got = [tuple(sorted(x.items())) for x in U.orthogonal_permutations(dic)]
        keys = sorted(dic)
        want = [tuple(zip(keys, v)) for v in itertools.product(*[dic[q] for q in keys])]
        rec.require(sorted(got) == sorted(want), 'permutations', lambda: '%s: %d combinations of %d' % (dic, len(got), len(want)))
        what = str(dic)
    elif k == 1:
        args, ref = [], []
        n = int(rng.randint(1, 6))
        finite = False
        for _ in range(int(rng.randint(1, 4))):
            c = rng.randint(5)
            if c == 0:
                args.append(7)
                ref.append(itertools.repeat(7))
            elif c == 1:
                args.append(None)
                ref.append(itertools.repeat(None))
            elif c == 2:
                m = int(rng.randint(0, 6))
                args.append(list(range(m)))
                ref.append(list(range(m)))
                finite = True
            elif c == 3:
                args.append('abc')
                ref.append('abc')
                finite = True
            else:
                args.append(iter([1.5, 2.5]))
                ref.append([1.5, 2.5])
                finite = True
        got = list(itertools.islice(U.izip_stretched(*args), 20))
        want = list(itertools.islice(zip(*ref), 20))
        rec.require(got == want and (finite or len(got) == 20), 'stretched', lambda: '%s, expected %s' % (got, want))
        what = str(want)[:80]
    elif k == 2:
        for key in ('Float', 'AllFloat', 'Complex', 'Integer', 'AllInteger', 'All', 'Character'):
            got = U.get_dtypes(key)
            alls = [np.dtype(c) for c in np.typecodes[key]]
            unsafe = [np.dtype(c) for c in (np.half, np.longdouble, np.clongdouble)]
            rec.require(list(got) == [t for t in alls if t not in unsafe], 'dtypes', lambda: '%s: %s' % (key, got))
            rec.require(list(U.get_dtypes(key, _safe=False)) == alls, 'dtypes-all', lambda: '%s' % key)
        what = 'dtypes'
    elif k == 3:
        # signature strings evaluate to the same signature
        names = ['a', 'b', 'c', 'd'][:rng.randint(0, 5)]
        nd = int(rng.randint(0, len(names) + 1))
        defaults = tuple([3, 'x', None, (1, 2)][:nd]) or None
        va = 'args' if rng.randint(2) else None
        vk = 'kw' if rng.randint(2) else None
        ko = ['k1', 'k2'][:rng.randint(0, 3)]
        kd = {'k1': 5} if ko and rng.randint(2) else {}
        ann = {'return': int} if rng.randint(3) == 0 else {}
        if names and rng.randint(3) == 0:
            ann[names[0]] = float
        text = U.inspect_formatargspec(names, va, vk, defaults, ko, kd, ann)
        ns = {}
        exec('def fn%s: pass' % text, ns)
        sp = inspect.getfullargspec(ns['fn'])
        rec.require((sp.args, sp.varargs, sp.varkw, sp.defaults, sp.kwonlyargs, sp.kwonlydefaults or {}, sp.annotations) ==
                    (names, va, vk, defaults, ko, kd, ann), 'signature', lambda: 'signature %s' % text)
        what = text
    elif k == 4:
        x = rng.randn(60, 3)
        np.random.seed(3)
        a = mdp.pca(x, output_dim=2, svd=True)
        b = mdp.nodes.PCANode(output_dim=2, svd=True)(x)
        rec.require(np.allclose(a, b), 'pca', 'the shortcut differs from the node')
        x = rng.rand(200, 2).dot(rng.randn(2, 2))
        g = rot(rng, 2)
        np.random.seed(3)
        try:
            a = mdp.fastica(x, guess=g, whitened=False)
            b = mdp.nodes.FastICANode(guess=g, whitened=False)(x)
        except mdp.NodeException:
            raise Skip('FastICA did not converge')
        rec.require(np.allclose(a, b), 'fastica', 'the shortcut differs from the node')
        what = 'shortcuts'
    else:
        od = U.OrderedDict()
        keys = [int(v) for v in rng.randint(0, 8, 15)]
        order = []
        for q in keys:
            if q in od and rng.randint(2):
                del od[q]
                order.remove(q)
            else:
                if q not in od:
                    order.append(q)
                od[q] = q * 2
        rec.require(list(od) == order and list(od.items()) == [(q, q * 2) for q in order], 'ordered', 'order of a dictionary')
        what = str(keys)
    rec.case(('helper', k, what, int(rng.randint(10 ** 9))))


class Sized(object):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.n:
            raise IndexError(i)
        return i * 3


@CHECK.scenario(quick=45, thorough=500)
def progress(rng, rec):
    n = int(rng.choice([0, 1, 2, 3, 7, 41, 230]))   # no percentage is exactly between two integers
    style = str(rng.choice(['bar', 'timer']))
    items = [object() for _ in range(n)]
    custom = {}
    if rng.randint(2):
        custom['position'] = str(rng.choice(['left', 'middle', 'right']))
    if rng.randint(3) == 0:
        custom['indent'] = 'work: '
    if style == 'bar' and rng.randint(3) == 0:
        custom.update(width=int(rng.randint(12, 90)), char1='#', char3=' ')
    if style == 'timer' and rng.randint(2):
        custom['speed'] = str(rng.choice(['mean', 'last']))
    kind = int(rng.randint(5))
    length = None
    vals = None
    if kind == 0:
        src = list(items)
    elif kind == 1:
        src, length = iter(items), n
    elif kind == 2:
        src, items = Sized(n), [i * 3 for i in range(n)]
    elif kind == 3:
        # iterate on items: values are the amounts done
        total = 2 * int(rng.randint(0, 25)) + 1
        items = sorted(int(v) for v in rng.randint(0, total + 1, n))
        if n and rng.randint(2):
            items[-1] = total
        src, length, vals = iter(items), -total, items
    else:
        src = dict.fromkeys(range(n))
        items = list(range(n))
    out = io.StringIO()
    seen = []
    kw = {}
    if style != 'bar' or rng.randint(2):
        kw['style'] = style
    if custom or rng.randint(2):
        kw['custom'] = custom
    if length is not None:
        kw['length'] = length
    with contextlib.redirect_stdout(out):
        gen = U.progressinfo(src, **kw)
        for v in gen:
            seen.append(v)
            if kind == 1 and len(seen) < n and rng.randint(5) == 0:
                # laziness: the next item has not been consumed
                rest = len(items) - len(seen)
                rec.require(src.__length_hint__() == rest, 'progress-lazy', 'items are consumed ahead')
    rec.require(len(seen) == len(items) and all(a is b or a == b for a, b in zip(seen, items)), 'progress-items',
                lambda: '%d items of %d' % (len(seen), len(items)))
    text = out.getvalue()
    shown = [int(v) for v in re.findall(r'(\d+)%', text)]
    if vals is None:
        want = [int(round(i * 100.0 / n)) for i in range(n)] + [100] if n else [100]
    else:
        want = [int(round(v * 100.0 / -length)) for v in vals] + [100]
    uniq = [v for i, v in enumerate(want) if i == 0 or want[i - 1] != v]
    got = [v for i, v in enumerate(shown) if i == 0 or shown[i - 1] != v]
    rec.require(got == uniq, 'progress-percent', lambda: '%s %s: percentages %s, expected %s' % (style, custom, got[:12], uniq[:12]))
    rec.event('progress')
    rec.case(('progress', n, style, kind, tuple(sorted(custom.items())), length))


@CHECK.scenario(quick=6, thorough=30)
def progress_refusals(rng, rec):
    k = rng.randint(2)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            list(U.progressinfo(iter([1, 2]))) if k else list(U.progressinfo([1, 2], style='nope'))
            rec.require(False, 'progress-refuse', 'accepted')
        except Exception as exc:
            rec.require(type(exc) in (Exception, ValueError), 'progress-refuse', lambda: '%s' % type(exc))
    rec.case(('refuse', int(k)))


def resolve(o, name):
    for p in name.split('.'):
        o = getattr(o, p)
    return o


@CHECK.each([(s.name, s) for s in C.SPECS if not s.slow], quick=1, thorough=4)
def digs(rng, rec, spec):
    node = spec.make()
    stage = int(rng.randint(3)) if not rec else [2, 1, 0, 2][int(rng.randint(4))]
    if stage == 2:
        node, _, _ = spec.trained(rng)
    elif stage == 1 and node.is_trainable():
        X = spec.data(rng)
        spec.feed(node, [(X, spec.train_args(rng, X))])
    d, text = U.dig_node(node)
    for name, (size, arr) in d.items():
        got = resolve(node, name)
        rec.require(isinstance(arr, np.ndarray) and size == arr.nbytes, 'dig-size', lambda: '%s: %s bytes for %s' % (name, size, arr.nbytes))
        rec.require(got is arr or (got.shape == arr.shape and got.dtype == arr.dtype), 'dig-name', lambda: '%s is not found under its name' % name)
        rec.require(re.search(r'(?m)^%s: +%d bytes$' % (re.escape(name), size), text), 'dig-line', lambda: '%s is not in the text' % name)
    ids = set(id(a) for _, a in d.values())
    for name, v in vars(node).items():
        if isinstance(v, np.ndarray):
            rec.require(id(v) in ids, 'dig-missing', lambda: 'the array %s is not reported' % name)
    rec.require(len(ids) == len(d), 'dig-double', 'an array is reported twice')
    rec.require(text.splitlines()[-1] == 'Total %d arrays (%d bytes)' % (len(d), sum(s for s, _ in d.values())), 'dig-total', 'totals')
    if 'SVM' not in spec.name and not spec.name.startswith('SK'):
        import pickle
        n = U.get_node_size(node)
        rec.require(n == len(pickle.dumps(node, protocol=2)), 'size', 'node size')
        for si in (False, True):
            s = U.get_node_size_str(node, si_units=si)
            m = re.match(r'^([0-9.]+) ([A-Za-z]+)$', s)
            base = 1000.0 if si else 1024.0
            unit = m.group(2)
            e = ['', 'k', 'M', 'G'].index(unit[:-1]) if si else ['', 'Ki', 'Mi', 'Gi'].index(unit[:-1])
            rec.require(abs(float(m.group(1)) * base ** e - n) <= 0.051 * base ** e and (float(m.group(1)) <= base or e == 3), 'size-str', lambda: '%d bytes shown as %s' % (n, s))
    try:
        U.dig_node([1])
        rec.require(False, 'dig-refuse', 'a list was dug')
    except Exception:
        pass
    rec.event('digs')
    rec.case(('dig', spec.name, stage))


@CHECK.scenario(quick=14, thorough=100)
def tempdirs(rng, rec):
    """Temporary directories vanish with their contents and nothing else."""
    import mdp.utils.temporarydir as td
    scratch = tempfile.mkdtemp(prefix='p33_')
    try:
        outside = os.path.join(scratch, 'outside')
        os.mkdir(outside)
        open(os.path.join(outside, 'keep'), 'w').write('precious')
        base = os.path.join(scratch, 'base')
        os.mkdir(base)
        cls = td.TemporaryDirectory if rng.randint(3) else U.TemporaryDirectory
        exc = int(rng.randint(3))

        class Stop(Exception):
            pass

        def fill(path, depth=0):
            for i in range(int(rng.randint(0, 4))):
                p = os.path.join(path, 'e%d' % i)
                c = rng.randint(4)
                if c == 0 and depth < 3:
                    os.mkdir(p)
                    fill(p, depth + 1)
                elif c == 1:
                    os.symlink(outside, p)
                elif c == 2:
                    os.symlink(os.path.join(outside, 'keep'), p)
                else:
                    open(p, 'w').write('x')
        holder = {}
        try:
            if exc == 2:
                t = cls(prefix='pre', suffix='suf', dir=base)
                holder['p'] = t.name
                fill(t.name)
                t.cleanup()
                t.cleanup()
            else:
                with cls(dir=base) as p:
                    holder['p'] = p
                    rec.require(os.path.isdir(p) and os.path.dirname(p) == base and not os.listdir(p), 'temp-made', 'temporary directory')
                    fill(p)
                    if rng.randint(2):
                        os.symlink(outside, os.path.join(p, 'link'))
                    if exc:
                        raise Stop
        except Stop:
            pass
        rec.require(not os.path.lexists(holder['p']), 'temp-left', 'the temporary directory is still there')
        rec.require(os.listdir(base) == [], 'temp-more', 'something is left')
        rec.require(os.path.isfile(os.path.join(outside, 'keep')) and open(os.path.join(outside, 'keep')).read() == 'precious',
                    'temp-escape', '%s removed files outside through a link' % cls.__module__)
        rec.event('tempdirs')
        rec.case(('temp', cls.__module__, exc, int(rng.randint(10 ** 9))))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
