"""P24 Symmetric (generalized, semidefinite) eigen-solvers return true eigenpairs."""
import numpy as np
import mdp
from harness.core import Check, Skip

CHECK = Check('P24', 'A case calls one eigen-solver with a random symmetric matrix A (definite, indefinite, degenerate, zero), a '
              'second matrix B of chosen kind (none, definite, singular with random, aligned, duplicated or blank directions, '
              'negative), size, number type, memory layout, range and options. Eigenvalues, equation, normalization and '
              'order are judged against an independent computation on the range space. Distinct by solver and options.')
CHECK.expect_events(pairs=700, ranges=300, deficits=400, refused=60, roots=60, untouched=700)

u = mdp.utils
SOLVERS = {'reg': u.symeig_semidefinite_reg, 'pca': u.symeig_semidefinite_pca, 'svd': u.symeig_semidefinite_svd,
           'ldl': u.symeig_semidefinite_ldl}


class Out(object):
    rank_deficit = None


def orth(rng, n):
    return np.linalg.qr(rng.randn(n, n))[0]


def sym(rng, n, kind):
    """A symmetric matrix."""
    if kind == 'zero':
        return np.zeros((n, n))
    w = rng.randn(n)
    if kind == 'psd':
        w = np.abs(w)
        w[rng.rand(n) < .2] = 0
    elif kind == 'degenerate':
        w = rng.randint(-1, 3, n).astype('d')
    elif kind == 'plusminus':
        w = np.where(rng.rand(n) < .5, 1., -1.) * rng.randint(1, 3, n)
    elif kind == 'scaled':
        w = w * 10. ** rng.randint(-6, 6)
    elif kind == 'diagonal':
        return np.diag(w)
    elif kind == 'integer':
        a = rng.randint(-4, 5, (n, n))
        return a + a.T
    q = orth(rng, n)
    a = np.dot(q * w, q.T)
    return (a + a.T) / 2


A_KINDS = ['psd', 'indefinite', 'indefinite', 'degenerate', 'plusminus', 'scaled', 'diagonal', 'zero', 'integer']


def layout(rng, a, dt):
    a = a.astype(dt) if a.dtype.kind == 'f' else a
    how = rng.randint(3)
    if how == 1:
        return np.asfortranarray(a)
    if how == 2:
        big = np.zeros((2 * len(a), 2 * len(a)), a.dtype)
        big[::2, ::2] = a
        return big[::2, ::2]
    return np.ascontiguousarray(a)


def rng_range(rng, n):
    lo = int(rng.randint(1, n + 1))
    return (lo, int(rng.randint(lo, n + 1)))


def judge_pairs(rec, A, B, w, Z, ref, key, tol, k):
    """w, Z: returned; ref: the eigenvalues expected."""
    scale = max(np.abs(ref).max() if len(ref) else 0., np.abs(A).max(), 1e-300)
    rec.require(w.shape == (k,) and Z.shape == (len(A), k), key + ':shape', lambda: '%s %s instead of %d pairs' % (w.shape, Z.shape, k))
    rec.require(w.dtype.kind == 'f' and Z.dtype.kind == 'f', key + ':real', '%s %s' % (w.dtype, Z.dtype))
    rec.require(np.isfinite(w).all() and np.isfinite(Z).all(), key + ':finite', 'not finite')
    w, Z = w.astype('d'), Z.astype('d')
    rec.require((np.diff(w) >= -tol * scale).all(), key + ':order', lambda: 'not ascending: %s' % w)
    rec.require(np.abs(w - ref).max() <= tol * scale if k else True, key + ':values', lambda: '%s instead of %s' % (w, ref))
    zs = max(1., np.abs(Z).max())
    bz = Z if B is None else np.dot(B, Z)
    bs = 1. if B is None else max(1., np.abs(B).max())
    e = np.abs(np.dot(Z.T, bz) - np.eye(k)).max() if k else 0.
    rec.require(e <= tol * zs * zs * bs * 10, key + ':normalization', lambda: 'Z^T B Z off from one by %g' % e)
    e = np.abs(np.dot(A, Z) - bz * w).max() if k else 0.
    rec.require(e <= 10 * tol * scale * zs * bs, key + ':equation', lambda: 'A z - lambda B z is %g' % e)
    rec.event('pairs')


def ref_values(A, B):
    A = A.astype('d')
    if B is None:
        return np.linalg.eigvalsh(A)
    L = np.linalg.cholesky(B.astype('d'))
    Li = np.linalg.inv(L)
    return np.linalg.eigvalsh(np.dot(np.dot(Li, A), Li.T))


@CHECK.each([('standard', 0), ('generalized', 1)], quick=400, thorough=6000)
def definite(rng, rec, general):
    n = int(rng.choice([1, 2, 3, 5, 8, 20]))
    dt = 'd' if rng.rand() < .75 else 'f'
    kind = str(rng.choice(A_KINDS))
    A = layout(rng, sym(rng, n, kind), dt)
    B = None
    tol = 1e-9 if dt == 'd' else 2e-3
    if general:
        w = rng.rand(n) * 3 + .3
        if rng.rand() < .2:
            w = w * 10. ** rng.randint(-3, 4)
        q = orth(rng, n)
        B = np.dot(q * w, q.T)
        B = layout(rng, (B + B.T) / 2, dt if rng.rand() < .9 else 'd')
        tol *= max(1., 1 / w.min())
    kw = {}
    k = slice(None)
    if rng.rand() < .5:
        r = rng_range(rng, n)
        kw['range'] = r
        k = slice(r[0] - 1, r[1])
        if rng.rand() < .2 and r[1] == n:
            kw['range'] = (r[0], n + int(rng.randint(1, 4)))
        rec.event('ranges')
    if rng.rand() < .3:
        kw['turbo'] = str(rng.choice(['on', 'off']))
    over = rng.rand() < .2
    if over:
        kw['overwrite'] = True
    a0, b0 = np.array(A), None if B is None else np.array(B)
    args = (A,) if B is None else (A, B)
    w, Z = u.symeig(*args, **kw)
    if not over:
        rec.require(np.array_equal(A, a0) and (B is None or np.array_equal(B, b0)), 'symeig:changed', 'the arguments were changed')
        rec.event('untouched')
    ref = ref_values(a0, b0)[k]
    judge_pairs(rec, a0.astype('d'), None if B is None else b0.astype('d'), w, Z, ref, 'symeig', tol, len(ref))
    want = 'f' if (a0.dtype.char == 'f' and (B is None or b0.dtype.char == 'f')) else 'd'
    rec.require(w.dtype.char == want and Z.dtype.char == want, 'symeig:dtype', lambda: '%s %s for %s' % (w.dtype, Z.dtype, a0.dtype))
    args = (np.array(a0),) if B is None else (np.array(a0), np.array(b0))
    v = u.symeig(*args, eigenvectors=False, **kw)
    rec.require(isinstance(v, np.ndarray) and v.shape == w.shape and np.abs(v - w).max() <= tol * (1 + np.abs(w).max()),
                'symeig:values-only', 'differ from the values returned with vectors')
    rec.case((general, n, kind, dt, 'range' in kw, over))


def deficient_B(rng, n, kind):
    """B, basis of its range (columns), its positive eigenvalues."""
    r = int(rng.randint(1, n)) if n > 1 else 1
    if kind == 'full':
        r = n
    if kind == 'duplicated':
        # some variables are copies of others
        src = rng.randint(0, r, n)
        src[:r] = np.arange(r)
        M = np.zeros((n, r))
        M[np.arange(n), src] = rng.uniform(.5, 1.5, n) * rng.choice([-1, 1], n)
        M = M[rng.permutation(n)]
    elif kind == 'blank':
        M = np.zeros((n, r))
        M[np.sort(rng.permutation(n)[:r])] = orth(rng, r)
    else:
        M = np.linalg.qr(rng.randn(n, n))[0][:, :r]
    c = rng.rand(r) * 2 + .5
    q = orth(rng, r)
    c = np.dot(q * c, q.T)
    B = np.dot(np.dot(M, c), M.T)
    U, s, _ = np.linalg.svd(M, full_matrices=False)
    return (B + B.T) / 2, U, r


@CHECK.each([(s + '-' + k, (s, k)) for s in sorted(SOLVERS) for k in ('full', 'random', 'duplicated', 'blank')], quick=60, thorough=900)
def semidefinite(rng, rec, which):
    name, kind = which
    solve = SOLVERS[name]
    n = int(rng.choice([1, 2, 3, 5, 8, 15]))
    dt = 'd' if rng.rand() < .85 else 'f'
    B, U, r = deficient_B(rng, n, kind)
    ka = str(rng.choice([k for k in A_KINDS if k not in ('integer', 'scaled')]))
    # A vanishes on the null space of B (as for covariances of the same data)
    A = np.dot(np.dot(U, sym(rng, r, ka)), U.T)
    A = (A + A.T) / 2
    A, B = layout(rng, A, dt), layout(rng, B, dt)
    kw = {}
    thr = 1e-12
    if dt == 'f' or rng.rand() < .3:
        thr = 1e-5 if dt == 'f' else float(10. ** rng.randint(-11, -7))
        kw['rank_threshold'] = thr
    rg = None
    if rng.rand() < .5:
        rg = rng_range(rng, r)
        if rng.rand() < .3 and rg[1] == r:
            rg = (rg[0], int(rng.randint(r, n + 1)))
        kw['range'] = rg
        rec.event('ranges')
    if name == 'reg' and r < n:
        # the regularized null space has eigenvalues of rounding errors over the threshold:
        # the method cannot separate it from eigenvalues of that size
        noise = (1e-15 if dt == 'd' else 1e-6) * max(np.abs(A).max(), 1e-300) * n / thr
        lam = ref_values(np.dot(np.dot(U.T, A.astype('d')), U), np.dot(np.dot(U.T, B.astype('d')), U))
        if np.abs(lam).min() < 10 * noise:
            raise Skip('eigenvalues at the noise of the regularized null space')
    out = Out() if rng.rand() < .6 else None
    if out is not None:
        kw['dfc_out'] = out
    a0, b0 = np.array(A), np.array(B)
    w, Z = solve(A, B, **kw)
    rec.require(np.array_equal(A, a0), name + ':changed-A', 'the first matrix was changed')
    rec.require(np.abs(B - b0).max() <= 1e-15 * np.abs(b0).max(), name + ':changed-B', 'the second matrix was changed')
    rec.event('untouched')
    Ud = U
    ra, rb = np.dot(np.dot(Ud.T, a0.astype('d')), Ud), np.dot(np.dot(Ud.T, b0.astype('d')), Ud)
    ref = ref_values(ra, rb)
    if rg:
        ref = ref[rg[0] - 1:rg[1]]
    wmin = np.linalg.eigvalsh(rb)[0]
    tol = (1e-8 if dt == 'd' else 5e-3) / min(1., wmin) + 100 * (thr if name == 'reg' else 0) / min(1, wmin)
    judge_pairs(rec, a0.astype('d'), b0.astype('d'), w, Z, ref, name, tol, len(ref))
    if name in ('pca', 'svd') and kind != 'full':
        e = np.abs(Z - np.dot(Ud, np.dot(Ud.T, Z))).max()
        rec.require(e <= tol * 100 * max(1, np.abs(Z).max()), name + ':null-space', lambda: 'eigenvectors reach %g into the null space' % e)
    if out is not None:
        rec.require(out.rank_deficit == n - r, name + ':deficit', lambda: 'reports %s zero eigenvalues instead of %d' % (out.rank_deficit, n - r))
        rec.event('deficits')
    rec.case((name, kind, n, r, ka, dt, rg is not None, thr))


@CHECK.scenario(quick=150, thorough=1500)
def refusals(rng, rec):
    """Requirements violated: the documented error, never numbers."""
    n = int(rng.choice([1, 2, 3, 6]))
    A = sym(rng, n, 'indefinite')
    which = str(rng.choice(['negative', 'zero-eigenvalue', 'all-zero', 'type']))
    name = str(rng.choice(['symeig', 'reg', 'pca', 'svd', 'ldl']))
    solve = SOLVERS.get(name, u.symeig)
    if which == 'type':
        if name == 'symeig':
            raise Skip('documented as not implemented')
        try:
            solve(A, np.eye(n), type=2)
        except ValueError:
            rec.event('refused')
            rec.case((which, name))
            return
        rec.require(False, name + ':type', 'type=2 was accepted')
    if which == 'negative':
        if name != 'symeig':
            raise Skip('undocumented')
        w = rng.rand(n) + .5
        w[int(rng.randint(n))] *= -1
        q = orth(rng, n)
        B = np.dot(q * w, q.T)
    elif which == 'zero-eigenvalue':
        if name != 'symeig':
            raise Skip('supported')
        B = np.diag(np.arange(n).astype('d'))
    else:
        B = np.zeros((n, n))
    b0 = B.copy()
    try:
        res = solve(A, B)
    except mdp.utils.SymeigException:
        rec.event('refused')
        rec.require(np.array_equal(B, b0), name + ':refusal-changed', 'a refused matrix was changed')
        rec.case((which, name, n))
        return
    rec.require(False, '%s:%s' % (name, which), lambda: 'returned %s' % (res,))


@CHECK.scenario(quick=200, thorough=3000)
def roots(rng, rec):
    """sqrtm and nongeneral_svd on positive (semi)definite matrices."""
    n = int(rng.choice([1, 2, 3, 6, 12]))
    dt = 'd' if rng.rand() < .8 else 'f'
    w = rng.rand(n) * 3 + .1
    w = w * 10. ** rng.randint(-2, 3)
    q = orth(rng, n)
    M = np.dot(q * w, q.T)
    M = layout(rng, (M + M.T) / 2, dt)
    m0 = np.array(M)
    tol = 1e-9 if dt == 'd' else 1e-3
    if rng.rand() < .5:
        S = u.sqrtm(M)
        rec.require(np.array_equal(M, m0), 'sqrtm:changed', 'the argument was changed')
        rec.require(np.abs(S - S.T).max() <= tol * w.max() and np.linalg.eigvalsh(S.astype('d')).min() > 0, 'sqrtm:symmetric', 'root is not symmetric positive')
        e = np.abs(np.dot(S, S) - m0).max()
        rec.require(e <= tol * w.max(), 'sqrtm:square', lambda: 'square differs by %g' % e)
        rec.case(('sqrtm', n, dt))
    else:
        kw = {}
        k = slice(None)
        if rng.rand() < .6:
            r = rng_range(rng, n)
            kw['range'] = r
            k = slice(r[0] - 1, r[1])
        v, Z = u.nongeneral_svd(M, **kw)
        rec.require(np.array_equal(M, m0), 'svd:changed', 'the argument was changed')
        ref = np.linalg.eigvalsh(m0.astype('d'))[k]
        judge_pairs(rec, m0.astype('d'), None, v, Z, ref, 'nongeneral_svd', tol, len(ref))
        rec.case(('svd', n, dt, 'range' in kw))
    rec.event('roots')
