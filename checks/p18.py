"""P18 streaming covariance accumulators equal the textbook statistic."""
import math
import numpy as np
import mdp
import bimdp  # noqa
from harness.core import Check, Skip

CHECK = Check('P18', 'A case feeds a random chunking of random data (offset, scale, type, memory layout, reused buffers) to '
              'an accumulator several times in a row, and compares every finalization with the textbook definition '
              'computed by explicit sums in extended precision. Distinct by accumulator, type, sizes and options.')
CHECK.expect_events(finalizations=800, chunks=2500, second_uses=200, single_sample_chunks=30, refused=40, multi_ops=200)

U = mdp.utils
LD = np.longdouble


def make(rng, T, d, dt):
    kind = rng.randint(0, 5)
    x = rng.randn(T, d)
    if kind == 0:
        x = x * 10. ** rng.randint(-3, 4)
    elif kind == 1:
        x = x + rng.randn(d) * 10.
    elif kind == 2:
        x = rng.randint(-3, 4, size=(T, d)).astype('d')
    elif kind == 3:
        x = np.dot(x, rng.randn(d, d))
    elif kind == 4:
        x = np.tile(rng.randn(1, d), (T, 1)) + x * (rng.rand() < 0.7)
    return x.astype(dt)


def layout(rng, x):
    k = rng.randint(0, 4)
    if k == 0:
        return np.array(x, order='F', copy=True)
    if k == 1:
        b = np.empty((2 * x.shape[0], x.shape[1] + 1), x.dtype)
        b[...] = 7
        b[::2, 1:] = x
        return b[::2, 1:]
    if k == 2:
        b = x.copy()
        b.flags.writeable = False
        return b
    return x.copy()


def cuts(rng, T, least=1):
    n = int(rng.randint(1, 6))
    if T < 2 * least:
        return [(0, T)]
    pts = sorted(set(int(p) for p in rng.randint(least, T, size=n - 1))) if n > 1 else []
    out, last = [], 0
    for p in pts:
        if p - last >= least and T - p >= least:
            out.append((last, p))
            last = p
    out.append((last, T))
    return out


def tol(dt, x, y=None):
    y = x if y is None else y
    s = float(np.abs(x.astype('d')).max() * np.abs(y.astype('d')).max()) if x.size and y.size else 0.
    return (2e-4 if np.dtype(dt).char == 'f' else 1e-11) * s + 1e-300


def near(rec, got, want, t, key, dt=None):
    got = np.asarray(got)
    want = np.asarray(want)
    rec.require(got.shape == want.shape, key + ':shape', lambda: '%s instead of %s' % (got.shape, want.shape))
    if dt is not None:
        rec.require(got.dtype == np.dtype(dt), key + ':dtype', lambda: '%s instead of %s' % (got.dtype, dt))
    rec.require(np.isfinite(got).all(), key + ':finite', 'not finite')
    e = float(np.abs(got.astype('d') - want.astype('d')).max()) if got.size else 0.
    rec.require(e <= t, key, lambda: 'off by %g (tolerance %g)\n got %s\n want %s' % (e, t, got, want))


def feed(rec, rng, update, arrs, parts, extra=None):
    """Feed chunks; the caller's buffer is overwritten after every update."""
    for k, (a, b) in enumerate(parts):
        cs = [layout(rng, x[a:b]) for x in arrs]
        before = [c.copy() for c in cs]
        if extra is None:
            update(*cs)
        else:
            update(*(cs + [extra[k]]))
        for c, o in zip(cs, before):
            rec.require(np.array_equal(c, o), 'input-changed', 'update changed the data')
            if c.flags.writeable:
                c[...] = 1e5
        rec.event('chunks')
        if b - a == 1:
            rec.event('single_sample_chunks')


def pick_types(rng):
    """(constructor type, data type, type of the result)"""
    t = [(None, 'd', 'd'), (None, 'f', 'f'), ('d', 'f', 'd'), ('f', 'd', 'f'), ('d', 'd', 'd'), ('f', 'f', 'f'),
         ('d', 'l', 'd'), (np.dtype('f'), 'f', 'f'), (np.float64, 'd', 'd')]
    return t[rng.randint(0, len(t))]


def moments(x, y):
    x, y = x.astype(LD), y.astype(LD)
    S = np.zeros((x.shape[1], y.shape[1]), LD)
    for i in range(x.shape[0]):
        S += x[i][:, None] * y[i][None, :]
    return S


def textbook(x, y, bias, center=True):
    T = x.shape[0]
    mx, my = x.astype(LD).sum(axis=0) / T, y.astype(LD).sum(axis=0) / T
    S = moments(x - mx if center else x, y - my if center else y)
    return S / (T if bias else T - 1), mx, my


@CHECK.scenario(quick=300, thorough=4000)
def plain(rng, rec):
    ct, dt, rt = pick_types(rng)
    bias = bool(rng.randint(2))
    c = U.CovarianceMatrix(dtype=ct, bias=bias) if rng.rand() < 0.8 else U.CovarianceMatrix(ct, bias)
    keep = []
    for use in range(int(rng.randint(1, 4))):
        d = int(rng.randint(1, 7))
        T = int(rng.randint(1 if bias else 2, 60))
        x = make(rng, T, d, dt)
        center = rng.rand() < 0.7
        feed(rec, rng, c.update, [x], cuts(rng, T))
        cov, avg, tlen = c.fix() if center and rng.rand() < 0.5 else c.fix(center=center)
        wc, wm, _ = textbook(x, x, bias, center)
        near(rec, cov, wc, tol(rt, x) * (T if not bias and T < 4 else 1.5), 'plain:cov', rt)
        near(rec, avg, wm, tol(rt, x, np.ones(1)), 'plain:avg', rt)
        rec.require(tlen == T, 'plain:count', lambda: '%s instead of %d' % (tlen, T))
        near(rec, cov, cov.T, 0 if rt == 'd' and False else tol(rt, x), 'plain:symmetric')
        keep.append((cov, avg, cov.copy(), avg.copy()))
        rec.event('finalizations')
        rec.event('second_uses', use > 0)
        rec.case(ct, dt, bias, center, use, d, T)
    for cov, avg, c0, a0 in keep:
        rec.require(np.array_equal(cov, c0) and np.array_equal(avg, a0), 'plain:returned', 'results changed by later use')


@CHECK.scenario(quick=200, thorough=3000)
def chunking(rng, rec):
    """Chunk order and chunk boundaries do not matter; two accumulators do not share state."""
    dt = str(rng.choice(['d', 'f']))
    d, T = int(rng.randint(1, 6)), int(rng.randint(4, 50))
    x = make(rng, T, d, dt)
    a, b = U.CovarianceMatrix(), U.CovarianceMatrix()
    pa = cuts(rng, T)
    pb = cuts(rng, T)
    rng.shuffle(pb)
    order = [(0, p) for p in pa] + [(1, p) for p in pb]
    # interleaved
    qa, qb = list(pa), list(pb)
    while qa or qb:
        if qa and (not qb or rng.rand() < 0.5):
            s = qa.pop(0)
            feed(rec, rng, a.update, [x], [s])
        else:
            s = qb.pop(0)
            feed(rec, rng, b.update, [x], [s])
    ra, rb = a.fix(), b.fix()
    near(rec, ra[0], rb[0], 2 * tol(dt, x), 'chunking:cov', dt)
    near(rec, ra[1], rb[1], 2 * tol(dt, x, np.ones(1)), 'chunking:avg', dt)
    rec.require(ra[2] == rb[2] == T, 'chunking:count', '%s %s' % (ra[2], rb[2]))
    rec.event('finalizations', 2)
    rec.case(dt, d, T, len(order))


@CHECK.scenario(quick=250, thorough=3000)
def delayed(rng, rec):
    ct, dt, rt = pick_types(rng)
    bias = bool(rng.randint(2))
    delay = int(rng.randint(0, 6))
    c = U.DelayCovarianceMatrix(delay if rng.rand() < 0.8 else float(delay), dtype=ct, bias=bias)
    for use in range(int(rng.randint(1, 4))):
        d = int(rng.randint(1, 6))
        T = int(rng.randint(delay + 3, delay + 60))
        x = make(rng, T, d, dt)
        parts = cuts(rng, T, delay + 1)
        refused = False
        for s in parts:
            if delay and rng.rand() < 0.2:
                # a refused block leaves no trace
                try:
                    c.update(make(rng, int(rng.randint(1, delay + 1)), d, dt))
                    raise RuntimeError
                except mdp.MDPException:
                    rec.event('refused')
                    refused = True
                except RuntimeError:
                    rec.require(False, 'delayed:short', 'a block shorter than the delay was accepted')
            feed(rec, rng, c.update, [x], [s])
        xs = np.concatenate([x[a:b - delay] for a, b in parts])
        ys = np.concatenate([x[a + delay:b] for a, b in parts])
        n = len(xs)
        if n < 2 and not bias:
            raise Skip('unbiased estimate of one sample')
        wc, wm, wmd = textbook(xs, ys, bias)
        t = tol(rt, x)
        A = None
        if rng.rand() < 0.4:
            A = rng.randn(int(rng.randint(1, d + 2)), d).astype(rt)
            A0 = A.copy()
            wc = A.astype(LD).dot(wc).dot(A.astype(LD).T)
            t *= float(np.abs(A).sum(axis=1).max()) ** 2
            cov, avg, avg_dt, tlen = c.fix(A) if rng.rand() < 0.5 else c.fix(A=A)
            rec.require(np.array_equal(A, A0), 'delayed:A', 'fix changed A')
        else:
            cov, avg, avg_dt, tlen = c.fix()
        near(rec, cov, wc, t * (n if n < 4 else 2), 'delayed:cov', rt)
        near(rec, avg, wm, tol(rt, x, np.ones(1)) * 4, 'delayed:avg', rt)
        near(rec, avg_dt, wmd, tol(rt, x, np.ones(1)) * 4, 'delayed:avg_dt', rt)
        rec.require(tlen == n, 'delayed:count', lambda: '%s instead of %d' % (tlen, n))
        rec.event('finalizations')
        rec.event('second_uses', use > 0)
        rec.case(ct, dt, bias, delay, use, d, T, len(parts), A is None, refused)


@CHECK.scenario(quick=200, thorough=3000)
def delay_zero(rng, rec):
    """dt == 0 equals CovarianceMatrix (documented)."""
    dt = str(rng.choice(['d', 'f']))
    d, T, bias = int(rng.randint(1, 6)), int(rng.randint(3, 40)), bool(rng.randint(2))
    x = make(rng, T, d, dt)
    a, b = U.CovarianceMatrix(bias=bias), U.DelayCovarianceMatrix(0, bias=bias)
    c = U.CrossCovarianceMatrix(bias=bias)
    feed(rec, rng, a.update, [x], cuts(rng, T))
    feed(rec, rng, b.update, [x], cuts(rng, T))
    feed(rec, rng, c.update, [x, x], cuts(rng, T))
    A, B, D = a.fix(), b.fix(), c.fix()
    for o in (B, D):
        near(rec, o[0], A[0], 3 * tol(dt, x), 'delay0:cov', dt)
        near(rec, o[1], A[1], 3 * tol(dt, x, np.ones(1)), 'delay0:avg', dt)
        near(rec, o[2], A[1], 3 * tol(dt, x, np.ones(1)), 'delay0:avg', dt)
        rec.require(o[3] == T, 'delay0:count', str(o[3]))
    rec.event('finalizations', 3)
    rec.case(dt, d, T, bias)


@CHECK.scenario(quick=200, thorough=3000)
def cross(rng, rec):
    ct, dt, rt = pick_types(rng)
    dty = dt if ct is None else str(rng.choice(['d', 'f']))
    bias = bool(rng.randint(2))
    c = U.CrossCovarianceMatrix(dtype=ct, bias=bias)
    for use in range(int(rng.randint(1, 4))):
        dx, dy = int(rng.randint(1, 6)), int(rng.randint(1, 6))
        T = int(rng.randint(1 if bias else 2, 50))
        x, y = make(rng, T, dx, dt), make(rng, T, dy, dty)
        parts = cuts(rng, T)
        for s in parts:
            if rng.rand() < 0.2:
                try:
                    c.update(x[:3], make(rng, len(x[:3]) + 1, dy, dty))
                    ok = False
                except mdp.MDPException:
                    ok = True
                rec.require(ok, 'cross:mismatch', 'different numbers of samples accepted')
                rec.event('refused')
            feed(rec, rng, c.update, [x, y], [s])
        cov, ax, ay, tlen = c.fix()
        wc, wx, wy = textbook(x, y, bias)
        near(rec, cov, wc, tol(rt, x, y) * (T if T < 4 else 2), 'cross:cov', rt)
        near(rec, ax, wx, tol(rt, x, np.ones(1)), 'cross:avgx', rt)
        near(rec, ay, wy, tol(rt, y, np.ones(1)), 'cross:avgy', rt)
        rec.require(tlen == T, 'cross:count', lambda: '%s instead of %d' % (tlen, T))
        rec.event('finalizations')
        rec.event('second_uses', use > 0)
        rec.case(ct, dt, dty, bias, use, dx, dy, T)
    if ct is None:
        e = U.CrossCovarianceMatrix()
        try:
            e.update(np.zeros((3, 2), 'd'), np.zeros((3, 2), 'f'))
            ok = False
        except mdp.MDPException:
            ok = True
        rec.require(ok, 'cross:types', 'different number types accepted')
        rec.event('refused')


# ---------------------------------------------------------------- varying time increments
def integral(segs):
    """Trapezoid rule over the segments (x_a, x_b, dt): time, mean integral, second moments."""
    d = len(segs[0][0])
    t, m, S = LD(0), np.zeros(d, LD), np.zeros((d, d), LD)
    for a, b, dt in segs:
        a, b, dt = a.astype(LD), b.astype(LD), LD(dt)
        t += dt
        m += (a + b) * dt / 2
        S += (np.outer(a, a) + np.outer(b, b)) * dt / 2
    return t, m, S


@CHECK.scenario(quick=300, thorough=4000)
def vartime(rng, rec):
    ct, dt, rt = pick_types(rng)
    c = U.VartimeCovarianceMatrix(dtype=ct)
    for use in range(int(rng.randint(1, 4))):
        d, T = int(rng.randint(1, 5)), int(rng.randint(3, 40))
        x = make(rng, T, d, dt)
        parts = cuts(rng, T)
        time_dep = bool(rng.rand() < 0.6)
        form = str(rng.choice(['none', 'const', 'int', 'array', 'mixed']))
        segs = []
        for k, (a, b) in enumerate(parts):
            f = form if form != 'mixed' else str(rng.choice(['none', 'const', 'array']))
            n = b - a
            incr = None
            if f == 'none':
                g = np.ones(n)
            elif f in ('const', 'int'):
                incr = float(rng.rand() + 0.1) if f == 'const' else int(rng.randint(1, 4))
                g = np.ones(n) * incr
            else:
                g = rng.rand(n) + 0.05
                if (time_dep and k > 0) or rng.rand() < 0.1 and n > 1:
                    incr = g.copy()
                elif n > 1:
                    incr = g[1:].copy()
                else:
                    incr = g[1:].copy()
            if k > 0 and time_dep:
                segs.append((x[a - 1], x[a], g[0]))
            for j in range(1, n):
                segs.append((x[a + j - 1], x[a + j], g[j]))
            xc = layout(rng, x[a:b])
            keep, gi = xc.copy(), (incr.copy() if isinstance(incr, np.ndarray) else incr)
            kw = {} if time_dep and rng.rand() < 0.5 else {'time_dep': time_dep}
            if incr is None and rng.rand() < 0.5:
                c.update(xc, **kw)
            elif rng.rand() < 0.5:
                c.update(xc, incr, **kw)
            else:
                c.update(xc, dt=incr, **kw)
            rec.require(np.array_equal(xc, keep), 'vartime:input', 'update changed the data')
            if isinstance(incr, np.ndarray):
                rec.require(np.array_equal(incr, gi), 'vartime:dt', 'update changed dt')
                incr[...] = 1e5
            if xc.flags.writeable:
                xc[...] = 1e5
            rec.event('chunks')
            rec.event('single_sample_chunks', n == 1)
        if not segs:
            c = U.VartimeCovarianceMatrix(dtype=ct)
            continue
        t, m, S = integral(segs)
        center = rng.rand() < 0.7
        cov, avg, tlen = c.fix() if center and rng.rand() < 0.5 else c.fix(center=center)
        wm = m / t
        wc = S / t - (np.outer(wm, wm) if center else 0)
        near(rec, cov, wc, 2 * tol(rt, x), 'vartime:cov', rt)
        near(rec, avg, wm, 2 * tol(rt, x, np.ones(1)), 'vartime:avg', rt)
        rec.require(abs(float(tlen) - float(t)) <= 1e-9 * float(t), 'vartime:time', lambda: '%s instead of %s' % (tlen, t))
        rec.event('finalizations')
        rec.event('second_uses', use > 0)
        rec.case(ct, dt, use, form, time_dep, d, T, len(parts), center)


@CHECK.scenario(quick=60, thorough=600)
def vartime_refusals(rng, rec):
    x = rng.randn(int(rng.randint(3, 9)), 2)
    n = len(x)
    for bad in (np.ones(n + 1), np.ones(n - 2), 0, -1.):
        c = U.VartimeCovarianceMatrix()
        try:
            c.update(x, bad)
            ok = False
        except Exception:
            ok = True
        rec.require(ok, 'vartime:refuse', lambda: 'dt %s accepted for %d samples' % (bad, n))
        rec.event('refused')
    c = U.VartimeCovarianceMatrix()
    c.update(x, np.ones(n - 1))
    try:
        c.update(x, np.ones(n - 1), time_dep=True)
        ok = False
    except Exception:
        ok = True
    rec.require(ok, 'vartime:refuse', 'missing connection time accepted')
    rec.event('refused')
    # an equally spaced sequence, and concatenation
    T = int(rng.randint(4, 30))
    x = make(rng, T, 3, 'd')
    a, b = U.VartimeCovarianceMatrix(), U.VartimeCovarianceMatrix()
    g = rng.rand(T - 1) + 0.1
    p = int(rng.randint(1, T))
    a.update(x, g)
    b.update(x[:p], g[:p - 1])
    b.update(x[p:], g[p - 1:])
    A, B = a.fix(), b.fix()
    near(rec, A[0], B[0], 2 * tol('d', x), 'vartime:concat', 'd')
    near(rec, A[1], B[1], 2 * tol('d', x, np.ones(1)), 'vartime:concat', 'd')
    rec.event('finalizations', 2)
    rec.case(T, p)


# ---------------------------------------------------------------- several matrices
@CHECK.scenario(quick=250, thorough=3000)
def multiple(rng, rec):
    dt = str(rng.choice(['d', 'f']))
    n, d = int(rng.randint(1, 5)), int(rng.randint(2, 6))
    mats = []
    for k in range(n):
        if rng.rand() < 0.5:
            c = U.DelayCovarianceMatrix(k)
            c.update(make(rng, 30, d, dt))
            mats.append(c.fix()[0])
        else:
            mats.append(rng.randn(d, d).astype(dt))
    orig = [m.copy() for m in mats]
    M = U.MultipleCovarianceMatrices(mats if rng.rand() < 0.5 else np.array(mats))
    rec.require(M.ncovs == n and M.covs.shape == (d, d, n), 'multi:shape', '%s' % (M.covs.shape,))
    ref = [m.astype(LD) for m in mats]
    scale = 1.
    other = None
    ops = []
    for step in range(int(rng.randint(1, 8))):
        op = str(rng.choice(['symmetrize', 'weight', 'weight1', 'rotate', 'permute', 'transform', 'copy']))
        ops.append(op)
        i, j = [int(k) for k in rng.permutation(d)[:2]]
        if op == 'symmetrize':
            M.symmetrize()
            ref = [(r + r.T) / 2 for r in ref]
        elif op == 'weight':
            w = rng.rand(n) + 0.1
            arg = [w, list(w), tuple(w), w.astype(dt)][rng.randint(4)]
            if isinstance(arg, np.ndarray):
                w0 = arg.copy()
            M.weight(arg)
            if isinstance(arg, np.ndarray):
                rec.require(np.array_equal(arg, w0), 'multi:weights-arg', 'weights changed')
            ref = [r * v for r, v in zip(ref, w)]
            scale *= 1.2
        elif op == 'weight1':
            w = float(rng.rand() + 0.1)
            M.weight(w)
            ref = [r * w for r in ref]
            scale *= 1.2
        elif op == 'rotate':
            ang = float(rng.randn())
            M.rotate(ang, [i, j])
            # columns then rows in the plane (i, j)
            R = np.eye(d).astype(LD)
            R[i, i] = R[j, j] = math.cos(ang)
            R[i, j], R[j, i] = math.sin(ang), -math.sin(ang)
            ref = [R.T.dot(r).dot(R) for r in ref]
            scale *= 2
        elif op == 'permute':
            M.permute([i, j])
            P = np.eye(d)
            P[[i, j]] = P[[j, i]]
            ref = [P.dot(r).dot(P) for r in ref]
        elif op == 'transform':
            A = rng.randn(d, d).astype(dt)
            A0 = A.copy()
            M.transform(A)
            rec.require(np.array_equal(A, A0), 'multi:transform-arg', 'matrix changed')
            ref = [A.astype(LD).T.dot(r).dot(A.astype(LD)) for r in ref]
            scale *= float(np.abs(A).sum(axis=0).max()) ** 2
        elif op == 'copy':
            other = (M, [r.copy() for r in ref], scale)
            M2 = M.copy()
            rec.require(M2.ncovs == n, 'multi:copy', 'number of matrices')
            if rng.rand() < 0.5:
                M = M2
            else:
                other = (M2, [r.copy() for r in ref], scale)
        rec.event('multi_ops')
        t = (1e-3 if dt == 'f' else 1e-10) * scale * max(float(np.abs(o).max()) for o in orig) * d
        for k in range(n):
            near(rec, M[k], ref[k], t, 'multi:' + op)
            rec.require(M[k].dtype == np.dtype(dt), 'multi:dtype', lambda: 'after %s: %s' % (ops, M[k].dtype))
    if other is not None:
        t = (1e-3 if dt == 'f' else 1e-10) * other[2] * max(float(np.abs(o).max()) for o in orig) * d
        for k in range(n):
            near(rec, other[0][k], other[1][k], t, 'multi:copy-independent')
    for m, o in zip(mats, orig):
        rec.require(np.array_equal(m, o), 'multi:input', 'the given matrices were changed')
    try:
        M.weight(np.ones(n + 1))
        ok = False
    except Exception:
        ok = True
    rec.require(ok, 'multi:weights', 'wrong number of weights accepted')
    rec.event('refused')
    rec.event('finalizations')
    rec.case(dt, n, d, '-'.join(ops))


@CHECK.scenario(quick=60, thorough=500)
def cov2(rng, rec):
    """Helper based on the same statistic."""
    d1, d2, T = int(rng.randint(1, 5)), int(rng.randint(1, 5)), int(rng.randint(3, 40))
    x, y = make(rng, T, d1, 'd'), make(rng, T, d2, 'd')
    got = U.cov2(x, y)
    want, _, _ = textbook(x, y, False)
    near(rec, got, want, 3 * tol('d', x, y), 'cov2')
    rec.event('finalizations')
    rec.case(d1, d2, T)
