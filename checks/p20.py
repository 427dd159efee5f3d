"""P20 regression and discriminant nodes return the optimal solution."""
import numpy as np
import scipy.linalg as sl
import mdp
import bimdp  # noqa
import mdp.nodes as mn
from harness.core import Check, Skip

CHECK = Check('P20', 'A case trains a regression or discriminant node on a random set (size, offset, scale, noise, collinearity, '
              'number type, label type, chunking) and judges the optimality of its coefficients or directions against the data. '
              'Distinct by options, sizes and data kind.')
CHECK.expect_events(regressions=250, reported=60, pinv=60, discriminants=250, label_forms=250, chunks=900)


def parts(rng, T):
    pts = sorted(set(int(p) for p in rng.randint(1, T, size=int(rng.randint(0, 5))))) if T > 1 else []
    out, last = [], 0
    for p in pts + [T]:
        if p > last:
            out.append((last, p))
        last = p
    return out


# ---------------------------------------------------------------- regression
def solve(x, y, bias):
    x = x.astype('d')
    a = np.c_[np.ones(len(x)), x] if bias else x
    s = np.sqrt((a ** 2).sum(axis=0))
    s[s == 0] = 1
    b, _, rank, sv = np.linalg.lstsq(a / s, y.astype('d'), rcond=1e-5 if y.dtype.char == 'f' else 1e-12)
    return a, b / s[:, None], sv, s


REG = ['regular', 'offset', 'scaled', 'collinear', 'nearly', 'wide', 'exact', 'integer', 'onehot', 'square']


@CHECK.each([(k, k) for k in REG], quick=50, thorough=700)
def regression(rng, rec, kind):
    dt = str(rng.choice(['d', 'd', 'f']))
    bias = bool(rng.randint(2))
    pinv = bool(rng.rand() < 0.35)
    d, o = int(rng.randint(1, 7)), int(rng.randint(1, 4))
    T = d + int(rng.randint(2, 60))
    x = rng.randn(T, d)
    if kind == 'offset':
        x = x + rng.randn(d) * 10
    elif kind == 'scaled':
        x = x * 10. ** rng.randint(-4, 5, size=d)
        pinv = False
    elif kind == 'collinear':
        d = max(d, 2)
        x = np.dot(rng.randn(T, d - 1), rng.randn(d - 1, d))
    elif kind == 'nearly':
        d = max(d, 2)
        x = rng.randn(T, d)
        x[:, -1] = x[:, 0] + 1e-3 * x[:, -1]
        dt = 'd'
    elif kind == 'wide':
        d = max(d, 3)
        x = rng.randn(int(rng.randint(1, d)), d)
    elif kind == 'integer':
        x = rng.randint(-5, 6, size=(T, d)).astype('d')
    elif kind == 'onehot':
        d = max(d, 2)
        x = np.eye(d)[rng.randint(d, size=T)]
    elif kind == 'square':
        x = rng.randn(d + bias, d)
    T, d = x.shape
    x = x.astype(dt)
    y = np.dot(x, rng.randn(d, o)) / (np.abs(x).max(axis=0).max()) + rng.randn(o) + (0 if kind == 'exact' else 0.3) * rng.randn(T, o)
    y = y.astype(dt)
    a, b, sv, s = solve(x, y, bias)
    n_par = a.shape[1]
    cond = sv[0] / sv[-1] if len(sv) == n_par and sv[-1] > 0 else np.inf
    eps = 1.2e-7 if dt == 'f' else 2.2e-16
    singular = len(x) < n_par or cond > 1e-2 / eps
    regular = cond ** 2 < 1e-2 / eps / n_par
    if not singular and not regular:
        raise Skip('in between')
    kw = {}
    if rng.rand() < 0.3:
        kw['input_dim'] = d
    if rng.rand() < 0.3:
        kw['output_dim'] = o
    if rng.rand() < 0.3:
        kw['dtype'] = dt
    if not bias or rng.rand() < 0.5:
        kw['with_bias'] = bias
    if pinv:
        kw['use_pinv'] = True
    n = mn.LinearRegressionNode(**kw)
    for i, j in parts(rng, T):
        cx, cy = x[i:j].copy(), y[i:j].copy()
        n.train(cx, cy)
        rec.require(np.array_equal(cx, x[i:j]) and np.array_equal(cy, y[i:j]), 'reg:input', 'training changed the data')
        cx[...] = 1e4
        cy[...] = -1e4
        rec.event('chunks')
    try:
        n.stop_training()
    except mdp.NodeException as e:
        rec.require(singular and not pinv, 'reg:refused', lambda: 'solvable problem refused (condition %g): %s' % (cond, e))
        rec.event('reported')
        rec.case(kind, dt, bias, d, o, T)
        return
    rec.require(not singular or pinv, 'reg:unsolvable',
                lambda: 'no unique solution (condition %g, %d samples, %d parameters), but beta %s was returned' % (cond, T, n_par, n.beta))
    beta = np.asarray(n.beta, 'd')
    rec.require(beta.shape == (n_par, o) and np.isfinite(beta).all(), 'reg:beta', lambda: 'beta %s' % (beta,))
    r0, r1 = np.dot(a, b) - y, np.dot(a, beta) - y
    ysc = float((y.astype('d') ** 2).sum())
    lim = min(eps * cond ** 2 * 300 if np.isfinite(cond) else eps * 1e5, 1.)
    if singular:
        lim = 3e-2 if dt == 'f' else 1e-5
        nz = sv[sv > sv[0] * 10 * eps * max(a.shape)]
        if (nz < sv[0] * (0.05 if dt == 'f' else 1e-4)).any():
            raise Skip('rank not clear')
        # the pseudo-inverse cuts at rounding errors of the unscaled second moments
        if s.max() > 10 * s.min():
            raise Skip('not scaled')
    rec.require((r1 ** 2).sum() <= (r0 ** 2).sum() * (1 + lim) + lim * ysc * 1e-1, 'reg:optimal',
                lambda: 'squared error %g, but %g is possible (condition %g)' % ((r1 ** 2).sum(), (r0 ** 2).sum(), cond))
    # the gradient of the squared error vanishes
    g = np.abs(np.dot((a / s).T, r1)).max()
    rec.require(g <= 10 * lim * np.sqrt(ysc) + 1e-12, 'reg:gradient', lambda: 'gradient %g' % g)
    if not singular:
        e = np.abs((beta - b) * s[:, None]).max()
        ref = np.abs(b * s[:, None]).max() + np.sqrt(ysc)
        rec.require(e <= 10 * lim * ref, 'reg:coefficients', lambda: 'coefficients off by %g of %g' % (e, ref))
    z = rng.randn(3, d).astype(dt)
    out = n.execute(z)
    want = np.dot(np.c_[np.ones(3), z] if bias else z, beta)
    rec.require(out.shape == want.shape and np.abs(out - want).max() <= (1e-4 if dt == 'f' else 1e-10) * (np.abs(beta).sum() * 4 + 1),
                'reg:execute', 'execute does not evaluate the model')
    rec.event('pinv' if pinv else 'regressions')
    rec.case(kind, dt, bias, pinv, d, o, T)


@CHECK.scenario(quick=30, thorough=300)
def regression_arguments(rng, rec):
    n = mn.LinearRegressionNode()
    x, y = rng.randn(6, 2), rng.randn(6, 2)
    for bx, by in ((x, y[:-1]), (x[:-2], y)):
        try:
            n.train(bx, by)
            ok = False
        except mdp.NodeException:
            ok = True
        rec.require(ok, 'reg:samples', 'different numbers of points accepted')
    n.train(x, y)
    try:
        n.train(x, rng.randn(6, 3))
        ok = False
    except mdp.NodeException:
        ok = True
    rec.require(ok, 'reg:dim', 'different target dimension accepted')
    n.stop_training()
    a, b, sv, s = solve(x, y, True)
    rec.require(np.abs(n.beta - b).max() < 1e-6 * (sv[0] / sv[-1]) ** 2, 'reg:after-refusal', 'refused data took part')
    rec.event('regressions')
    rec.event('reported')
    rec.case(rec.index)


# ---------------------------------------------------------------- discriminant analysis
def names(rng, K):
    """A set of K distinct labels of one kind."""
    form = str(rng.choice(['int', 'negative', 'big', 'str', 'strlen', 'float', 'bool', 'npstr']))
    if form == 'int':
        l = list(range(K))
    elif form == 'negative':
        l = [int(k) for k in rng.permutation(50)[:K] - 25]
    elif form == 'big':
        l = [10 ** 12 + int(k) for k in rng.permutation(9)[:K]]
    elif form == 'str':
        l = list('zebra')[:K] if K <= 5 else ['c%d' % k for k in range(K)]
    elif form == 'strlen':
        l = ['x' * (k + 1) for k in range(K)]
    elif form == 'float':
        l = [0.1 * k + 1. for k in range(K)]
    elif form == 'npstr':
        l = [np.str_('n%d' % k) for k in range(K)]
    else:
        l = [False, True] if K == 2 else list(range(1, K + 1))
    return form, l


FORMS = ['array', 'list', 'tuple', 'single', 'mixed', 'sorted']


@CHECK.each([(k, k) for k in FORMS], quick=70, thorough=900)
def discriminant(rng, rec, form):
    dt = str(rng.choice(['d', 'd', 'f']))
    d, K = int(rng.randint(2, 6)), int(rng.randint(2, 6))
    sizes = rng.randint(2, 30, size=K)
    if rng.rand() < 0.2:
        sizes[0] = 1
    if sizes.sum() < d + K + 3:
        sizes += d + 2
    T = int(sizes.sum())
    lab = np.repeat(np.arange(K), sizes)
    cent = rng.randn(K, d) * (1 + 2 * rng.rand())
    x = cent[lab] + np.dot(rng.randn(T, d), rng.randn(d, d) + 2 * np.eye(d)) * 0.7
    if rng.rand() < 0.3:
        x *= 10. ** rng.randint(-2, 3)
    if form != 'sorted':
        p = rng.permutation(T)
        x, lab = x[p], lab[p]
    x = x.astype(dt)
    kind, l = names(rng, K)
    X = x.astype('d')
    m = X.mean(axis=0)
    ST = np.dot((X - m).T, X - m) / (T - 1)
    SW = np.zeros((d, d))
    for k in range(K):
        c = X[lab == k]
        SW += np.dot((c - c.mean(axis=0)).T, c - c.mean(axis=0))
    cond = np.linalg.cond(ST)
    if cond > (1e3 if dt == 'f' else 1e6):
        raise Skip('ill-conditioned')
    w, u = sl.eigh(SW, ST)
    out = int(rng.randint(1, d + 1)) if rng.rand() < 0.7 else None
    kw = {} if out is None else {'output_dim': out}
    if rng.rand() < 0.2:
        kw['dtype'] = dt
    n = mn.FDANode(**kw)
    out = out or d

    def feed():
        if form == 'single':
            order = list(range(K))
            rng.shuffle(order)
            for k in order:
                idx = np.flatnonzero(lab == k)
                for i, j in parts(rng, len(idx)):
                    yield x[idx[i:j]], l[k]
            return
        for i, j in parts(rng, T):
            labels = [l[k] for k in lab[i:j]]
            f = form if form not in ('mixed', 'sorted') else str(rng.choice(['array', 'list', 'tuple']))
            if form == 'mixed' and len(set(labels)) == 1:
                f = str(rng.choice(['array', 'list', 'tuple', 'single']))
            yield x[i:j], (np.array(labels) if f == 'array' else tuple(labels) if f == 'tuple' else labels[0] if f == 'single' else labels)

    for phase in range(2):
        for cx, cl in feed():
            c = cx.copy()
            n.train(c, cl)
            rec.require(np.array_equal(c, cx), 'fda:input', 'training changed the data')
            c[...] = 1e4
            rec.event('chunks')
        n.stop_training()
    # class means as seen by the node
    rec.require(len(n.means) == K and len(n.tlens) == K, 'fda:classes', lambda: 'classes %s for labels %s' % (sorted(map(str, n.means)), l))
    sc = float(np.abs(X).max())
    for k in range(K):
        rec.require(n.tlens[l[k]] == sizes[k], 'fda:tlens', lambda: '%s instead of %s' % (n.tlens, sizes))
        e = np.abs(np.asarray(n.means[l[k]], 'd').reshape(-1) - X[lab == k].mean(axis=0)).max()
        rec.require(e <= (1e-4 if dt == 'f' else 1e-11) * sc, 'fda:means', lambda: 'class mean off by %g' % e)
    v = np.asarray(n.v, 'd')
    rec.require(v.shape == (d, out) and np.isfinite(v).all() and n.output_dim == out, 'fda:shape', lambda: '%s for %s' % (v.shape, out))
    tol = (3e-5 if dt == 'f' else 1e-11) * cond * 10
    e = np.abs(np.dot(v.T, np.dot(ST, v)) - np.eye(out)).max()
    rec.require(e <= tol, 'fda:normalization', lambda: 'total variance of the outputs differs from one by %g' % e)
    q = np.dot(v.T, np.dot(SW, v))
    e = np.abs(np.diag(q) - w[:out]).max() / w.max()
    rec.require(e <= tol, 'fda:order', lambda: 'within-class scatter of the outputs %s, optimal %s' % (np.diag(q), w[:out]))
    e = np.abs(np.dot(SW, v) - np.dot(ST, v) * np.diag(q)).max() / (np.abs(np.dot(ST, v)).max() * w.max())
    rec.require(e <= tol, 'fda:eigenvectors', lambda: 'residual %g' % e)
    e = np.abs(np.asarray(n.avg, 'd').reshape(-1) - m).max()
    rec.require(e <= (1e-4 if dt == 'f' else 1e-11) * sc, 'fda:avg', lambda: 'mean off by %g' % e)
    z = x[:5]
    y = n.execute(z)
    want = np.dot(z.astype('d') - m, v)
    t = (1e-3 if dt == 'f' else 1e-8) * (np.abs(v).sum(axis=0).max() * sc)
    rec.require(np.abs(y - want).max() <= t, 'fda:execute', 'wrong projection')
    j = int(rng.randint(1, out + 1))
    rec.require(np.abs(n.execute(z, n=j) - want[:, :j]).max() <= t, 'fda:execute-n', 'wrong projection')
    if out == d:
        rec.require(np.abs(n.inverse(y) - z).max() <= t * 10 * cond, 'fda:inverse', 'inverse does not restore the data')
    rec.event('discriminants')
    rec.event('label_forms')
    rec.case(form, kind, dt, d, K, T, out)


@CHECK.scenario(quick=30, thorough=300)
def fda_arguments(rng, rec):
    x = rng.randn(12, 3)
    l = [0, 1, 2] * 4
    n = mn.FDANode()
    for phase in range(2):
        for bad in (l[:-1], np.array(l + [1]), tuple(l[:3])):
            try:
                n.train(x, bad)
                ok = False
            except mdp.TrainingException:
                ok = True
            rec.require(ok, 'fda:labels', 'wrong number of labels accepted')
            rec.event('reported')
        n.train(x, l)
        n.stop_training()
    rec.require(sorted(n.tlens.values()) == [4, 4, 4], 'fda:after-refusal', lambda: 'refused data took part: %s' % n.tlens)
    rec.event('discriminants')
    rec.case(rec.index)
