"""P27 Classifiers return consistent, correct labels, probabilities and rankings."""
import warnings
import numpy as np
import mdp
from harness.core import Check, Skip

CHECK = Check('P27', 'A case trains one classifier on random labelled data (label kinds: integers, strings, floats, booleans; '
              'labels per row or one per chunk, random chunking) and judges labels, probabilities and rankings for ordinary, '
              'boundary and far away points against an independent computation of the method. Distinct by classifier, '
              'label kind, classes, dimension and chunking.')
CHECK.expect_events(labels=2000, probabilities=600, rankings=300, far=150, refused=60, fixed_points=100, modes=60, clusters=15)

N = mdp.nodes


def label_names(rng, kind, m):
    if kind == 'int':
        return [int(v) for v in rng.permutation(50)[:m] - 20]
    if kind == 'str':
        return ['%s%d' % ('kzab'[rng.randint(4)], v) for v in rng.permutation(50)[:m]]
    if kind == 'float':
        return [float(v) / 4 for v in rng.permutation(50)[:m]]
    if kind == 'bool':
        return [True, False][:m]
    raise ValueError(kind)


def classes(rng, kind, most=5):
    return rng.randint(1, 3) if kind == 'bool' else rng.randint(1, most + 1)


def give(rng, node, x, labels):
    """Train in random chunks, with labels per row (list, tuple, array) or a single one where a chunk has only one."""
    order = np.arange(len(x))
    style = rng.randint(3)
    if style == 0:
        order = rng.permutation(len(x))
    elif style == 1:          # sorted by class
        order = np.array(sorted(order, key=lambda i: str(labels[i])))
    cuts = sorted(set(rng.randint(1, len(x), rng.randint(0, 6)).tolist())) if len(x) > 1 else []
    if style == 1 and rng.rand() < .7:      # a chunk per class
        cuts = [i for i in range(1, len(x)) if labels[order[i]] != labels[order[i - 1]]]
    how = []
    for idx in np.split(order, cuts):
        chunk = x[idx].copy()
        lab = [labels[i] for i in idx]
        if len(set(lab)) == 1 and rng.rand() < .6:
            one = lab[0]
            if rng.rand() < .3:
                one = np.array([one])[0]
            node.train(chunk, one)
            how.append('1')
        else:
            form = rng.randint(3)
            given = [list, tuple, np.array][form](lab)
            node.train(chunk, given)
            how.append('lta'[form])
        chunk[...] = 77                     # the caller may reuse the array
    return order, ''.join(sorted(set(how)))


def same_label(a, b):
    """One label, up to the scalar type (an item of an array or a number of Python)."""
    return type(np.asarray(a).item()) == type(np.asarray(b).item()) and np.asarray(a).item() == np.asarray(b).item()


def consistent(rec, node, x, names, what, threshold=True, full=True):
    """Labels, probabilities and ranks agree with each other."""
    labels = node.label(x)
    rec.require(len(labels) == len(x), 'label-count', what)
    for l in labels:
        rec.require(any(same_label(l, n) for n in names), 'foreign-label', lambda: '%s: label %r is none of %r' % (what, l, names))
    rec.event('labels', len(x))
    if not full:
        return labels, None
    prob = node.prob(x)
    ranks = node.rank(x)
    rec.require(len(prob) == len(x) and len(ranks) == len(x), 'prob-count', what)
    for l, p, r in zip(labels, prob, ranks):
        v = np.array(list(p.values()), 'd')
        rec.require(set(p) == set(names), 'prob-labels', lambda: '%s: probabilities for %r, labels %r' % (what, list(p), names))
        rec.require(np.all(np.isfinite(v)) and np.all(v >= 0) and abs(v.sum() - 1) < 1e-4, 'prob-sum', lambda: '%s: probabilities %r' % (what, p))
        rec.require(p[l] >= v.max(), 'prob-label', lambda: '%s: label %r but probabilities %r' % (what, l, p))
        rec.require(sorted(map(str, r)) == sorted(map(str, names)) and all(p[a] >= p[b] for a, b in zip(r, r[1:])), 'rank', lambda: '%s: rank %r of %r' % (what, r, p))
        rec.event('probabilities')
        rec.event('rankings')
    t = .3
    for p, r in zip(prob, node.rank(x, threshold=t)):
        rec.require(set(r) == set(k for k in p if p[k] > t) and all(p[a] >= p[b] for a, b in zip(r, r[1:])), 'rank-threshold', lambda: '%s: rank above %r: %r of %r' % (what, t, r, p))
    return labels, prob


def modes(rng, rec, node, x, what, full=True):
    """The execution modes give what the methods give."""
    old = node.execute_method
    try:
        node.execute_method = None
        rec.require(np.array_equal(node.execute(x), x), 'mode-identity', what)
        node.execute_method = 'label'
        rec.require(list(node.execute(x)) == list(node.label(x)), 'mode-label', what)
        if full:
            node.execute_method = 'prob'
            rec.require(node.execute(x) == node.prob(x), 'mode-prob', what)
            node.execute_method = 'rank'
            rec.require(node.execute(x) == node.rank(x), 'mode-rank', what)
    finally:
        node.execute_method = old
    rec.event('modes')


def wrong_lengths(rng, rec, make, x, labels, what):
    node = make()
    for bad in (list(labels) + [labels[0]], tuple(labels) + (labels[0],), list(labels)[:-1] if len(labels) > 1 else [], np.array(list(labels) * 2)):
        try:
            node.train(x, bad)
            rec.require(False, 'label-length-accepted', '%s: accepted %d labels for %d rows' % (what, len(bad), len(x)))
        except mdp.TrainingException:
            rec.event('refused')


KINDS = [(k, k) for k in ('int', 'str', 'float', 'bool')]


def options(rng, dim, dt):
    kw = {}
    if rng.rand() < .3:
        kw['input_dim'] = dim
    if rng.rand() < .3:
        kw['dtype'] = dt
    return kw


def blobs(rng, m, dim, dt, least, offset=0.):
    """Rows and class indices."""
    xs, ys = [], []
    for c in range(m):
        n = rng.randint(least, least + 15)
        a = rng.randn(dim, dim) + np.eye(dim)
        xs.append(np.dot(rng.randn(n, dim), a) + rng.randn(dim) * rng.choice([.5, 3.]) + offset)
        ys += [c] * n
    return np.concatenate(xs).astype(dt), np.array(ys)


# ------------------------------------------------------------------ Gaussian classes

@CHECK.each(KINDS, quick=24, thorough=200)
def gaussian(rng, rec, kind):
    m, dim = classes(rng, kind), rng.randint(1, 5)
    dt = 'f' if rng.rand() < .2 else 'd'
    names = label_names(rng, kind, m)
    x, y = blobs(rng, m, dim, dt, dim + 3)
    labels = [names[i] for i in y]
    kw = options(rng, dim, dt)
    node = N.GaussianClassifier(**kw)
    order, how = give(rng, node, x, labels)
    node.stop_training()
    what = 'GaussianClassifier, %d classes, %s labels, chunks %s, type %s' % (m, kind, how, dt)
    X = x.astype('d')
    par = []
    for c in range(m):
        xc = X[y == c]
        cov = np.cov(xc.T, ddof=1).reshape(dim, dim)
        if np.linalg.cond(cov) > (1e3 if dt == 'f' else 1e8):
            raise Skip('nearly singular class')
        par.append((xc.mean(0), np.linalg.inv(cov), np.linalg.slogdet(cov)[1], len(xc) / float(len(X))))

    def logpost(q):
        lp = np.array([np.log(p) - .5 * ld - .5 * np.einsum('ij,jk,ik->i', q - mu, ic, q - mu) for mu, ic, ld, p in par]).T
        return lp - lp.max(1)[:, None]
    for far in (False, True):
        q = np.concatenate([X[rng.randint(0, len(X), 5)], rng.randn(5, dim) * 3])
        if far:
            q = q * rng.choice([30., 300., 1e4])
            rec.event('far', len(q))
        q = q.astype(dt)
        lab, prob = consistent(rec, node, q, names, what + (', far points' if far else ''))
        lp = logpost(q.astype('d'))
        top = np.sort(lp, axis=1)
        size = np.abs(np.array([np.einsum('ij,jk,ik->i', q.astype('d') - mu, ic, q.astype('d') - mu) for mu, ic, _, _ in par])).max(0)
        eps = (1e-3 if dt == 'f' else 1e-7) * (1 + size)
        post = np.exp(lp) / np.exp(lp).sum(1)[:, None]
        for i in range(len(q)):
            if eps[i] < .05:
                got = np.array([prob[i][n] for n in names])
                rec.require(np.allclose(got, post[i], atol=4 * eps[i] + 1e-6), 'posterior', lambda: '%s: %r, true %r' % (what, got, post[i]))
            if m == 1 or top[i, -2] < -3 * eps[i] - 1e-6:
                rec.require(same_label(lab[i], names[int(lp[i].argmax())]), 'gaussian-label',
                            lambda: '%s: label %r, the most probable class is %r (log ratios %r)' % (what, lab[i], names[int(lp[i].argmax())], lp[i]))
        cp = node.class_probabilities(q)
        rec.require(cp.shape == (len(q), m) and np.allclose(cp, [[p[n] for n in node.labels] for p in prob], atol=1e-6), 'class-probabilities', what)
    modes(rng, rec, node, q[:3], what)
    wrong_lengths(rng, rec, lambda: N.GaussianClassifier(), x, labels, what)
    # a class without a covariance is refused
    bad = N.GaussianClassifier()
    bad.train(x, labels)
    extra = 'zz' if kind == 'str' else 999
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if rng.rand() < .5:
            bad.train(x[:1], extra)
        else:
            bad.train(np.repeat(np.ones((1, dim), dt) * rng.randint(1, 5), 4, axis=0), extra)
        try:
            bad.stop_training()
            rec.require(False, 'singular-accepted', '%s: a class without a covariance was accepted' % what)
        except mdp.NodeException:
            rec.event('refused')
    rec.case(('gauss', kind, m, dim, how, dt))


# ------------------------------------------------------------------ distances

@CHECK.each(KINDS, quick=24, thorough=200)
def nearest_mean(rng, rec, kind):
    m, dim = classes(rng, kind), rng.randint(1, 6)
    dt = 'f' if rng.rand() < .2 else 'd'
    names = label_names(rng, kind, m)
    x, y = blobs(rng, m, dim, dt, 1)
    labels = [names[i] for i in y]
    node = N.NearestMeanClassifier(**options(rng, dim, dt))
    order, how = give(rng, node, x, labels)
    node.stop_training()
    what = 'NearestMeanClassifier, %d classes, %s labels, chunks %s, type %s' % (m, kind, how, dt)
    means = np.array([x[y == c].astype('d').mean(0) for c in range(m)])
    q = np.concatenate([x[rng.randint(0, len(x), 6)], (rng.randn(6, dim) * rng.choice([1, 5, 1e3])).astype(dt)])
    lab, _ = consistent(rec, node, q, names, what, full=False)
    d = ((q.astype('d')[:, None] - means[None]) ** 2).sum(2)
    s = np.sort(d, axis=1)
    for i in range(len(q)):
        if m == 1 or s[i, 1] - s[i, 0] > (1e-4 if dt == 'f' else 1e-9) * (1 + s[i, 0]):
            rec.require(same_label(lab[i], names[int(d[i].argmin())]), 'nearest-mean', lambda: '%s: label %r, the nearest mean is of %r' % (what, lab[i], names[int(d[i].argmin())]))
    modes(rng, rec, node, q[:3], what, full=False)
    wrong_lengths(rng, rec, lambda: N.NearestMeanClassifier(), x, labels, what)
    rec.case(('mean', kind, m, dim, how, dt))


@CHECK.each(KINDS, quick=24, thorough=200)
def neighbours(rng, rec, kind):
    m, dim, k = classes(rng, kind), rng.randint(1, 6), rng.randint(1, 8)
    dt = 'f' if rng.rand() < .2 else 'd'
    names = label_names(rng, kind, m)
    offset = rng.choice([0., 0., 100., 1e4]) * rng.choice([-1, 1], dim)
    if dt == 'f':
        offset = offset / 100
    x, y = blobs(rng, m, dim, dt, 1, offset)
    labels = [names[i] for i in y]
    node = N.KNNClassifier(k=k, **options(rng, dim, dt))
    order, how = give(rng, node, x, labels)
    node.stop_training()
    what = 'KNNClassifier(k=%d), %d classes, %s labels, chunks %s, type %s, offset %r' % (k, m, kind, how, dt, np.abs(offset).max())
    q = np.concatenate([x[rng.randint(0, len(x), 6)], (rng.randn(6, dim) * rng.choice([1, 5, 50]) + offset).astype(dt)])
    lab, _ = consistent(rec, node, q, names, what, full=False)
    d = ((q.astype('d')[:, None] - x.astype('d')[None]) ** 2).sum(2)
    eps = (1e-4 if dt == 'f' else 1e-9) * (1 + np.abs(q.astype('d')).max() ** 2 + np.abs(x.astype('d')).max() ** 2)
    for i in range(len(q)):
        o = d[i].argsort()
        if len(o) > k and d[i][o[k]] - d[i][o[k - 1]] < eps:
            continue                        # the set of neighbours depends on rounding
        votes = np.bincount(y[o[:k]], minlength=m)
        best = np.nonzero(votes == votes.max())[0]
        rec.require(any(same_label(lab[i], names[b]) for b in best), 'neighbours', lambda: '%s: label %r, votes %r' % (what, lab[i], dict(zip(names, votes))))
    modes(rng, rec, node, q[:3], what, full=False)
    wrong_lengths(rng, rec, lambda: N.KNNClassifier(), x, labels, what)
    rec.case(('knn', kind, m, dim, k, how, dt))


# ------------------------------------------------------------------ Markov

@CHECK.each([(a + '/' + b, (a, b)) for a in ('int', 'str', 'float') for b in ('int', 'str', 'float')], quick=20, thorough=120)
def markov(rng, rec, kinds):
    fkind, kind = kinds
    m, dim, rows = classes(rng, kind), rng.randint(1, 4), rng.randint(1, 40)
    names = label_names(rng, kind, m)
    if kind == 'str' and rng.rand() < .5:
        names = ['abcdefg'[i] * rng.randint(1, 4) for i in range(m)]
    f = rng.randint(0, 3, (rows, dim))
    if fkind == 'str':
        x = np.array(['x', 'yy', 'z'])[f]
        x = np.array(['x', 'y', 'z'])[f].astype('S1') if rng.rand() < .5 else np.array(['x', 'y', 'z'])[f].astype('c')
    else:
        x = f.astype('i' if fkind == 'int' else 'd')
    y = rng.randint(0, m, rows)
    labels = [names[i] for i in y]
    names = [n for n in names if n in labels]
    node = N.SimpleMarkovClassifier()
    fill = x.copy()
    cuts = sorted(set(rng.randint(1, rows, rng.randint(0, 6)).tolist())) if rows > 1 else []
    order = np.argsort(y, kind='stable') if rng.rand() < .5 else np.arange(rows)
    if rng.rand() < .5:
        cuts = [i for i in range(1, rows) if y[order[i]] != y[order[i - 1]]]
    how = ''
    for idx in np.split(order, cuts):
        lab = [labels[i] for i in idx]
        if len(set(lab)) == 1 and rng.rand() < .7:
            node.train(fill[idx], lab[0])
            how += '1'
        else:
            node.train(fill[idx], [list, tuple, np.array][rng.randint(3)](lab))
            how += 'n'
    node.stop_training()
    what = 'SimpleMarkovClassifier, %s features, %s labels, chunks %s' % (fkind, kind, ''.join(sorted(set(how))))
    prob = node.prob(x)
    ranks = node.rank(x)
    for i in range(rows):
        mine = [j for j in range(rows) if np.array_equal(x[i], x[j])]
        true = dict((n, sum(labels[j] == n for j in mine) / float(len(mine))) for n in names)
        p = prob[i]
        rec.require(set(p) == set(names), 'markov-labels', lambda: '%s: probabilities for %r, labels %r' % (what, list(p), names))
        rec.require(all(abs(p[n] - true[n]) < 1e-9 for n in names), 'markov-counts', lambda: '%s: %r, by the counts %r' % (what, p, true))
        rec.require(len(ranks[i]) == len(names) and all(p[a] >= p[b] for a, b in zip(ranks[i], ranks[i][1:])), 'rank', what)
        rec.event('probabilities')
        rec.event('rankings')
    # never seen: no label has a probability
    odd = np.array([['w' if fkind == 'str' else 9] * dim], x.dtype)
    rec.require(all(v == 0 for v in node.prob(odd)[0].values()), 'markov-unseen', what)
    wrong_lengths(rng, rec, lambda: N.SimpleMarkovClassifier(), x, labels, what)
    rec.case(('markov', fkind, kind, m, dim, ''.join(sorted(set(how)))))


@CHECK.each([('KNN', N.KNNClassifier), ('mean', N.NearestMeanClassifier), ('gauss', N.GaussianClassifier)], quick=2, thorough=12)
def many_classes(rng, rec, cls):
    """Hundreds of classes, well separated: every sample gets its own label back."""
    m = rng.choice([130, 257, 300, 520]) + rng.randint(3)
    rows = 4
    names = ['c%d' % i for i in range(m)] if rng.rand() < .5 else (rng.permutation(3 * m)[:m] - m).tolist()
    centre = rng.permutation(m) * 10.
    offsets = np.array([[-1.], [-.4], [.3], [.9]])  # the same spread around every centre
    x = np.concatenate([c + offsets * rng.uniform(.8, 1) for c in centre])
    y = np.repeat(np.arange(m), rows)
    node = cls()
    if rng.rand() < .5:
        p = rng.permutation(len(x))
        node.train(x[p], [names[i] for i in y[p]])
    else:
        for c in range(m):
            node.train(x[y == c], names[c])
    node.stop_training()
    pick = np.unique(np.concatenate([rng.randint(0, m, 20), [0, m - 1]]))
    lab = node.label(centre[pick][:, None])
    for c, l in zip(pick, lab):
        rec.require(same_label(l, names[c]), 'many-classes', lambda: '%s: %d classes, the centre of class %r is labelled %r' % (cls.__name__, m, names[c], l))
    rec.event('labels', len(pick))
    rec.case((cls.__name__, m, rng.randint(1 << 30)))


# ------------------------------------------------------------------ perceptron and sign

@CHECK.scenario(quick=40, thorough=300)
def perceptron(rng, rec):
    dim, rows = rng.randint(1, 6), rng.randint(2, 60)
    dt = 'f' if rng.rand() < .2 else 'd'
    w = rng.randn(dim + 1)
    x = rng.randn(rows, dim).astype(dt)
    y = np.where(np.dot(x, w[:-1]) + w[-1] > 0, 1, -1)
    node = N.PerceptronClassifier(**options(rng, dim, dt))
    node.learning_rate = rate = float(rng.choice([.1, .1, .5, 1.]))
    weight, bias = np.ones(dim), 0.
    passes = rng.randint(1, 4)
    close = False
    for _ in range(passes):
        cuts = sorted(set(rng.randint(1, rows, rng.randint(0, 5)).tolist()))
        for part in np.split(np.arange(rows), cuts):
            lab = y[part]
            if len(set(lab.tolist())) == 1 and rng.rand() < .6:
                node.train(x[part].copy(), int(lab[0]))
            else:
                node.train(x[part].copy(), [lambda v: v.tolist(), lambda v: tuple(v.tolist()), np.array][rng.randint(3)](lab))
            for i in part:
                s = np.dot(x[i].astype('d'), weight) + bias
                close |= abs(s) < 1e-6
                step = rate * (y[i] - np.sign(s))
                weight = weight + step * x[i]
                bias = bias + step
    node.stop_training()
    if close:
        raise Skip('a training point lies on the boundary')
    what = 'PerceptronClassifier, dim %d, %d rows, rate %r, %d passes, type %s' % (dim, rows, rate, passes, dt)
    q = np.concatenate([x, (rng.randn(8, dim) * rng.choice([1., 100.])).astype(dt)])
    s = np.dot(q.astype('d'), weight) + bias
    lab = np.array(node.label(q))
    sure = np.abs(s) > 1e-5 * (1 + np.abs(q.astype('d')).sum(1))
    rec.require(np.array_equal(lab[sure], np.sign(s)[sure]), 'perceptron', what + ': labels differ from those of the perceptron rule')
    rec.event('labels', int(sure.sum()))
    modes(rng, rec, node, q[sure][:3], what, full=False)
    for bad in (2, [0] * rows, [1] * (rows + 1), np.array([1, -1] * rows)[:rows] * 3):
        try:
            node2 = N.PerceptronClassifier()
            node2.train(x, bad)
            rec.require(False, 'bad-labels-accepted', '%s: accepted the labels %r' % (what, bad))
        except mdp.TrainingException:
            rec.event('refused')
    rec.case(('perceptron', dim, rate, passes, dt))


@CHECK.each([(t, t) for t in ('d', 'f', 'i', 'b')], quick=12, thorough=60)
def signum(rng, rec, dt):
    dim, rows = rng.randint(1, 9), rng.randint(1, 20)
    x = rng.randint(-120, 120, (rows, dim)).astype(dt) if dt in 'ib' else rng.randn(rows, dim).astype(dt)
    node = N.SignumClassifier(**options(rng, dim, dt))
    lab = node.label(x)
    s = x.astype('d').sum(1)
    sure = np.abs(s) > 1e-5
    rec.require(len(lab) == rows and np.array_equal(np.array(lab)[sure], np.sign(s)[sure]), 'signum', lambda: 'SignumClassifier, type %s: %r for the sums %r' % (dt, lab, s))
    rec.event('labels', rows)
    modes(rng, rec, node, x, 'SignumClassifier', full=False)
    rec.case(('signum', dt, dim))


# ------------------------------------------------------------------ Hopfield

@CHECK.scenario(quick=30, thorough=200)
def hopfield(rng, rec):
    dim, npat = rng.randint(2, 25), rng.randint(1, 6)
    pats = rng.randint(0, 2, (npat, dim)).astype('b')
    node = N.DiscreteHopfieldClassifier()
    for part in np.split(pats, sorted(set(rng.randint(0, npat, rng.randint(0, 3)).tolist()) - {0})):
        node.train(part.astype(bool) if rng.rand() < .3 else part)
    node.stop_training()
    what = 'DiscreteHopfieldClassifier, %d patterns of %d units' % (npat, dim)
    rec.require(node.memory_size == dim and abs(node.load_parameter - npat / float(dim)) < 1e-12, 'hopfield-size', what)
    s = 2. * pats - 1
    w = np.dot(s.T, s) / dim
    np.fill_diagonal(w, 0)
    node._shuffled_update = bool(rng.rand() < .7)
    th = 0 if rng.rand() < .6 else rng.uniform(-.3, .3, dim)
    mdp.numx_rand.seed(rng.randint(2 ** 31))
    q = rng.randint(0, 2, (8, dim)).astype('b')
    before = q.copy()
    out = node.label(q, threshold=th)
    rec.require(np.array_equal(before, q), 'input-modified', what)
    rec.require(np.shape(out) == q.shape and set(np.unique(out)) <= {0, 1}, 'hopfield-shape', lambda: '%s: returned %r' % (what, out))
    o = 2. * np.array(out, 'd') - 1
    field = np.dot(o, w) - th
    ok = (np.sign(field) == o) | (np.abs(field) < 1e-9)
    rec.require(np.all(ok), 'hopfield-fixed-point', lambda: '%s: a returned pattern is not stable (units %r)' % (what, np.nonzero(~ok)))
    # the energy does not increase
    def energy(z):
        return -.5 * np.einsum('ij,jk,ik->i', z, w, z) + (z * th).sum(1)
    rec.require(np.all(energy(o) <= energy(2. * q - 1) + 1e-9), 'hopfield-energy', what + ': the energy increased')
    if npat == 1 and np.isscalar(th):
        # a single pattern is recalled from fewer than half of the units flipped
        r = pats.copy()
        flip = rng.permutation(dim)[:max(0, (dim - 1) // 2 - 1)]
        r[0, flip] = 1 - r[0, flip]
        rec.require(np.array_equal(node.label(r), pats.astype(bool)), 'hopfield-recall', what + ': the pattern is not recalled')
    stable = (np.dot(s, w) * s > 1e-9).all(1)
    kept = np.array(node.label(pats)).astype('b')
    rec.require(np.array_equal(kept[stable], pats[stable]), 'hopfield-stored', what + ': a stable stored pattern is not kept')
    rec.event('fixed_points', len(q))
    rec.case(('hopfield', dim, npat, node._shuffled_update))


# ------------------------------------------------------------------ k-means

@CHECK.scenario(quick=50, thorough=300)
def kmeans(rng, rec):
    k, dim = rng.randint(1, 6), rng.randint(1, 4)
    rows = rng.randint(k, 60)
    dt = 'f' if rng.rand() < .2 else 'd'
    x = (rng.randn(rows, dim) + rng.randint(0, k, (rows, 1)) * rng.uniform(0, 6)).astype(dt)
    if rng.rand() < .2:
        x = np.round(x)
    limit = rng.choice([1, 2, 3, 10000, 10000, 10000])
    if rng.rand() < .15:
        # no clusters in the data: the last steps move the centroids only a
        # little, and many samples lie at the borders
        k, dim, dt, limit = rng.randint(3, 7), rng.randint(1, 3), 'd', 10000
        rows = rng.randint(250, 500)
        x = rng.rand(rows, dim) * 10. ** rng.randint(-3, 2)
    node = N.KMeansClassifier(k, max_iter=int(limit), **options(rng, dim, dt))
    import random
    state = random.getstate()
    random.seed(rng.randint(2 ** 31))
    try:
        for part in np.split(x, sorted(set(rng.randint(1, rows, rng.randint(0, 4)).tolist())) if rows > 1 else []):
            node.train(part.copy())
        node.stop_training()
    finally:
        random.setstate(state)
    what = 'KMeansClassifier(%d, max_iter=%d) on %d rows of dimension %d, type %s' % (k, limit, rows, dim, dt)
    try:
        lab = list(node.label(x))
    except Exception as e:
        rec.require(False, 'kmeans-unusable', lambda: '%s: labelling fails with %r' % (what, e))
        return
    rec.require(len(lab) == rows and set(int(l) for l in lab) <= set(range(k)), 'kmeans-label', lambda: '%s: labels %r' % (what, lab))
    rec.event('labels', rows)
    y = np.array(lab)
    X = x.astype('d')
    used = sorted(set(lab))
    centers = np.array([X[y == c].mean(0) for c in used])
    eps = 1e-3 if dt == 'f' else 1e-9
    if limit == 10000:
        # converged: every sample is nearest to the mean of its own cluster
        d = ((X[:, None] - centers[None]) ** 2).sum(2)
        own = d[np.arange(rows), [used.index(c) for c in lab]]
        rec.require(np.all(own <= d.min(1) + eps * (X.var() + np.abs(X).max() ** 2)), 'kmeans-stable', what + ': a sample is nearer to the mean of another cluster')
        q = (rng.randn(8, dim) * 3).astype(dt)
        dq = ((q.astype('d')[:, None] - centers[None]) ** 2).sum(2)
        s = np.sort(dq, axis=1)
        for i, l in enumerate(node.label(q)):
            if l in used and (len(used) == 1 or s[i, 1] - s[i, 0] > eps * (10 + s[i, 0])):
                rec.require(l == used[int(dq[i].argmin())], 'kmeans-nearest', lambda: '%s: label %r, nearest %r' % (what, l, used[int(dq[i].argmin())]))
        rec.event('clusters')
    again = list(node.label(x))
    rec.require(again == lab, 'kmeans-repeat', what)
    modes(rng, rec, node, x[:4], what, full=False)
    rec.case(('kmeans', k, dim, int(limit), dt))


# ------------------------------------------------------------------ collected labels and their normalization

@CHECK.each(KINDS, quick=10, thorough=60)
def cumulator(rng, rec, kind):
    m, dim = classes(rng, kind), rng.randint(1, 5)
    names = label_names(rng, kind, m)
    x, y = blobs(rng, m, dim, 'd', 1)
    labels = [names[i] for i in y]
    node = mdp.ClassifierCumulator()
    order, how = give(rng, node, x, labels)
    node.stop_training()
    what = 'ClassifierCumulator, %s labels, chunks %s' % (kind, how)
    rec.require(np.array_equal(node.data, x[order]), 'cumulated-data', what)
    rec.require(len(node.labels) == len(x) and all(same_label(a, labels[i]) for a, i in zip(node.labels, order)), 'cumulated-labels', lambda: '%s: %r, given %r' % (what, node.labels[:5], [labels[i] for i in order[:5]]))
    rec.event('labels', len(x))
    wrong_lengths(rng, rec, lambda: mdp.ClassifierCumulator(), x, labels, what)
    # the normalizer of the SVM classifiers is a one-to-one map
    L = getattr(N, 'LibSVMClassifier', None)
    norm = L and L._stop_training.__globals__.get('_LabelNormalizer')
    if norm:
        for mode in (None, 'id', 'multi', 'dual'):
            if mode == 'dual' and m > 2:
                try:
                    norm(labels, mode)
                    rec.require(False, 'dual-accepted', 'three labels were mapped to two numbers')
                except mdp.NodeException:
                    rec.event('refused')
                continue
            z = norm(labels, mode)
            n = z.normalize(labels)
            rec.require(list(z.revert(n)) == labels and len(set(n)) == len(set(labels)), 'label-map', lambda: 'label normalizer %r: %r' % (mode, n))
            if mode == 'dual':
                rec.require(set(n) <= {1, -1}, 'label-map', 'dual')
            if mode == 'multi':
                rec.require(set(n) == set(range(len(set(labels)))), 'label-map', 'multi')
    rec.case(('cumulator', kind, m, how))


# ------------------------------------------------------------------ user classifiers: rankings from the declared probabilities

@CHECK.scenario(quick=40, thorough=300)
def declared(rng, rec):
    """Ranking of a user's classifier: the labels above the threshold, the most probable first; ties and exact thresholds included."""
    m, rows, dim = rng.randint(1, 6), rng.randint(1, 7), rng.randint(1, 4)
    names = label_names(rng, str(rng.choice(['int', 'str'])), m)
    table = []
    for _ in range(rows):
        w = rng.randint(0, 4, m).astype(float)
        w[rng.randint(m)] += 1
        table.append({nm: float(v) / 16 for nm, v in zip(names, w)})

    class Declared(mdp.ClassifierNode):
        def is_trainable(self):
            return False

        def _prob(self, x):
            return [dict(table[int(i)]) for i in x[:, 0]]

        def _label(self, x):
            return [max(table[int(i)], key=table[int(i)].get) for i in x[:, 0]]
    x = np.zeros((rows, dim))
    x[:, 0] = rng.permutation(rows)
    node = Declared()
    for t in [None, 0., 1., -1.] + [k / 16. for k in range(5)]:
        want = [table[int(i)] for i in x[:, 0]]
        for p, r in zip(want, node.rank(x) if t is None else node.rank(x, threshold=t)):
            keep = [k for k in p if t is None or p[k] > t]
            rec.require(len(r) == len(keep) and set(r) == set(keep) and all(p[a] >= p[b] for a, b in zip(r, r[1:])),
                        'declared-rank', lambda: 'rank above %r: %r of %r' % (t, r, p))
            rec.event('rankings')
    modes(rng, rec, node, x, 'declared probabilities')
    rec.case(('declared', m, rows))
