"""P26 Time-embedding, cutoff, histogram, noise and hit-parade node contracts."""
import os
import pickle
import shutil
import tempfile
import numpy as np
import mdp
from harness.core import Check, Skip

CHECK = Check('P26', 'A case drives one helper node (time frames, delays, sliding window, cutoffs, histogram, noise, hit '
              'parade, normalization) with random signals, parameters, number types and chunkings and compares every value '
              'with the definition. Distinct by node, parameters and data shape.')
CHECK.expect_events(slots=3000, recovered=60, windows=300, clipped=200, bounds=60, histories=60, noise=120, hits=500, hit_rules=200,
                    normalized=30, identities=40)

N = mdp.nodes


def layout(rng, x):
    how = rng.randint(3)
    if how == 1:
        return np.asfortranarray(x)
    if how == 2:
        big = np.zeros((2 * len(x), x.shape[1]), x.dtype)
        big[::2] = x
        return big[::2]
    return x


def parts(rng, x, most=5):
    cuts = sorted(set(rng.randint(1, len(x), rng.randint(0, most)).tolist())) if len(x) > 1 else []
    return np.split(x, cuts)


def signal(rng, rows, dim, dt):
    if dt in 'il':
        return rng.randint(-50, 50, (rows, dim)).astype(dt)
    if dt == 'S1':
        return np.array(list('abcdefgh'))[rng.randint(0, 8, (rows, dim))].astype('S1')
    if dt == 'D':
        return rng.randn(rows, dim) + 1j * rng.randn(rows, dim)
    return rng.randn(rows, dim).astype(dt)


def options(rng, dim, dt):
    kw = {}
    if rng.rand() < .3:
        kw['input_dim'] = dim
    if rng.rand() < .3:
        kw['dtype'] = dt
    return kw


# ------------------------------------------------------------------ time embedding

@CHECK.each([(t, t) for t in ('d', 'f', 'i', 'l', 'S1')], quick=40, thorough=120 * 4)
def frames(rng, rec, dt):
    T, gap, dim = rng.randint(1, 7), rng.randint(1, 6), rng.randint(1, 5)
    need = (T - 1) * gap + 1
    rows = need + rng.randint(0, 12)
    x = layout(rng, signal(rng, rows, dim, dt))
    node = N.TimeFramesNode(T, gap, **options(rng, dim, dt))
    before = x.copy()
    y = node.execute(x)
    what = 'TimeFramesNode(%d, gap %d) on %d rows of dimension %d, type %s' % (T, gap, rows, dim, dt)
    rec.require(np.array_equal(before, x), 'input-modified', what)
    out = rows - need + 1
    rec.require(y.shape == (out, T * dim) and node.output_dim == T * dim and y.dtype == x.dtype, 'frames-shape',
                lambda: '%s: shape %r type %s' % (what, y.shape, y.dtype))
    for k in range(T):
        rec.require(np.array_equal(y[:, k * dim:(k + 1) * dim], x[k * gap:k * gap + out]), 'frames-slot', lambda: '%s: slot %d' % (what, k))
        rec.event('slots')
    # the inverse recovers every sample that occurs in some frame
    back = node.pseudo_inverse(y.copy())
    known = np.zeros(rows, bool)
    for k in range(T):
        known[k * gap:k * gap + out] = True
    rec.require(back.shape == x.shape, 'frames-inverse-shape', lambda: '%s: inverse of shape %r' % (what, back.shape))
    rec.require(np.array_equal(back[known], x[known]), 'frames-inverse', lambda: '%s: the pseudo-inverse differs at rows %r' % (
        what, np.nonzero((back != x).any(1) & known)[0][:5]))
    rec.event('recovered')
    if need > 1:
        # fewer samples than the embedding needs: nothing or a refusal, never wrong rows
        short = signal(rng, rng.randint(1, need), dim, dt)
        try:
            ys = node.execute(short)
            rec.require(len(ys) == 0, 'frames-too-short', lambda: '%s: %d rows from %d samples' % (what, len(ys), len(short)))
        except Exception:
            pass
    rec.case(('frames', T, gap, dim, dt))


@CHECK.each([(t, t) for t in ('d', 'f', 'i', 'l', 'S1')], quick=40, thorough=120 * 4)
def delays(rng, rec, dt):
    T, gap, dim = rng.randint(1, 7), rng.randint(1, 6), rng.randint(1, 5)
    rows = rng.randint(1, T * gap + 8)
    x = layout(rng, signal(rng, rows, dim, dt))
    kw = options(rng, dim, dt)
    what = 'TimeDelayNode(%d, gap %d) on %d rows of dimension %d, type %s' % (T, gap, rows, dim, dt)
    before = x.copy()
    node = N.TimeDelayNode(T, gap, **kw)
    try:
        y = node.execute(x)
    except Exception as e:
        rec.require(False, 'delay-crash', lambda: '%s: %r' % (what, e))
        return
    rec.require(np.array_equal(before, x), 'input-modified', what)
    want = np.zeros((rows, T * dim), x.dtype)
    for t in range(rows):
        for k in range(T):
            if t - k * gap >= 0:
                want[t, k * dim:(k + 1) * dim] = x[t - k * gap]
    rec.require(y.shape == want.shape and y.dtype == x.dtype and np.array_equal(y, want), 'delay-slot', lambda: '%s: %r, true %r' % (what, y, want))
    rec.event('slots', T * rows)
    # the sliding window gives the same rows one at a time, also when another stream was processed before by a copy
    win = N.TimeDelaySlidingWindowNode(T, gap, **kw)
    if rng.rand() < .3:
        win = win.copy()
    row = np.array(x[:1])                 # the caller reuses one buffer for the stream
    keep = []
    for t in range(rows):
        row[...] = x[t]
        out = win.execute(row)
        keep.append((out, out.copy()))
    got = np.concatenate([k for _, k in keep])
    rec.require(np.array_equal(got, want), 'window-slot', lambda: 'sliding window, %s: %r, true %r' % (what, got, want))
    rec.require(all(np.array_equal(a, b) for a, b in keep), 'window-output-changed', 'sliding window, %s: rows returned earlier changed' % what)
    rec.event('windows', rows)
    rec.case(('delay', T, gap, dim, dt, rows))


# ------------------------------------------------------------------ cutoffs

@CHECK.each([(t, t) for t in ('d', 'f', 'i')], quick=40, thorough=80 * 4)
def cutoff(rng, rec, dt):
    rows, dim = rng.randint(1, 30), rng.randint(1, 5)
    x = layout(rng, (rng.randn(rows, dim) * 10).astype(dt))
    lo = [None, float(rng.randint(-9, 3)), 0][rng.randint(3)]
    hi = [None, (0. if lo is None else lo) + float(rng.randint(0, 9)), 0][rng.randint(3)]
    if lo is not None and hi is not None and hi < lo:
        hi = lo
    node = N.CutoffNode(lo, hi, **options(rng, dim, dt))
    before = x.copy()
    y = node.execute(x)
    want = x.astype('d')
    if lo is not None:
        want = np.maximum(want, lo)
    if hi is not None:
        want = np.minimum(want, hi)
    what = 'CutoffNode(%r, %r), type %s' % (lo, hi, dt)
    rec.require(np.array_equal(before, x), 'input-modified', what)
    rec.require(y.shape == x.shape and np.array_equal(y, want), 'cutoff', lambda: '%s: %r -> %r' % (what, before[:3], y[:3]))
    rec.event('clipped', x.size)
    rec.case(('cutoff', lo, hi, dt))


def counts(fraction, n):
    """Numbers of samples a fraction may stand for."""
    k = fraction * n
    out = {int(np.floor(k))}
    if abs(k - round(k)) < 1e-9:
        out |= {int(round(k))}
    return out


@CHECK.each([(t, t) for t in ('d', 'f', 'i')], quick=40, thorough=100 * 4)
def adaptive(rng, rec, dt):
    rows, dim = rng.choice([10, 20, 25, 40, rng.randint(5, 60)]), rng.randint(1, 4)
    base = np.array([rng.permutation(rows) for _ in range(dim)]).T
    x = (base * rng.randint(1, 5) - rows).astype(dt)
    fr = [None, 0, .05, .1, .2, .25, .3, .5, rng.uniform(0, .5)]
    lf, uf = fr[rng.randint(len(fr))], fr[rng.randint(len(fr))]
    if rng.rand() < .05:
        lf = 1.
        uf = None
    elif rng.rand() < .05:
        uf, lf = 1., None
    node = N.AdaptiveCutoffNode(lower_cutoff_fraction=lf, upper_cutoff_fraction=uf, **options(rng, dim, dt))
    what = 'AdaptiveCutoffNode(%r, %r) on %d samples, type %s' % (lf, uf, rows, dt)
    for p in parts(rng, x):
        node.train(p)
    node.stop_training()
    rec.require(np.array_equal(node.data_hist, x), 'history', what + ': the history is not the training data')
    y = node.execute(x)
    order = np.sort(x, axis=0)
    for c in range(dim):
        clipped_low = int((y[:, c] > x[:, c]).sum())
        clipped_high = int((y[:, c] < x[:, c]).sum())
        # cutting off everything leaves the single value that is the bound
        low, high = ({min(k, rows - 1) for k in counts(f or 0, rows)} for f in (lf, uf))
        if (lf or 0) + (uf or 0) <= 1 - 1.5 / rows or not (lf and uf):
            rec.require(clipped_low in low, 'lower-fraction', lambda: '%s: %d values cut from below, requested %r' % (what, clipped_low, sorted(low)))
            rec.require(clipped_high in high, 'upper-fraction', lambda: '%s: %d values cut from above, requested %r' % (what, clipped_high, sorted(high)))
            changed = set(np.nonzero(y[:, c] != x[:, c])[0])
            extreme = set(np.argsort(x[:, c], kind='stable')[:clipped_low]) | set(np.argsort(x[:, c], kind='stable')[rows - clipped_high:])
            rec.require(changed == extreme, 'cut-values', lambda: what + ': other values than the extreme ones were cut')
            if clipped_low:
                rec.require(y[:, c].min() == order[clipped_low, c], 'lower-bound', what)
            if clipped_high:
                rec.require(y[:, c].max() == order[rows - 1 - clipped_high, c], 'upper-bound', what)
        rec.event('bounds')
    # execution clips any data to the bounds that training left
    z = (rng.randn(20, dim) * 3 * rows).astype(dt)
    w = z.astype('d')
    if lf:
        w = np.maximum(w, node.lower_bounds)
    if uf:
        w = np.minimum(w, node.upper_bounds)
    rec.require(np.array_equal(node.execute(z), w), 'adaptive-execute', what)
    rec.case(('adaptive', lf, uf, rows, dt))


@CHECK.each([(t, t) for t in ('d', 'f', 'i', 'S1')], quick=30, thorough=60 * 4)
def histogram(rng, rec, dt):
    rows, dim = rng.randint(2, 60), rng.randint(1, 4)
    fraction = [1., 1., .5, .25, .9, 0., 2.][rng.randint(7)]
    if fraction not in (1., 2.):
        rows = 2000
    x = signal(rng, rows, dim, dt)
    if dt != 'S1':
        x[:, 0] = np.arange(rows)        # identifies the row
    folder = tempfile.mkdtemp(prefix='p26-')
    try:
        name = os.path.join(folder, 'hist') if rng.rand() < .4 else None
        cls = N.HistogramNode if dt == 'S1' or rng.rand() < .6 else N.AdaptiveCutoffNode
        node = cls(hist_fraction=fraction, hist_filename=name, **options(rng, dim, dt))
        what = '%s(hist_fraction=%r, file %s), type %s' % (cls.__name__, fraction, bool(name), dt)
        mdp.numx_rand.seed(rng.randint(2 ** 31))
        for p in parts(rng, x):
            buf = p.copy()
            node.train(buf)
            if dt != 'S1':
                buf[...] = -1            # the caller may reuse the array
        node.stop_training()
        if name:
            rec.require(node.data_hist is None, 'history-kept', what + ': the history was not cleared')
            with open(name, 'rb') as f:
                hist = pickle.load(f)
        else:
            hist = node.data_hist
    finally:
        shutil.rmtree(folder)
    if fraction >= 1:
        rec.require(np.array_equal(hist, x), 'history', what + ': the history is not the training data')
    else:
        sd = np.sqrt(rows * fraction * (1 - fraction))
        rec.require(abs(len(hist) - rows * fraction) <= 7 * sd, 'history-fraction', lambda: '%s: %d of %d samples' % (what, len(hist), rows))
        if dt != 'S1' and len(hist):
            ids = hist[:, 0].astype('l')
            rec.require(np.all(np.diff(ids) > 0) and np.array_equal(hist, x[ids]), 'history-rows', what + ': not a subset of the training rows in order')
    q = signal(rng, 4, dim, dt)
    rec.require(np.array_equal(node.execute(q), q), 'histogram-execute', what + ': execution changed the data')
    rec.event('histories')
    rec.case(('hist', cls.__name__, fraction, dt, bool(name)))


# ------------------------------------------------------------------ noise

@CHECK.each([(t, t) for t in ('d', 'f', 'i')], quick=40, thorough=80 * 4)
def noise(rng, rec, dt):
    rows, dim = rng.randint(1, 20), rng.randint(1, 5)
    x = layout(rng, (rng.randn(rows, dim) * 10).astype(dt))
    drawn = []

    def source(*args, **kw):
        assert set(kw) == {'size'}
        n = rng.randn(*kw['size']) * (args[1] if len(args) > 1 else 1.) + (args[0] if args else 0.)
        drawn.append((args, kw['size'], n.copy()))
        return n
    kind = ['additive', 'multiplicative'][rng.randint(2)]
    args = [(), (3.,), (1., 4.)][rng.randint(3)]
    node = N.NoiseNode(source, args, kind, **options(rng, dim, dt))
    what = 'NoiseNode(%s, args %r), type %s' % (kind, args, dt)
    before = x.copy()
    for _ in range(2):
        del drawn[:]
        y = node.execute(x)
        rec.require(np.array_equal(before, x), 'input-modified', what)
        rec.require(len(drawn) == 1 and drawn[0][0] == args and tuple(drawn[0][1]) == x.shape, 'noise-draw', lambda: '%s: drew %r' % (what, drawn))
        n = drawn[0][2].astype(dt)        # noise in the type of the node
        want = x + n if kind == 'additive' else x * (1. + n)
        rec.require(np.allclose(y, want, rtol=1e-5 if dt == 'f' else 1e-12, atol=1e-5 if dt == 'f' else 1e-12), 'noise', lambda: '%s: %r, true %r' % (what, y[:2], want[:2]))
        rec.event('noise')
    try:
        N.NoiseNode(source, args, 'other')
        rec.require(False, 'noise-type-accepted', 'an unknown type of noise was accepted')
    except mdp.NodeException:
        pass
    # Gaussian noise of the node without a function: the draws of the global generator, scaled
    if dt != 'i':
        mean, std = rng.uniform(-5, 5), rng.uniform(.1, 3)
        node = N.NormalNoiseNode((mean, std)) if rng.rand() < .7 else N.NoiseNode(noise_args=(mean, std))
        seed = rng.randint(2 ** 31)
        mdp.numx_rand.seed(seed)
        y = node.execute(x)
        y2 = node.execute(x)
        mdp.numx_rand.seed(seed)
        w = x + mdp.numx_rand.normal(size=x.shape) * std + mean
        w2 = x + mdp.numx_rand.normal(size=x.shape) * std + mean
        t = 1e-4 if dt == 'f' else 1e-9
        rec.require(np.allclose(y, w, rtol=0, atol=t) and np.allclose(y2, w2, rtol=0, atol=t), 'normal-noise',
                    lambda: '%s (mean %r, deviation %r): the noise is not the drawn one' % (type(node).__name__, mean, std))
        rec.event('noise')
    rec.case(('noise', kind, args, dt))


# ------------------------------------------------------------------ hit parade

def parade(x, n, d):
    """The hits by the documented rule: a larger value within the gap replaces the latest hit, one beyond it the smallest."""
    slots = [None] * n
    last = None
    for t, v in enumerate(x):
        empty = [s for s in range(n) if slots[s] is None]
        low = empty[0] if empty else min(range(n), key=lambda s: (slots[s][0], s))
        if slots[low] is not None and not v > slots[low][0]:
            continue
        if last is not None and t - slots[last][1] <= d:
            if v > slots[last][0]:
                slots[last] = (v, t)
        else:
            slots[low] = (v, t)
            last = low
    return sorted([s for s in slots if s is not None], key=lambda s: -s[0])


@CHECK.each([(t, t) for t in ('d', 'f', 'i')], quick=40, thorough=100 * 4)
def hits(rng, rec, dt):
    rows, dim, n, d = rng.randint(1, 80), rng.randint(1, 4), rng.randint(1, 8), rng.randint(0, 7)
    if rng.rand() < .5 and dt != 'i':
        x = np.cumsum(rng.randn(rows, dim), axis=0).astype(dt)
    else:
        x = (rng.permutation(rows * dim).reshape(rows, dim) - rows).astype(dt)
    node = N.HitParadeNode(n, d, **options(rng, dim, dt))
    what = 'HitParadeNode(%d, gap %d) on %d rows, type %s' % (n, d, rows, dt)
    for p in parts(rng, x):
        buf = p.copy()
        node.train(buf)
        buf[...] = 0
    for sign, (V, I) in ((1, node.get_maxima()), (-1, node.get_minima())):
        side = 'maxima' if sign > 0 else 'minima'
        rec.require(V.shape == (n, dim) and I.shape == (n, dim), 'hit-shape', what)
        for c in range(dim):
            s = sign * x[:, c].astype('d')
            v, t = sign * V[:, c].astype('d'), I[:, c]
            rec.require(np.all(np.diff(v) <= 0), 'hit-order', lambda: '%s: %s of column %d are not sorted: %r' % (what, side, c, V[:, c]))
            true = parade(s, n, d)
            # unused places hold the lowest number of the type
            m = len(true)
            real = [(a, b) for a, b in zip(v, t)][:m]
            for a, b in real:
                rec.require(0 <= b < rows and s[b] == a, 'hit-time', lambda: '%s: %s, value %r is not the sample at %r' % (what, side, a, b))
                rec.event('hits')
            times = sorted(b for _, b in real)
            rec.require(np.all(np.diff(times) > d), 'hit-gap', lambda: '%s: %s at %r closer than the gap' % (what, side, times))
            rec.require(s.max() == v[0], 'hit-extreme', lambda: '%s: the largest value %r is missing in the %s %r' % (what, s.max(), side, v))
            full = m == n
            for j in range(rows):
                w = np.delete(s[max(0, j - d):j + d + 1], j - max(0, j - d))
                if (len(w) == 0 or s[j] > w.max()) and j not in times:
                    rec.require(full and v[m - 1] >= s[j], 'hit-missing', lambda: '%s: %s lack the local extreme %r at %d' % (what, side, s[j], j))
            rec.event('hit_rules')
            rec.require(np.array_equal([a for a, _ in real], [a for a, _ in true]) and set(times) == set(b for _, b in true), 'hit-rule',
                        lambda: '%s: %s %r, by the rule %r' % (what, side, real, true))
            lowest = np.iinfo(dt).min if dt == 'i' else np.finfo(dt).min
            highest = np.iinfo(dt).max if dt == 'i' else np.finfo(dt).max
            rec.require(np.all(V[m:, c] == (lowest if sign > 0 else highest)), 'hit-unused', what)
    q = signal(rng, 3, dim, dt)
    rec.require(np.array_equal(node.execute(q), q), 'hit-execute', what)
    rec.case(('hits', n, d, dt, rows))


# ------------------------------------------------------------------ small ones

@CHECK.each([(t, t) for t in ('d', 'f')], quick=30, thorough=60 * 4)
def normalize(rng, rec, dt):
    rows, dim = rng.randint(4, 60), rng.randint(1, 6)
    x = (rng.randn(rows, dim) * rng.uniform(.2, 4, dim) + rng.uniform(-3, 3, dim)).astype(dt)
    node = N.NormalizeNode(**options(rng, dim, dt))
    for p in parts(rng, x):
        node.train(p)
    y = node.execute(x)
    t = 2e-3 if dt == 'f' else 1e-8
    ok = np.allclose(y.astype('d').mean(0), 0, atol=t) and np.allclose(y.astype('d').var(0, ddof=1), 1, atol=t)
    rec.require(ok, 'normalized', lambda: 'NormalizeNode, type %s: mean %r, variance %r' % (dt, y.mean(0), y.var(0, ddof=1)))
    q = (rng.randn(5, dim) * 4).astype(dt)
    rec.require(np.allclose(node.inverse(node.execute(q)), q, atol=t * 20), 'normalize-inverse', 'NormalizeNode: the inverse does not undo execution')
    w = (q - x.astype('d').mean(0)) / x.astype('d').std(0, ddof=1)
    rec.require(np.allclose(node.execute(q), w, rtol=t, atol=t * 10), 'normalize-affine', 'NormalizeNode: execution is not the normalization of the training data')
    rec.event('normalized')
    rec.case(('norm', dim, dt))


@CHECK.each([(t, t) for t in ('d', 'f', 'i', 'D', 'S1')], quick=30, thorough=30 * 4)
def identity(rng, rec, dt):
    dim = rng.randint(1, 5)
    x = layout(rng, signal(rng, rng.randint(1, 8), dim, dt))
    if dt == 'D':
        try:
            node = N.IdentityNode(dtype='D')
        except mdp.NodeException:
            raise Skip('complex numbers are not supported')
    else:
        node = N.IdentityNode(**options(rng, dim, dt))
    y = node.execute(x)
    rec.require(np.array_equal(y, x) and y.dtype == x.dtype, 'identity', 'IdentityNode changed the data')
    if dt != 'S1':
        rec.require(np.array_equal(node.inverse(y), x), 'identity-inverse', 'the inverse of IdentityNode changed the data')
    rec.event('identities')
    rec.case(('id', dim, dt))
