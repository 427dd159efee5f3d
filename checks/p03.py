"""P03 chunking and buffer independence of training."""
import random
import numpy as np
import mdp
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P03', 'A case trains one node configuration on one sample sequence twice: as a single '
              'block of private arrays, and split at random cut points through buffers that the '
              'caller overwrites (garbage, NaN, next chunk) right after each call. Distinct by node, '
              'number type, number of chunks, smallest chunk and overwrite pattern.')
CHECK.expect_events(chunks_fed=1000, buffers_overwritten=500)


MODES = ['garbage', 'nan', 'shared']


def seedall(seed):
    np.random.seed(seed)
    random.seed(seed)


def cuts_for(rng, spec, n):
    mode = rng.randint(4)
    m = max(1, spec.minchunk)
    if mode == 0:
        k = [int(rng.randint(1, n))]
    elif mode == 1:
        k = list(rng.choice(np.arange(1, n), size=min(n - 1, rng.randint(2, 12)), replace=False))
    elif mode == 2:
        k = list(range(m, n, m))            # finest
    else:
        k = list(range(1, min(n, 6))) + [n - 1]
    out, last = [], 0
    for c in sorted(set(int(i) for i in k)):
        if c - last >= m and n - c >= m:
            out.append(c)
            last = c
    return out


class Buffers(object):
    """The caller's arrays: reused for every chunk and overwritten after use."""

    def __init__(self, rng, rec, mode):
        self.rng, self.rec, self.mode = rng, rec, mode
        self.bufs = {}

    def put(self, name, a):
        if not isinstance(a, np.ndarray):
            return a
        if self.mode == 'shared':
            key = (name, a.dtype.str, a.shape[1:])
            b = self.bufs.get(key)
            if b is None or len(b) < len(a):
                b = self.bufs[key] = np.zeros((max(len(a), 512),) + a.shape[1:], a.dtype)
            v = b[:len(a)]
            v[...] = a
            return v
        return a.copy()

    def spoil(self, *arrs):
        for a in arrs:
            if isinstance(a, np.ndarray):
                self.rec.event('buffers_overwritten')
                if self.mode == 'nan' and a.dtype.kind == 'f':
                    a[...] = np.nan
                elif a.dtype.kind in 'if':
                    a[...] = 37


def feed(rng, rec, spec, node, chunks, mode):
    b = Buffers(rng, rec, mode)
    for x, e in chunks:
        xb = b.put('x', x)
        eb = b.put('e', e)
        if e is None:
            node.train(xb)
        else:
            node.train(xb, eb)
        rec.event('chunks_fed')
        b.spoil(xb, eb)


def observe(spec, node, x, seed):
    seedall(seed)
    out = [np.asarray(spec.run(node, x))]
    if spec.classifier:
        out.append(np.asarray(node.label(x)))
    return out


def compare(rec, spec, where, a, b, ga, gb, tol, key):
    for i, (u, v) in enumerate(zip(a, b)):
        if u.dtype.kind in 'iUSO' or i > 0:
            rec.require(np.array_equal(u, v), key, where + ' (labels)')
        else:
            if spec.name == 'SFA2' and C.scale(v) > 100:
                raise Skip('numeric')      # nearly singular expanded data
            rec.require(C.close(u, v, tol, spec.sign), key,
                        lambda: '%s: results differ by %g (scale %g)' % (where, C.maxdiff(u, v), C.scale(v)))
    for u, v in zip(ga, gb):
        rec.require(C.close(u, v, tol, False), key, where + ' (attributes)')


def tol_for(spec, dt):
    return 5e-3 if dt == np.dtype('f') else max(spec.tol, 1e-7)


CHUNKED = [(s.name, s) for s in C.SPECS if s.trainable and s.chunk]


@CHECK.each(CHUNKED, quick=30, thorough=500)
def split(rng, rec, spec):
    dts = list(spec.dtypes) + list(spec.ints)
    dt = np.dtype(dts[rng.randint(len(dts))]) if rng.rand() < 0.4 else np.dtype(dts[0] if 'd' not in dts else 'd')
    if dt == np.dtype('f') and spec.name in ('LLE', 'HLLE', 'NormRecExp', 'CuBICA', 'FDA2', 'FDA', 'SFA_reg', 'SFA_ldl', 'SFA_pca', 'SFA_svd'):
        dt = np.dtype('d')
    n = spec.n if rng.rand() < 0.5 else int(spec.n * (0.7 + rng.rand()))
    if spec.name in ('LLE', 'HLLE'):
        n = spec.n
    X = spec.data(rng, n, dtype=dt)
    E = spec.train_args(rng, X)
    seed = rng.randint(1 << 30)
    ref = spec.make()
    seedall(seed)
    spec.train(ref, [(X.copy(), None if E is None else E.copy())])
    node = spec.make()
    seedall(seed)
    mode = ['garbage', 'nan', 'shared'][rng.randint(3)]
    X0 = X.copy()
    ncs = []
    while node.is_training():
        chunks = spec.split(X, E, cuts_for(rng, spec, n))
        ncs.append((len(chunks), min(len(c[0]) for c in chunks)))
        feed(rng, rec, spec, node, chunks, mode)
        node.stop_training()
        if spec.online:
            break
    assert np.array_equal(X, X0)
    x = spec.xin(rng, 15, dt)
    s2 = rng.randint(1 << 30)
    if spec.name in ('LLE', 'HLLE'):
        ga, gb = [ref.training_projection], [node.training_projection]
        rec.require(C.close(ga[0], gb[0], 1e-4, True), 'chunk-dependent', '%s training_projection' % spec.name)
        rec.case(spec.name, str(dt), ncs, mode, seed)
        return
    ga = spec.getters(ref) if spec.getters else []
    gb = spec.getters(node) if spec.getters else []
    compare(rec, spec, '%s %s %d samples in chunks %s (%s)' % (spec.name, dt, n, ncs, mode),
            observe(spec, node, x, s2), observe(spec, ref, x, s2), gb, ga, tol_for(spec, dt), 'chunk-dependent')
    if hasattr(ref, 'tlen') and isinstance(getattr(ref, 'tlen'), int):
        if 'Histogram' not in spec.name:
            rec.require(ref.tlen == node.tlen, 'chunk-dependent', '%s tlen %s %s' % (spec.name, ref.tlen, node.tlen))
    rec.case(spec.name, str(dt), ncs, mode, seed)


ALLTRAIN = [(s.name, s) for s in C.SPECS if s.trainable]


@CHECK.each(ALLTRAIN, quick=15, thorough=250)
def overwrite(rng, rec, spec):
    """Same chunks, with and without the caller overwriting his buffers."""
    dt = np.dtype(spec.dtypes[rng.randint(len(spec.dtypes))])
    X = spec.data(rng, dtype=dt)
    E = spec.train_args(rng, X)
    n = len(X)
    if spec.chunk:
        cuts = cuts_for(rng, spec, n)
    elif 'TDSEP' in spec.name or 'ISFA' in spec.name:
        cuts = [n // 2]
    else:
        cuts = [n // 3, n // 2] if spec.name not in ('iGSFA', 'XSFA') else []
    chunks = spec.split(X, E, cuts)
    seed = rng.randint(1 << 30)
    ref = spec.make()
    seedall(seed)
    spec.train(ref, [(a.copy(), None if e is None else e.copy()) for a, e in chunks]) \
        if not spec.online else spec.feed(ref, [(a.copy(), None) for a, e in chunks])
    node = spec.make()
    seedall(seed)
    mode = ['garbage', 'nan', 'shared'][rng.randint(3)]
    while node.is_training():
        feed(rng, rec, spec, node, chunks, mode)
        if spec.online:
            break
        node.stop_training()
    x = spec.xin(rng, 12, dt)
    s2 = rng.randint(1 << 30)
    ga = spec.getters(ref) if spec.getters else []
    gb = spec.getters(node) if spec.getters else []
    where = '%s %s, caller overwrites buffers (%s)' % (spec.name, dt, mode)
    compare(rec, spec, where, observe(spec, node, x, s2), observe(spec, ref, x, s2), gb, ga,
            1e-9 if dt == np.dtype('d') and not spec.sign else tol_for(spec, dt), 'buffer-retained')
    # the same for execution: results must not alias what the caller overwrites
    xx = x.copy()
    seedall(s2)
    y = spec.run(node, xx)
    y0 = np.array(y)
    if spec.name not in ('Identity', 'Normalize') and not np.shares_memory(y, xx):
        xx[...] = 5
        rec.require(np.array_equal(y, y0, equal_nan=True), 'output-aliased', where)
    rec.case(spec.name, str(dt), len(chunks), mode, seed)


@CHECK.scenario(quick=60, thorough=800)
def cumulators(rng, rec):
    """Cumulator and VariadicCumulator user nodes hold exactly the fed samples."""
    class Cum(mdp.Cumulator):
        def _stop_training(self):
            super(Cum, self)._stop_training()
    fields = ['x', 'u', 'v'][:rng.randint(1, 4)]

    class Var(mdp.VariadicCumulator(*fields)):
        def _stop_training(self, *args, **kwargs):
            super(Var, self)._stop_training(*args, **kwargs)
    d = rng.randint(1, 5)
    nch = rng.randint(1, 7)
    chunks = [[rng.randn(m, d) for _ in fields] for m in rng.randint(1, 6, size=nch)]
    c, v = Cum(), Var()
    mode = ['garbage', 'nan', 'shared'][rng.randint(3)]
    b = Buffers(rng, rec, mode)
    for ch in chunks:
        xb = b.put('c', ch[0])
        c.train(xb)
        b.spoil(xb)
    for ch in chunks:
        arrs = [b.put('f%d' % i, a) for i, a in enumerate(ch)]
        v.train(*arrs)
        b.spoil(*arrs)
        rec.event('chunks_fed')
    c.stop_training()
    v.stop_training()
    full = [np.concatenate([ch[i] for ch in chunks]) for i in range(len(fields))]
    rec.require(np.array_equal(c.data, full[0]), 'cumulator', 'Cumulator.data (%s)' % mode)
    rec.require(c.tlen == len(full[0]), 'cumulator', 'Cumulator.tlen')
    for f, a in zip(fields, full):
        rec.require(np.array_equal(getattr(v, f), a), 'variadic-cumulator', 'VariadicCumulator.%s (%s)' % (f, mode))
    rec.case(d, nch, len(fields), mode, rng.randint(1 << 30))


@CHECK.scenario(quick=40, thorough=500)
def label_buffers(rng, rec):
    """Per-sample labels and targets held by supervised nodes are private copies."""
    specs = [s for s in C.SPECS if s.extra is not None]
    spec = specs[rng.randint(len(specs))]
    X = spec.data(rng)
    E = np.array(spec.train_args(rng, X))
    half = len(X) // 2
    seed = rng.randint(1 << 30)
    ref, node = spec.make(), spec.make()
    seedall(seed)
    spec.train(ref, [(X[:half].copy(), E[:half].copy()), (X[half:].copy(), E[half:].copy())])
    seedall(seed)
    buf, eb = np.empty_like(X), np.empty_like(E)
    while node.is_training():
        for a, b_ in ((0, half), (half, len(X))):
            buf[:b_ - a] = X[a:b_]
            eb[:b_ - a] = E[a:b_]
            node.train(buf[:b_ - a], eb[:b_ - a])
            rec.event('chunks_fed')
            eb[...] = eb[::-1].copy()
            buf[...] = buf[::-1].copy()
            rec.event('buffers_overwritten', 2)
        node.stop_training()
    x = spec.xin(rng, 12)
    compare(rec, spec, '%s label buffer reused' % spec.name, observe(spec, node, x, seed),
            observe(spec, ref, x, seed), [], [], tol_for(spec, np.dtype('d')), 'buffer-retained')
    rec.case(spec.name, seed)
